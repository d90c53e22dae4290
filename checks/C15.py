"""Track simulations: same seeds, same tracks, however the work is shared."""
import math
import os

from hypothesis import strategies as st

from vf import Property, Violation, check, scratch
from vf import mpi, trackgen as tg
from vf.gen import dec

TECHNIQUE = ("metamorphic testing of complete track generation runs: repeated, shared over "
             "stand-in workers, extended with more years, with disturbed global state")
NOTE = ("1-60 simulated years, 1-4 workers, every file compared field by field; counts and "
        "streams also against their distributions")

prop = Property("C15", preload=("numpy", "TrackGenerator.TrackGenerator"), assumptions=[
    "seeds are non-zero, as zero means that none is given",
    "workers are stand-ins scheduled one at a time"])


@st.composite
def cases(draw, sims=(1, 5)):
    c = draw(tg.climates(nmax=3))
    # storms that last, so that a run ends quickly
    c.update(pinit=min(c["pinit"], 985.0), dp=min(c["dp"], 0.2), v=min(c["v"], 20.0),
             sp=max(c["sp"], 4.0), prange=min(c["prange"], 10.0))
    return {"c": c, "sims": draw(st.integers(*sims)), "freq": draw(st.sampled_from([0.6, 1.5, 2.5])),
            "years": draw(st.sampled_from([None, 1, 2])), "season": draw(st.integers(1, 2 ** 31 - 1)),
            "track": draw(st.integers(1, 2 ** 31 - 1)), "bit": draw(st.integers(0, 30)), "dt": draw(st.sampled_from([1.0, 3.0])),
            "steps": draw(st.sampled_from([24, 40])), "land": draw(st.booleans()),
            "more": draw(st.integers(1, 3)), "size": draw(st.integers(2, 4)),
            "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


def config(case, root, name, sims=None, track=None, freq=None, season=None):
    """A run directory; returns the configuration file."""
    import numpy as np
    from netCDF4 import Dataset
    c = case["c"]
    out = os.path.join(root, name)
    os.makedirs(os.path.join(out, "tracks"))
    tg.write(c, os.path.join(out, "process"))
    lim, sp, inc = tg.limits(c)
    nt, ny, nx = 12, 36, 72
    day = np.arange(nt) * 365.0 / nt
    lat = -90 + np.arange(ny) * 180.0 / ny
    lon = np.arange(nx) * 360.0 / nx
    with Dataset(os.path.join(out, "mslp.nc"), "w") as nc:
        for n, k in (("time", nt), ("lat", ny), ("lon", nx)):
            nc.createDimension(n, k)
        v = nc.createVariable("slp", "f8", ("time", "lat", "lon"))
        v.units = "hPa"
        v[:] = 1010.0 + np.cos(2 * np.pi * day / 365)[:, None, None] + \
            np.sin(np.radians(lat))[None, :, None] + 0 * lon[None, None, :]
    with Dataset(os.path.join(out, "land.nc"), "w") as nc:
        nc.createDimension("lat", 181)
        nc.createDimension("lon", 361)
        nc.createVariable("lat", "f8", ("lat",))[:] = np.arange(-90, 91.0)
        nc.createVariable("lon", "f8", ("lon",))[:] = np.arange(0, 361.0)
        m = np.zeros((181, 361))
        if case["land"]:
            m[:, np.arange(361) % 7 < 2] = 1
        nc.createVariable("landmask", "f8", ("lat", "lon"))[:] = m
    text = """[Input]
MSLPFile={o}/mslp.nc
MSLPVariableName=slp
LandMask={o}/land.nc
[Output]
Path={o}
[Region]
gridLimit={lim!r}
gridSpace={sp!r}
gridInc={inc!r}
[TrackGenerator]
NumSimulations={n}
NumTimeSteps={steps}
TimeStep={dt}
Format=nc
gridLimit={lim!r}
Frequency={f}
SeasonSeed={season}
TrackSeed={track}
""".format(o=out, lim=lim, sp=sp, inc=inc, n=sims or case["sims"], steps=case["steps"],
           dt=case["dt"], f=case["freq"] if freq is None else freq,
           season=season or case["season"],
           track=track or case["track"])
    if case["years"]:
        text += "YearsPerSimulation=%d\n" % case["years"]
    path = os.path.join(out, "run.ini")
    with open(path, "w") as f:
        f.write(text)
    return path


def launch(cfg, size, schedule, disturb=0):
    import numpy as np
    from TrackGenerator import TrackGenerator as tgm
    from Utilities.config import reset
    reset()
    np.random.seed(disturb)
    np.random.rand(disturb % 7)
    if size == 1:
        tgm.run(cfg)
    else:
        mpi.run_ranks(size, schedule, lambda r: tgm.run(cfg))
    return collect(os.path.join(os.path.dirname(cfg), "tracks"))


def collect(path):
    """Everything stored in a directory of track files."""
    import numpy as np
    from netCDF4 import Dataset
    out = {}
    for name in sorted(os.listdir(path)):
        with Dataset(os.path.join(path, name)) as nc:
            groups = nc.groups["tracks"].groups
            out[name] = [(g, groups[g].variables["track"].trackId,
                          groups[g].variables["track"][:]) for g in sorted(groups)]
    return out


def same(a, b, what):
    import numpy as np
    check(sorted(a) == sorted(b), "%s: files %r and %r" % (what, sorted(a), sorted(b)))
    for name in a:
        check(len(a[name]) == len(b[name]), "%s: %s has %d and %d tracks"
              % (what, name, len(a[name]), len(b[name])))
        for (g, i, t), (h, j, u) in zip(a[name], b[name]):
            check(g == h and i == j, "%s: %s identifies %s/%s and %s/%s" % (what, name, g, i, h, j))
            check(t.shape == u.shape and t.dtype.names == u.dtype.names,
                  "%s: %s %s has another shape" % (what, name, g))
            for f in t.dtype.names:
                check(t[f].tobytes() == u[f].tobytes(), "%s: %s of %s in %s differs"
                      % (what, f, g, name))


@prop.facet(cases, quick=36, thorough=500,
            rule="the track files do not depend on repetition, workers or further years")
def partitions(case, ctx):
    root = scratch()
    base = launch(config(case, root, "base"), 1, [0], 0)
    n = case["sims"]
    for name, tracks in base.items():
        k = int(name.split(".")[1])
        check(0 <= k < n and name == "tracks.%05d.nc" % k, "unexpected file %s" % name)
        for j, (_, tid, t) in enumerate(tracks):
            check(tid == repr((j, k)), "track %d of year %d is identified as %s" % (j, k, tid))
            check(len(t) > 0, "empty track")
    same(base, launch(config(case, root, "again"), 1, [0], 99), "repeated run")
    size = case["size"]
    same(base, launch(config(case, root, "shared"), size, case["schedule"], 17),
         "run on %d workers" % size)
    more = launch(config(case, root, "more", sims=n + case["more"]), 1, [0], 5)
    same(base, {k: v for k, v in more.items() if int(k.split(".")[1]) < n},
         "run of %d more years" % case["more"])
    # no two years alike
    seen = {}
    for name, tracks in more.items():
        for j, (_, _, t) in enumerate(tracks):
            key = (t["Longitude"].tobytes(), t["CentralPressure"].tobytes(), t["rMax"].tobytes())
            check(key not in seen, "%s track %d repeats %s" % (name, j, seen.get(key)))
            seen[key] = "%s track %d" % (name, j)
    ctx.klass("size%d" % size, "years%s" % case["years"], "land" if case["land"] else "sea")
    ctx.nontrivial(len(base) > 1)


@st.composite
def long_cases(draw):
    case = draw(cases(sims=(25, 60)))
    case.update(freq=draw(st.sampled_from([0.4, 0.7])), years=None, steps=24, dt=3.0)
    return case


@prop.facet(long_cases, quick=10, thorough=150,
            rule="many years: shared over workers, each year its own tracks")
def long_runs(case, ctx):
    root = scratch()
    base = launch(config(case, root, "base"), 1, [0], 0)
    same(base, launch(config(case, root, "shared"), case["size"], case["schedule"], 17),
         "run on %d workers" % case["size"])
    seen = {}
    for name, tracks in base.items():
        for _, _, t in tracks:
            key = t["Longitude"].tobytes()
            check(key not in seen, "%s repeats a track of %s" % (name, seen.get(key)))
            seen[key] = name
    ctx.klass("files %d0s" % (len(base) // 10))
    ctx.nontrivial(len(base) > 10)


@prop.facet(cases, quick=20, thorough=300,
            rule="another seed gives other tracks for every year, and the same counts")
def seeds(case, ctx):
    root = scratch()
    n = max(case["sims"], 2)
    base = launch(config(case, root, "base", sims=n), 1, [0])
    track = (case["track"] ^ (1 << case["bit"])) or 5
    other = launch(config(case, root, "other", sims=n, track=track), 1, [0])
    check(sorted(base) == sorted(other) and
          all(len(base[k]) == len(other[k]) for k in base),
          "the track seed changes the number of events")
    def keys(run):
        return {(t["Longitude"].tobytes(), t["CentralPressure"].tobytes(),
                 t["rMax"].tobytes()): name for name, ts in run.items() for _, _, t in ts}
    a, b = keys(base), keys(other)
    for k in a:
        check(k not in b, "seeds %d and %d share a track: %s and %s"
              % (case["track"], track, a[k], b.get(k)))
    ctx.nontrivial(len(a) > 1)


@st.composite
def count_cases(draw):
    case = draw(cases())
    case.update(freq=draw(st.sampled_from([0.3, 2.0, 7.5, 12.25])), sims=300)
    return case


@prop.facet(count_cases, quick=10, thorough=80,
            rule="the numbers of events per simulation follow the mean frequency and season length")
def counts(case, ctx):
    import numpy as np
    from TrackGenerator import TrackGenerator as tgm
    root = scratch()
    asked = {}
    keep = tgm.TrackGenerator.generateTracks

    def record(self, *args, **kw):
        n, sim = (args + (kw.get("nTracks"),) * (1 - len(args)) + (kw.get("simId"),))[:2]
        asked[sim] = int(n)
        return []
    tgm.TrackGenerator.generateTracks = record
    try:
        launch(config(case, root, "run"), 1, [0])
        first = dict(asked)
        asked.clear()
        launch(config(case, root, "shared"), case["size"], case["schedule"], 3)
        check(asked == first, "counts depend on the number of workers")
        asked.clear()
        season = (case["season"] ^ (1 << case["bit"])) or 5
        launch(config(case, root, "other", season=season), 1, [0])
        check(asked != first, "season seeds %d and %d give the same counts"
              % (case["season"], season))
    finally:
        tgm.TrackGenerator.generateTracks = keep
    n = case["sims"]
    check(sorted(first) == list(range(n)), "%d of %d simulations are run" % (len(first), n))
    v = np.array([first[k] for k in range(n)], float)
    mean = case["freq"] * (case["years"] or 1)
    check(abs(v.mean() - mean) < 6 * math.sqrt(mean / n) + 1e-9,
          "%.3f events per simulation on average, expected %.3f" % (v.mean(), mean))
    spread = math.sqrt((mean + 2 * mean ** 2) / n)
    check(abs(v.var() - mean) < 8 * spread, "variance of counts %.3f, expected %.3f" % (v.var(), mean))
    ctx.klass("freq%g" % case["freq"], "years%s" % case["years"])
    ctx.nontrivial(True)


@st.composite
def stream_cases(draw):
    a = (draw(st.integers(1, 10 ** 6)), draw(st.integers(0, 300)))
    b = (a[0] + draw(st.integers(-3, 3)), max(a[1] + draw(st.integers(-3, 3)), 0))
    return {"a": a, "b": (max(b[0], 1), b[1]), "n": draw(st.sampled_from([50, 400]))}


@prop.facet(stream_cases, quick=300, rule="seed and stream determine the draws, and nothing else")
def streams(case, ctx):
    import numpy as np
    from Utilities.tcrandom import Random
    n = case["n"]
    a, a2 = Random(*case["a"]), Random(*case["a"])
    b = Random(*case["b"])
    va = [a.uniform() for _ in range(n)]
    np.random.rand(3)
    vb = [b.uniform() for _ in range(n)]
    check([a2.uniform() for _ in range(n)] == va, "the same seed and stream give other draws")
    ctx.klass("same" if case["a"] == case["b"] else "different")
    if case["a"] == case["b"]:
        check(va == vb, "the same seed and stream give other draws")
        return
    ctx.nontrivial(True)
    check(va != vb, "seed and stream %r and %r give the same draws" % (case["a"], case["b"]))
    check(not set(va) & set(vb), "streams %r and %r overlap" % (case["a"], case["b"]))
    r = np.corrcoef(va, vb)[0, 1]
    check(abs(r) < 6.5 / math.sqrt(n), "streams %r and %r are correlated: %.3f"
          % (case["a"], case["b"], r))
