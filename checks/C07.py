"""Wind-field stage: one correct file per event, for any workers or restarts."""
import math
import os
import shutil

from hypothesis import strategies as st

from vf import Property, Skip, check, close, scratch
from vf import mpi, tracks as tk
from vf.gen import dec, edge

TECHNIQUE = ("stateful property-based testing of the stage with stand-in workers, injected "
             "interruptions and leftovers, against per-event recomputation")
NOTE = ("histories of up to three interrupted runs, 1-4 workers, leftovers of every kind a "
        "killed write can leave; final files compared with each event computed alone")
LEVEL = "fault_enumeration"

prop = Property("C07", level=LEVEL, preload=("numpy", "wind"), assumptions=[
    "interruptions raise at netCDF calls or leave a prefix of a file; no torn sectors",
    "workers are stand-ins scheduled one at a time"])


class Stop(BaseException):
    """The run is killed here."""


@st.composite
def event(draw, lim):
    far = draw(st.sampled_from([False] * 9 + [True]))
    x0 = lim["xMin"] + (draw(st.sampled_from([8.0, -9.0])) if far else 0)
    y0 = lim["yMin"] + (draw(st.sampled_from([0.0, -6.0])) if far else 0)
    pts = draw(tk.points((x0 - 0.7, x0 + 1.7), (y0 - 0.7, y0 + 1.7), n=(1, 3)))
    return [dict(p, lat=min(p["lat"], -2.0), cp=min(p["cp"], p["ep"])) for p in pts]


@st.composite
def stage_cases(draw):
    x = draw(st.sampled_from([110.0, 0.0, -3.0, 150.5]))
    y = draw(st.sampled_from([-15.0, -22.5]))
    lim = {"xMin": x, "xMax": x + 1.0, "yMin": y, "yMax": y + 1.0}
    files = draw(st.lists(st.lists(event(lim), min_size=1, max_size=4),
                          min_size=1, max_size=3))
    leftover = st.fixed_dictionaries({
        "event": st.integers(0, 11),
        "kind": st.sampled_from(["empty", "prefix", "garbage", "notnc", "unfilled"]),
        "cut": st.integers(1, 999)})
    runs = draw(st.lists(st.fixed_dictionaries({
        "size": st.integers(1, 3), "stop": st.integers(0, 40),
        "when": st.sampled_from(["before", "after"])}), max_size=2))
    return {"lim": lim, "files": files, "res": draw(st.sampled_from([0.25, 0.2, 0.5])),
            "margin": draw(st.sampled_from([1.0, 0.5])),
            "profile": draw(st.sampled_from(["holland", "powell", "schloemer", "willoughby"])),
            "field": draw(st.sampled_from(["kepert", "hubbert", "mcconochie"])),
            "beta": draw(st.sampled_from([1.4, 1.7])),
            "thetaMax": draw(st.sampled_from([70.0, 0.0, 115.0])),
            "leftovers": draw(st.lists(leftover, max_size=2)), "runs": runs,
            "names": draw(st.sampled_from(["tracks.%05d.nc", "tracks.%05d.nc", "tracks.4%04d.nc",
                                           "tracks.%d.nc", "tracks.interp%d.nc"])),
            "size": draw(st.integers(1, 4)),
            "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=4)),
            "repeat": draw(st.booleans())}


def write_config(path, c, extra=""):
    lim = c["lim"]
    cfg = os.path.join(path, "run.ini")
    with open(cfg, "w") as f:
        f.write("""[Region]
gridLimit = {'xMin': %r, 'xMax': %r, 'yMin': %r, 'yMax': %r}
[WindfieldInterface]
profileType = %s
windFieldType = %s
beta = %r
thetaMax = %r
Margin = %r
Resolution = %r
Domain = bounded
[Output]
Path = %s
%s
""" % (lim["xMin"], lim["xMax"], lim["yMin"], lim["yMax"], c["profile"], c["field"],
            c.get("beta", 1.4), c.get("thetaMax", 70.0), c["margin"], c["res"], path, extra))
    return cfg


def name(tid):
    return "gust.%03d-%05d.nc" % tid


def prepare(c, extra=""):
    from Utilities.track import ncSaveTracks
    path = scratch()
    for d in ("tracks", "windfield"):
        os.mkdir(os.path.join(path, d))
    events = {}
    for k, f in enumerate(c["files"]):
        ts = []
        for n, pts in enumerate(f):
            tid = (k + 1, n + 1)
            events[tid] = pts
            ts.append(tk.make(pts, tid=tid, start=(2000 + k, 1 + n, 3)))
        ncSaveTracks(os.path.join(path, "tracks", c.get("names", "tracks.%05d.nc") % (k + 1)), ts)
    return path, write_config(path, c, extra), events


def near(pts, c):
    lim, m = c["lim"], c["margin"]
    xs, ys = [p["lon"] for p in pts], [p["lat"] for p in pts]
    return (min(xs) <= lim["xMax"] + m and max(xs) >= lim["xMin"] - m and
            min(ys) <= lim["yMax"] + m and max(ys) >= lim["yMin"] - m)


def expected(c, pts, domain="bounded"):
    import wind
    lim = dict(c["lim"])
    w = wind.WindfieldAroundTrack(
        tk.make(pts), profileType=c["profile"], windFieldType=c["field"],
        beta=c.get("beta", 1.4), beta1=1.3, beta2=1.3, thetaMax=c.get("thetaMax", 70.0),
        margin=c["margin"], resolution=c["res"], gridLimit=lim, domain=domain)
    return w.regionalExtremes(lim)


def launch(cfg, size, schedule):
    import wind
    from Utilities.config import reset

    def rank(r):
        wind.run(cfg)
    reset()
    mpi.run_ranks(size, schedule, rank)


class stopping:
    """Raise at the n-th netCDF definition or write of new files."""

    def __init__(self, n, when):
        self.n, self.when = n, when

    def __enter__(self):
        import netCDF4
        from Utilities import nctools
        self.mod = nctools
        self.keep = getattr(nctools, "Dataset", None)
        state = self

        opened = self.opened = []

        class Faulty(netCDF4.Dataset):
            def __init__(self, *a, **k):
                netCDF4.Dataset.__init__(self, *a, **k)
                opened.append(self)

            def createVariable(self, *a, **k):
                state.tick("before")
                v = netCDF4.Dataset.createVariable(self, *a, **k)
                state.tick("after")
                return v

            def setncatts(self, *a, **k):
                state.tick("before")
                netCDF4.Dataset.setncatts(self, *a, **k)
        if self.keep is netCDF4.Dataset:
            nctools.Dataset = Faulty
        self.count = 0
        return self

    def tick(self, when):
        if when == self.when:
            self.count += 1
            if self.count == self.n:
                raise Stop()

    def __exit__(self, *exc):
        if self.keep is not None:
            self.mod.Dataset = self.keep
        for ds in self.opened:          # the end of the process closes its files
            if ds.isopen():
                ds.close()


def put_leftover(path, c, events, left, sample):
    import netCDF4
    tids = sorted(events)
    target = os.path.join(path, "windfield", name(tids[left["event"] % len(tids)]))
    if os.path.exists(target):
        return
    kind = left["kind"]
    if kind == "empty":
        open(target, "w").close()
    elif kind == "notnc":
        with open(target, "w") as f:
            f.write("half a record")
    elif kind in ("prefix", "garbage"):
        with open(sample, "rb") as f:
            data = f.read()
        cut = max(1, len(data) * left["cut"] // 1000)
        with open(target, "wb") as f:
            f.write(data[:cut])
            if kind == "garbage":
                f.write(b"\0" * (len(data) - cut) if left["cut"] < 20 else b"")
    else:
        with netCDF4.Dataset(sample) as src, netCDF4.Dataset(target, "w") as dst:
            for n, d in src.dimensions.items():
                dst.createDimension(n, len(d))
            stop = left["cut"] % 6
            for k, n in enumerate(("lat", "lon", "vmax", "ua", "va", "slp")):
                v = dst.createVariable(n, src[n].dtype, src[n].dimensions, fill_value=-9999)
                if k == stop:
                    break
                v[:] = src[n][:]


def inspect(path, c, events, ref, when):
    import numpy as np
    import netCDF4
    have = sorted(f for f in os.listdir(os.path.join(path, "windfield")))
    want = sorted(name(t) for t in events if near(events[t], c))
    check(have == want, "%s: files %s, expected %s" % (when, have, want))
    for tid in events:
        if not near(events[tid], c):
            continue
        gust, bearing, u, v, p, lon, lat = ref[tid]
        fn = os.path.join(path, "windfield", name(tid))
        with netCDF4.Dataset(fn) as nc:
            close(nc["lon"][:], lon, "%s %s longitude" % (when, name(tid)), atol=1e-9)
            close(nc["lat"][:], lat[::-1], "%s %s latitude" % (when, name(tid)), atol=1e-9)
            for n, a in (("vmax", gust), ("ua", u), ("va", v), ("slp", p)):
                close(np.ma.filled(nc[n][:], np.nan), a[::-1], "%s %s %s" % (when, name(tid), n),
                      rtol=2e-6, atol=1e-4)


@prop.facet(stage_cases, quick=90, thorough=900,
            rule="an interrupted run or leftover, or at least two workers with two events")
def stage(c, ctx):
    path, cfg, events = prepare(c)
    ref = {t: expected(c, events[t]) for t in events if near(events[t], c)}
    stopped = 0
    if c["leftovers"]:
        other, cfg2, _ = prepare(c)
        launch(cfg2, 1, [0])
        done = sorted(os.listdir(os.path.join(other, "windfield")))
        if done:
            for left in c["leftovers"]:
                put_leftover(path, c, {t: e for t, e in events.items() if near(e, c)}, left,
                             os.path.join(other, "windfield", done[0]))
                stopped += 1
        shutil.rmtree(other)
    for r in c["runs"]:
        try:
            with stopping(r["stop"], r["when"]):
                launch(cfg, r["size"], c["schedule"])
        except Stop:
            stopped += 1
    launch(cfg, c["size"], c["schedule"])
    ctx.nontrivial(stopped or (c["size"] > 1 and len(ref) > 1))
    ctx.klass("workers %d" % c["size"], "interrupted %d" % stopped, "files %d" % len(c["files"]),
              "events %d of %d near" % (len(ref), len(events)))
    inspect(path, c, events, ref, "after the stage")
    if c["repeat"]:
        launch(cfg, c["runs"][0]["size"] if c["runs"] else 1, c["schedule"])
        inspect(path, c, events, ref, "after repeating the stage")
    shutil.rmtree(path)


@prop.facet(stage_cases, quick=16, thorough=150,
            rule="every interruption point of one run, each followed by a complete run")
def every_point(c, ctx):
    """All interruption points of writing the first file."""
    c = dict(c, files=[c["files"][0][:1]], size=1)
    ev = c["files"][0][0]
    ev[0]["lon"], ev[0]["lat"] = c["lim"]["xMin"] + 0.5, c["lim"]["yMin"] + 0.25
    for when in ("before", "after"):
        for n in range(1, 12):
            path, cfg, events = prepare(c)
            hit = False
            try:
                with stopping(n, when):
                    launch(cfg, 1, [0])
            except Stop:
                hit = True
            ctx.nontrivial(hit)
            if hit:
                launch(cfg, 1, [0])
            ref = {t: expected(c, events[t]) for t in events}
            inspect(path, c, events, ref, "stopped %s write %d" % (when, n))
            shutil.rmtree(path)
            if not hit:
                break


class Lone:
    """COMM_WORLD of a worker whose companions are elsewhere."""

    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def barrier(self):
        pass

    Barrier = barrier

    def __getattr__(self, name):
        raise Skip("workers exchange data")


@st.composite
def alone_cases(draw):
    c = draw(stage_cases())
    c["size"] = draw(st.integers(2, 5))
    c["files"][0].append(draw(event(c["lim"])))
    return c


@prop.facet(alone_cases, quick=50, thorough=400, rule="at least two workers and two events")
def alone(c, ctx):
    """Workers that do not see each other's files share the events without overlap."""
    import wind
    from Utilities.config import reset
    path, cfg, events = prepare(c)
    near_ids = sorted(t for t in events if near(events[t], c))
    ctx.nontrivial(c["size"] > 1 and len(near_ids) > 1)
    out = os.path.join(path, "windfield")
    seen = {}
    for rank in range(c["size"]):
        reset()
        with mpi.installed(Lone(rank, c["size"])):
            wind.run(cfg)
        for f in os.listdir(out):
            check(f not in seen, "workers %s and %d of %d both write %s"
                  % (seen.get(f), rank, c["size"], f))
            seen[f] = rank
            os.remove(os.path.join(out, f))
    want = sorted(name(t) for t in near_ids)
    check(sorted(seen) == want, "%d workers: files %s, expected %s"
          % (c["size"], sorted(seen), want))
    shutil.rmtree(path)


@st.composite
def open_cases(draw):
    c = draw(stage_cases())
    c["files"] = [c["files"][0][:1]]
    c["domain"] = draw(st.sampled_from(["bounded", "bounded", "full"]))
    return c


@prop.facet(open_cases, quick=40, thorough=400,
            rule="no region configured; non-trivial when the track has two or more positions")
def no_region(c, ctx):
    """Without a region the field of an event covers its whole track."""
    pts = c["files"][0][0]
    ctx.nontrivial(len(pts) > 1)
    xs, ys = [p["lon"] for p in pts], [p["lat"] for p in pts]
    c = dict(c, lim={"xMin": float(math.floor(min(xs))), "xMax": float(math.ceil(max(xs))),
                     "yMin": float(math.floor(min(ys))), "yMax": float(math.ceil(max(ys)))})
    path, cfg, events = prepare(c)
    with open(cfg) as f:
        text = f.read()
    start = text.index("gridLimit")
    text = text[:start] + text[text.index("\n", start) + 1:]
    with open(cfg, "w") as f:
        f.write(text.replace("Domain = bounded", "Domain = " + c["domain"]))
    launch(cfg, c["size"], c["schedule"])
    ref = {t: expected(c, events[t], c["domain"]) for t in events}
    inspect(path, c, events, ref, "without a region")
    shutil.rmtree(path)
