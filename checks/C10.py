"""Annual maxima used for hazard estimation."""
import os
import shutil

from hypothesis import strategies as st

from vf import Property, check, close, scratch
from vf import gust
from vf.gen import edge

TECHNIQUE = ("property-based testing over generated folders of event files and listing orders, "
             "against maxima taken directly; and through the wind-field stage itself")
NOTE = ("folders of up to 30 events over up to 12 years with files of other kinds beside them; "
        "every year, point and sub-area compared exactly")

prop = Property("C10", preload=("numpy", "hazard", "wind"), assumptions=[
    "event files are those the wind-field stage writes: one grid, named by event and year"])


@st.composite
def folders(draw):
    nx, ny = draw(st.integers(1, 7)), draw(st.integers(1, 6))
    years = draw(st.integers(1, 12))
    events = draw(st.lists(st.tuples(
        edge(st.integers(0, years - 1), 0, years - 1),
        edge(st.integers(0, 40), 0, 9, 10, 99, 100, 999, 1000),
        st.integers(0, 10 ** 6)), max_size=30, unique_by=lambda t: (t[0], t[1])))
    x1 = draw(st.integers(0, nx - 1))
    y1 = draw(st.integers(0, ny - 1))
    return {"nx": nx, "ny": ny, "years": years, "events": [list(e) for e in events],
            "limits": [x1, draw(st.integers(x1 + 1, nx)), y1, draw(st.integers(y1 + 1, ny))],
            "later": draw(st.sampled_from([0, 0, 1, 90000])),
            "order": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            "extras": draw(st.lists(st.sampled_from(["evolution", "folder", "note"]),
                                    unique=True, max_size=2))}


def field(seed, ny, nx):
    """Gusts of one event: some of the area calm, some values repeated."""
    import numpy as np
    r = np.random.RandomState(seed % (2 ** 31))
    v = r.choice([0.0, 1.0, 1.0], (ny, nx)) * np.round(r.uniform(5, 90, (ny, nx)), 2)
    if seed % 7 == 0:
        v[:] = 0.0
    return v.astype("f4")


def build(c):
    import numpy as np
    path = scratch()
    lon = 110 + 0.05 * np.arange(c["nx"])
    lat = -10 - 0.05 * np.arange(c["ny"])
    data = {}
    for y, n, s in c["events"]:
        v = field(s, c["ny"], c["nx"])
        data[(n, y)] = v
        gust.write(os.path.join(path, gust.NAME % (n, y)), lon, lat, v)
    if c["later"]:      # an event of a year beyond those simulated
        gust.write(os.path.join(path, gust.NAME % (1, c["years"] - 1 + c["later"])), lon, lat,
                   np.full((c["ny"], c["nx"]), 95.0))
    gust.extras(path, c["extras"], lon, lat)
    return path, data, lon, lat


@prop.facet(folders, quick=220, thorough=3500,
            rule="a year with several events and a year without, or a sub-area")
def annual(c, ctx):
    import numpy as np
    import hazard
    path, data, lon, lat = build(c)
    want = np.zeros((c["years"], c["ny"], c["nx"]), "f4")
    for (n, y), v in data.items():
        want[y] = np.maximum(want[y], v)
    counts = [sum(1 for _, y in data if y == k) for k in range(c["years"])]
    ctx.nontrivial(max(counts) > 1 and min(counts) == 0)
    ctx.klass("events per year up to %s" % min(max(counts), 3),
              "empty years %s" % ("some" if min(counts) == 0 else "none"),
              "extra files %d" % len(c["extras"]))
    with gust.shuffled(c["order"]):
        full = hazard.aggregateWindFields(path, c["years"], (0, c["nx"], 0, c["ny"]))
        x1, x2, y1, y2 = c["limits"]
        part = hazard.aggregateWindFields(path, c["years"], tuple(c["limits"]))
    close(np.ma.filled(full, np.nan), want, "annual maxima", rtol=0)
    close(np.ma.filled(part, np.nan), want[:, y1:y2, x1:x2],
          "annual maxima over %s" % (c["limits"],), rtol=0)
    shutil.rmtree(path)


@prop.facet(folders, quick=160, thorough=2500, rule="several events")
def every_event(c, ctx):
    """The event record used for event-based curves holds each event once."""
    import numpy as np
    import hazard
    path, data, lon, lat = build(c)
    if c["later"]:
        data[(1, c["years"] - 1 + c["later"])] = np.full((c["ny"], c["nx"]), 95.0, "f4")
    ctx.nontrivial(len(data) > 1)
    ctx.klass("extra files %d" % len(c["extras"]))
    x1, x2, y1, y2 = c["limits"]
    with gust.shuffled(c["order"]):
        got = hazard.loadFilesFromPath(path, tuple(c["limits"]))
        if data:
            glon, glat = hazard.setDomain(path)
            close(glon, lon, "longitudes of the wind fields", atol=1e-9)
            close(glat, lat, "latitudes of the wind fields", atol=1e-9)
    got = np.ma.filled(got, np.nan)
    check(len(got) == len(data), "%d events loaded of %d" % (len(got), len(data)))
    for a in range(y2 - y1):
        for b in range(x2 - x1):
            close(np.sort(got[:, a, b]),
                  np.sort([v[y1 + a, x1 + b] for v in data.values()]),
                  "event record at (%d, %d)" % (a, b), rtol=0)
    # every event keeps its own pattern
    have = sorted(tuple(v.ravel().tolist()) for v in got)
    check(have == sorted(tuple(v[y1:y2, x1:x2].ravel().tolist()) for v in data.values()),
          "an event's values moved to another event")
    if data:
        (n, y), v = sorted(data.items())[0]
        one = hazard.loadFile(os.path.join(path, gust.NAME % (n, y)), tuple(c["limits"]))
        close(np.ma.filled(one, np.nan), v[y1:y2, x1:x2], "single event", rtol=0)
    shutil.rmtree(path)


@st.composite
def stages(draw):
    from . import C07
    c = draw(C07.stage_cases())
    c["files"] = draw(st.lists(st.lists(C07.event(c["lim"]), min_size=1, max_size=4),
                               min_size=2, max_size=3))
    c["sims"] = draw(st.lists(st.integers(0, 5), min_size=len(c["files"]),
                              max_size=len(c["files"]), unique=True))
    return c


@prop.facet(stages, quick=30, thorough=350, rule="events in several years")
def staged(c, ctx):
    """Events simulated for a year count towards that year."""
    import numpy as np
    import hazard
    import netCDF4
    from Utilities.track import ncSaveTracks
    from vf import tracks as tk
    from . import C07
    path = scratch()
    for d in ("tracks", "windfield"):
        os.mkdir(os.path.join(path, d))
    for sim, f in zip(c["sims"], c["files"]):
        ncSaveTracks(os.path.join(path, "tracks", "tracks.%05d.nc" % sim),
                     [tk.make(p, tid=(k, sim), start=(2000, 1 + k, 3))
                      for k, p in enumerate(f)])
    C07.launch(C07.write_config(path, c), c["size"], c["schedule"])
    wf = os.path.join(path, "windfield")
    want = {}
    for sim, f in zip(c["sims"], c["files"]):
        for pts in f:
            if C07.near(pts, c):
                g, _, _, _, _, lon, lat = C07.expected(c, pts)
                want[sim] = np.maximum(want.get(sim, 0.0), g[::-1])
    if not want:
        check(not os.listdir(wf), "files for events out of reach")
        shutil.rmtree(path)
        return
    ctx.nontrivial(len(want) > 1)
    ctx.klass("years %d" % len(want))
    lon, lat = hazard.setDomain(wf)
    got = hazard.aggregateWindFields(wf, 6, (0, len(lon), 0, len(lat)))
    for y in range(6):
        close(got[y], want.get(y, np.zeros((len(lat), len(lon)))), "year %d" % y,
              rtol=2e-6, atol=1e-4)
    shutil.rmtree(path)
