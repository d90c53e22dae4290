"""The hazard map for any tiling, number of workers and order of results."""
import os
import shutil

from hypothesis import strategies as st

from vf import Property, check, close, scratch
from vf import gust, mpi
from vf.gen import edge

TECHNIQUE = ("property-based testing of the whole hazard stage with stand-in workers over "
             "generated tilings and result orders, against cell-by-cell computation")
NOTE = ("domains up to 260 cells long, tiles of 1-100 cells, 1-6 processes with generated "
        "schedules; every stored value compared with the fit of that cell's own record, every limit with "
        "the limits calculated for that cell")

prop = Property("C11", preload=("numpy", "hazard"), assumptions=[
    "workers are stand-ins scheduled one at a time",
    "confidence limits use random samples: those stored are compared with those calculated for "
    "the same record during the run"])


@st.composite
def domains(draw):
    res = draw(st.sampled_from([20, 50, 100, 250, 33, 1000]))     # thousandths of a degree
    x0 = draw(st.sampled_from([0, 110000, -3000, 150500, 113300, 359000]))
    y0 = draw(st.sampled_from([-15000, -22700, 0, 8100, -500]))
    nx, ny = draw(st.integers(1, 60)), draw(st.integers(1, 40))
    mx, my = draw(st.integers(0, 3)), draw(st.integers(0, 3))
    off = draw(st.sampled_from([0, 0, 0, 1]))       # limits between grid points
    return {"res": res, "x0": x0, "y0": y0, "nx": nx, "ny": ny, "mx": mx, "my": my,
            "off": off, "xstep": draw(edge(st.integers(1, 70), 1, 100)),
            "ystep": draw(edge(st.integers(1, 50), 1, 100))}


def grid(c):
    """Wind-field coordinates and the limits of the hazard domain."""
    import numpy as np
    lon = (c["x0"] + c["res"] * np.arange(-c["mx"], c["nx"] + c["mx"])) / 1000.
    lat = (c["y0"] - c["res"] * np.arange(-c["my"], c["ny"] + c["my"])) / 1000.
    half = (c["res"] // 2) if c["off"] else 0
    lim = {"xMin": (c["x0"] - half) / 1000., "xMax": (c["x0"] + c["res"] * (c["nx"] - 1) + half) / 1000.,
           "yMin": (c["y0"] - c["res"] * (c["ny"] - 1) - half) / 1000., "yMax": (c["y0"] + half) / 1000.}
    return lon, lat, lim


@prop.facet(domains, quick=600, thorough=9000, rule="more than one tile")
def tiles(c, ctx):
    """Tiles cover every cell of the domain exactly once."""
    import numpy as np
    import hazard
    lon, lat, lim = grid(c)
    tg = hazard.TileGrid(lim, lon, lat, c["xstep"], c["ystep"])
    glon, glat = tg.getDomainExtent()
    close(glon, lon[c["mx"]:c["mx"] + c["nx"]], "longitudes of the domain", atol=1e-9)
    close(glat, lat[c["my"]:c["my"] + c["ny"]], "latitudes of the domain", atol=1e-9)
    seen = np.zeros((len(lat), len(lon)), int)
    limits = hazard.getTiles(tg)
    ctx.nontrivial(len(limits) > 1)
    ctx.klass("tiles %s" % ("1" if len(limits) == 1 else "2-9" if len(limits) < 10 else "10+"))
    for x1, x2, y1, y2 in limits:
        check(0 <= x1 < x2 <= len(lon) and 0 <= y1 < y2 <= len(lat),
              "tile %s outside the wind field" % ((x1, x2, y1, y2),))
        check(x2 - x1 <= c["xstep"] and y2 - y1 <= c["ystep"],
              "tile %s larger than %d x %d" % ((x1, x2, y1, y2), c["xstep"], c["ystep"]))
        seen[y1:y2, x1:x2] += 1
    want = np.zeros_like(seen)
    want[c["my"]:c["my"] + c["ny"], c["mx"]:c["mx"] + c["nx"]] = 1
    check((seen == want).all(), lambda: "cells covered %s times, expected once inside the domain"
          % sorted(set(seen[seen != want].tolist())))


@st.composite
def maps(draw, wide=False):
    c = draw(domains())
    if wide:
        c["nx"], c["ny"] = draw(st.sampled_from([(101, 1), (1, 130), (205, 1), (2, 101), (100, 2)]))
        c["xstep"] = c["ystep"] = None
    else:
        c["nx"], c["ny"] = draw(st.integers(1, 7)), draw(st.integers(1, 6))
        c["xstep"], c["ystep"] = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c["res"] = draw(st.sampled_from([50, 250, 20]))
    c.update(years=draw(st.integers(4, 9 if wide else 14)), seed=draw(st.integers(0, 10 ** 6)),
             size=draw(st.integers(1, 6)),
             schedule=draw(st.lists(st.integers(0, 5), min_size=1, max_size=5)),
             evd="GEV" if wide else draw(
                 st.sampled_from(["GEV"] * 4 + ["emp", "power", "GPD"] * 2)),
             ci=draw(st.booleans()), yrs=draw(st.sampled_from([1, 1, 2, 3])),
             min=draw(st.sampled_from([3, 5])),
             aris=draw(st.sampled_from([[2, 5, 10], [3], [5, 2, 100, 20]])),
             per=draw(st.sampled_from([1, 3])),
             extras=draw(st.lists(st.sampled_from(["evolution", "folder", "note"]),
                                  unique=True, max_size=2)),
             order=draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)))
    if c["evd"] == "emp":
        c["aris"] = [2, 3.5]
    return c


def events(c, shape):
    """{(number, year): gust field}; some years and some cells stay calm."""
    import numpy as np
    r = np.random.RandomState(c["seed"] % (2 ** 31))
    calm = r.uniform(size=shape) < 0.15
    out = {}
    for y in range(c["years"]):
        for n in range(r.randint(0, c["per"] + 1) if y else 1):
            v = np.round(r.gumbel(30, 6, shape).clip(3, 90), 2)
            v[r.uniform(size=shape) < 0.15] = 0.0
            v[calm] = 0.0
            out[(n, y)] = v.astype("f4")
    return out


def config(path, c, lim):
    cfg = os.path.join(path, "run.ini")
    with open(cfg, "w") as f:
        f.write("""[Region]
gridLimit = %r
[TrackGenerator]
NumSimulations = %d
YearsPerSimulation = %d
[Hazard]
Years = %s
MinimumRecords = %d
CalculateCI = %s
SampleSize = 4
PercentileRange = 90
ExtremeValueDistribution = %s
[Output]
Path = %s
""" % (lim, c["years"], c["yrs"], ",".join(str(a) for a in c["aris"]), c["min"], c["ci"],
            c["evd"], path))
    return cfg


def cell(c, record, annual):
    """Levels and parameters of one cell."""
    import numpy as np
    from hazard import evd, GPD
    years = np.array(c["aris"], dtype="f")
    data = np.sort(np.array(annual if c["evd"] == "GEV" else record, "f4"))
    if data.max() <= 0:
        return np.zeros(len(years)), 0.0, 0.0, 0.0
    if c["evd"] == "GEV":
        return evd.gevfit(data, years, -9999., c["min"], c["yrs"])
    total = c["years"] * c["yrs"]
    if c["evd"] == "emp":
        return evd.empfit(data, years, total, -9999., c["min"])
    if c["evd"] == "power":
        return evd.powerfit(data, years, total, -9999., c["min"])
    return GPD.gpdfit(data, years, total, -9999., c["min"], threshold=99.5)


def stage(c, ctx):
    import numpy as np
    import netCDF4
    import hazard
    from Utilities.config import reset
    lon, lat, lim = grid(c)
    path = scratch()
    for d in ("windfield", "hazard"):
        os.mkdir(os.path.join(path, d))
    ev = events(c, (len(lat), len(lon)))
    for (n, y), v in ev.items():
        gust.write(os.path.join(path, "windfield", gust.NAME % (n, y)), lon, lat, v)
    gust.extras(os.path.join(path, "windfield"), c["extras"], lon, lat)
    cfg = config(path, c, lim)
    keep = hazard.TileGrid
    if c["xstep"]:
        hazard.TileGrid = lambda *a, **k: keep(
            *a[:3], **dict(k, xstep=c["xstep"], ystep=c["ystep"]))
    keep_ci, limits = hazard.calculateCI, {}

    def recording(*a, **k):
        rec = np.sort(np.array(a[0] if a else k["Vr"]), axis=0)
        up, lo = keep_ci(*a, **k)
        for j in range(rec.shape[1]):
            for i in range(rec.shape[2]):
                limits.setdefault(rec[:, j, i].tobytes(), []).append(
                    (np.array(up[:, j, i]), np.array(lo[:, j, i])))
        return up, lo
    hazard.calculateCI = recording
    import random
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    reset()
    try:
        with gust.shuffled(c["order"]):
            mpi.run_ranks(c["size"], c["schedule"], lambda r: hazard.run(cfg))
    finally:
        hazard.TileGrid, hazard.calculateCI = keep, keep_ci
    many = (c["nx"] > (c["xstep"] or 100)) or (c["ny"] > (c["ystep"] or 100))
    ctx.nontrivial(many)
    ctx.klass("workers %d" % c["size"], "tiles %s" % ("many" if many else "one"), c["evd"],
              "confidence limits" if c["ci"] else "no limits")
    record = np.array([ev[k] for k in sorted(ev)])
    annual = np.zeros((c["years"],) + record.shape[1:], "f4")
    for (n, y), v in ev.items():
        annual[y] = np.maximum(annual[y], v)
    ii = slice(c["mx"], c["mx"] + c["nx"])
    jj = slice(c["my"], c["my"] + c["ny"])
    record, annual = record[:, jj, ii], annual[:, jj, ii]
    with netCDF4.Dataset(os.path.join(path, "hazard", "hazard.nc")) as nc:
        nc.set_auto_mask(False)
        close(nc["lon"][:], lon[ii], "longitudes of the map", atol=2e-5)
        close(nc["lat"][:], lat[jj], "latitudes of the map", atol=2e-5)
        close(nc["ari"][:], c["aris"], "return periods of the map", rtol=1e-6)
        got = {n: nc[n][:].astype(float) for n in
               ("wspd", "loc", "scale", "shp", "wspdupper", "wspdlower")}
    for j in range(c["ny"]):
        for i in range(c["nx"]):
            w, l, s, k = cell(c, record[:, j, i], annual[:, j, i])
            where = "at row %d column %d" % (j, i)
            close(got["wspd"][:, j, i], w, "levels " + where, rtol=1e-4, atol=2e-3)
            close(got["loc"][j, i], l, "location " + where, rtol=1e-4, atol=2e-3)
            close(got["scale"][j, i], s, "scale " + where, rtol=1e-4, atol=2e-3)
            close(got["shp"][j, i], k, "shape " + where, rtol=1e-4, atol=2e-4)
    up, lo = got["wspdupper"], got["wspdlower"]
    if c["ci"]:
        check((up >= lo).all(), "an upper limit below the lower limit")
        check(((up == -9999) == (lo == -9999)).all(), "one limit missing without the other")
        calm = (annual if c["evd"] == "GEV" else record).max(axis=0) <= 0
        check((up[:, calm] == -9999).all(), "limits at a cell without any wind")
        ok = up[up != -9999]
        own = annual if c["evd"] == "GEV" else record
        for j in range(c["ny"] if limits else 0):
            for i in range(c["nx"]):
                known = limits.get(np.sort(own[:, j, i]).tobytes(), [])
                check(any(np.allclose(up[:, j, i], a, rtol=1e-5) and
                          np.allclose(lo[:, j, i], b, rtol=1e-5) for a, b in known),
                      lambda: "limits %s %s at row %d column %d are not those calculated there: %s"
                      % (up[:, j, i], lo[:, j, i], j, i, known))
        ctx.klass("limits %s" % ("present" if ok.size else "missing"))
    shutil.rmtree(path)


@prop.facet(maps, quick=150, thorough=1600, rule="more than one tile")
def assembled(c, ctx):
    stage(c, ctx)


@prop.facet(lambda: maps(wide=True), quick=14, thorough=200, rule="more than one tile")
def wide(c, ctx):
    """The tile size the stage itself uses."""
    stage(c, ctx)
