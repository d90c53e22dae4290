"""Each cell's statistics come from the right observations."""
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, close, scratch, Violation

TECHNIQUE = ("generated observation sets on small grids, compared with a "
             "brute-force selection of each cell's sample and plain-Python "
             "statistics of it; save and reload")
NOTE = ("grids up to 4 x 3 cells and 140 observations, now and then ten times as many; domain limits, cell "
        "sizes and increments are multiples of 1/4 degree")

prop = Property("C22", assumptions=[
    "domain limits, cell sizes and increments are multiples of 1/4 degree",
    "missing observations carry the configured missing value"])

SIZES = [1, 2, 2.5, 5, 3]
INCS = [0.5, 1, 2, 2.5, 5]


@st.composite
def grids(draw, most=12):
    x0 = draw(st.sampled_from([0, 70, 110, 175, -10, 350, 145]))
    y0 = draw(st.sampled_from([-30, -10, 0, 5, -5]))
    gx, gy = draw(st.sampled_from(SIZES)), draw(st.sampled_from(SIZES))
    nx = draw(st.integers(1, 4))
    ny = draw(st.integers(1, max(1, min(3, most // nx))))
    w, h = nx * gx, ny * gy
    if draw(st.integers(0, 3)) == 0:
        # A part cell in the last row and column.
        w, h = w - gx / 4.0 * draw(st.integers(0, 2)), h - gy / 4.0 * draw(st.integers(0, 2))
        w, h = math.ceil(w * 4) / 4.0, math.ceil(h * 4) / 4.0
    return {"limit": {"xMin": x0, "xMax": x0 + w, "yMin": y0, "yMax": y0 + h},
            "space": {"x": gx, "y": gy},
            "inc": {"x": draw(st.sampled_from(INCS)), "y": draw(st.sampled_from(INCS))}}


@st.composite
def cases(draw, most=12, sample=st.integers(1, 25), nobs=st.integers(20, 140)):
    d = draw(grids(most))
    big = draw(st.integers(0, 24)) == 0
    d["seed"] = draw(st.integers(0, 2 ** 32 - 1))
    d["n"] = draw(nobs) * (10 if big else 1)
    d["spread"] = draw(st.sampled_from(["uniform", "uniform", "corner", "lattice"]))
    d["outside"] = draw(st.sampled_from([0.0, 0.1, 0.3]))
    d["land"] = draw(st.sampled_from([0.0, 0.05, 0.3, 0.5]))
    d["missing"] = draw(st.sampled_from([0.0, 0.05, 0.3]))
    d["values"] = draw(st.sampled_from(["pressure", "speed", "bearing", "ties", "patchy"]))
    d["missval"] = draw(st.sampled_from(["maxsize", -9999]))
    d["min"] = draw(sample) * (draw(st.sampled_from([1, 10])) if big else 1)
    return d


def build(d):
    rs = np.random.RandomState(d["seed"])
    lim, n = d["limit"], d["n"]
    w, h = lim["xMax"] - lim["xMin"], lim["yMax"] - lim["yMin"]
    u, v = rs.rand(n), rs.rand(n)
    if d["spread"] == "corner":
        u, v = u ** 3, v ** 3
    lon, lat = lim["xMin"] + u * w, lim["yMin"] + v * h
    places = 4 if d["spread"] == "lattice" else 100
    lon, lat = np.round(lon * places) / places, np.round(lat * places) / places
    out = rs.rand(n) < d["outside"]
    far = rs.choice([-1, 1], (n, 2)) * rs.uniform(0, 6, (n, 2))
    lon = np.where(out, np.where(far[:, 0] > 0, lim["xMax"], lim["xMin"]) + far[:, 0], lon)
    lat = np.where(out & (rs.rand(n) < 0.5),
                   np.where(far[:, 1] > 0, lim["yMax"], lim["yMin"]) + far[:, 1], lat)
    flag = np.where(rs.rand(n) < d["land"], rs.choice([1, 1, 2, 0.5], n), 0)
    if d["values"] == "pressure":
        val = rs.randint(9000, 10100, n) / 10.0
    elif d["values"] == "speed":
        val = np.round(rs.gamma(2, 8, n), 2)
    elif d["values"] == "bearing":
        val = np.round((rs.normal(rs.choice([0, 90, 200, 350]), 50, n)) % 360, 1) % 360
    elif d["values"] == "ties":
        val = rs.choice([5.0, 5.0, 5.0, 10.0], n)
    else:
        # The same value over a whole block, so that boxes have to widen.
        val = 900.0 + np.floor(lon / 4) + np.floor(lat / 4)
    miss = sys.maxsize if d["missval"] == "maxsize" else float(d["missval"])
    val = np.where(rs.rand(n) < d["missing"], float(miss), val)
    if d["missval"] != "maxsize":
        # flagged by an earlier stage
        val = np.where(rs.rand(n) < d["missing"] / 2, float(sys.maxsize), val)
    return np.column_stack([lon, lat, flag]), val, miss


def boxes(d, cell):
    """The boxes a cell goes through, smallest first."""
    lim, sp, inc = d["limit"], d["space"], d["inc"]
    ncol = math.ceil((lim["xMax"] - lim["xMin"]) / sp["x"])
    w = lim["xMin"] + (cell % ncol) * sp["x"]
    n = lim["yMax"] - (cell // ncol) * sp["y"]
    box = (w, w + sp["x"], n - sp["y"], n)
    while True:
        yield box
        new = (max(box[0] - inc["x"], lim["xMin"]), min(box[1] + inc["x"], lim["xMax"]),
               max(box[2] - inc["y"], lim["yMin"]), min(box[3] + inc["y"], lim["yMax"]))
        if new == box:
            return
        box = new


def pick(d, cell, obs, val, miss, keep):
    """Sample of a cell: (values, number of widenings) or None."""
    for k, (w, e, s, n) in enumerate(boxes(d, cell)):
        p = [v for (x, y, f), v in zip(obs, val)
             if w <= x < e and s <= y < n and keep(f) and v != miss and v < sys.maxsize]
        if len(p) > d["min"] and max(p) != min(p):
            return p, k
    return None


def ncells(d):
    lim, sp = d["limit"], d["space"]
    return (math.ceil((lim["xMax"] - lim["xMin"]) / sp["x"]) *
            math.ceil((lim["yMax"] - lim["yMin"]) / sp["y"]))


def summary(p, angular):
    n = len(p)
    if angular:
        s = sum(math.sin(math.radians(v)) for v in p) / n
        c = sum(math.cos(math.radians(v)) for v in p) / n
        mu, sig = math.atan2(s, c) % (2 * math.pi), math.sqrt(max(0, 1 - math.hypot(s, c)))
    else:
        mu = math.fsum(p) / n
        sig = math.sqrt(math.fsum((v - mu) ** 2 for v in p) / n)
    a = math.fsum(x * y for x, y in zip(p, p[1:])) / math.fsum(v * v for v in p)
    return mu, sig, a, math.sqrt(max(0, 1 - a * a)), min(p)


def expected(d, obs, val, miss):
    sea, land, wide, reverted = [], [], 0, 0
    for cell in range(ncells(d)):
        s = pick(d, cell, obs, val, miss, lambda f: f == 0)
        if s is None:
            return None
        l = pick(d, cell, obs, val, miss, lambda f: f > 0)
        reverted += l is None
        wide += s[1] > 0
        sea.append(s[0])
        land.append((l or s)[0])
    return sea, land, wide, reverted


def classes(d, ctx, wide, reverted):
    n = ncells(d)
    ctx.klass("values " + d["values"])
    if wide:
        ctx.klass("widened")
    if wide < n:
        ctx.klass("not widened")
    if reverted:
        ctx.klass("land falls back to sea")
    if reverted < n:
        ctx.klass("land sample")
    if d["missing"]:
        ctx.klass("missing values")
    ctx.nontrivial(n > 1 and wide < n)


def compare(got, want, what, tol=1e-9):
    for name, g, w in zip(("mean", "spread", "autocorrelation", "phi", "minimum"), got, want):
        g = float(g)
        t = tol
        if name == "mean" and abs(abs(g - w) - 2 * math.pi) < 1e-6:
            g = w
        if name in ("phi", "spread"):
            t = max(tol, 1e-6)
        if not (abs(g - w) <= t * max(1.0, abs(w))):
            raise Violation("%s: %s is %r, the sample gives %r" % (what, name, g, w))


FIELDS = ("mu", "sig", "alpha", "phi", "min")


def make(d, obs, val, miss, where=None):
    from StatInterface.generateStats import GenerateStats
    angular = d["values"] == "bearing"
    if where:
        llf, pf = os.path.join(where, "ll"), os.path.join(where, "p")
        np.savetxt(llf, obs, fmt="%.10f", delimiter=",", header="lon,lat,flag", comments="%")
        np.savetxt(pf, val, fmt="%.6f", header="value", comments="%")
        obs, val = llf, pf
    return GenerateStats(val, obs, d["limit"], d["space"], d["inc"], d["min"],
                         angular, miss)


@prop.facet(cases, quick=1200, thorough=20000,
            rule="observations over a grid of cells; non-trivial when there is "
                 "more than one cell and some cell needs no widening")
def statistics(d, ctx):
    obs, val, miss = build(d)
    want = expected(d, obs, val, miss)
    if want is None:
        ctx.klass("too few observations")
        try:
            make(d, obs, val, miss)
        except StopIteration:
            return
        raise Violation("statistics produced although the whole domain holds "
                        "too few observations or only one value")
    sea, land, wide, reverted = want
    classes(d, ctx, wide, reverted)
    angular = d["values"] == "bearing"
    g = make(d, obs, val, miss)
    check(len(g.coeffs.mu) == ncells(d), "number of cells")
    for cell in range(ncells(d)):
        got = [getattr(g.coeffs, f)[cell] for f in FIELDS]
        compare(got, summary(sea[cell], angular), "cell %d (sea)" % cell)
        got = [getattr(g.coeffs, "l" + f)[cell] for f in FIELDS]
        compare(got, summary(land[cell], angular), "cell %d (land)" % cell)
    for bad in (-1, ncells(d)):
        try:
            g.extractParameter(bad, False)
        except IndexError:
            continue
        raise Violation("cell number %d of %d accepted" % (bad, ncells(d)))


@prop.facet(cases, quick=600, thorough=9000,
            rule="as statistics, with the observations in text files and the "
                 "statistics saved and reloaded; non-trivial when there is more "
                 "than one cell and some cell needs no widening")
def saved(d, ctx):
    d = dict(d, missval="maxsize")
    obs, val, miss = build(d)
    val = np.where(val >= sys.maxsize, float(sys.maxsize), val)
    want = expected(d, obs, val, miss)
    if want is None:
        ctx.klass("too few observations")
        return
    sea, land, wide, reverted = want
    classes(d, ctx, wide, reverted)
    angular = d["values"] == "bearing"
    where = scratch()
    g = make(d, obs, val, miss, where)
    path = os.path.join(where, "stats.nc")
    g.save(path, "some quantity")
    from StatInterface.generateStats import GenerateStats
    h = GenerateStats(None, None, d["limit"], d["space"], d["inc"], d["min"], angular,
                      miss, calculateLater=True)
    h.load(path)
    for cell in range(ncells(d)):
        for pre, samples in (("", sea), ("l", land)):
            w = summary(samples[cell], angular)
            compare([getattr(g.coeffs, pre + f)[cell] for f in FIELDS], w,
                    "cell %d from files" % cell)
            for f in FIELDS:
                a = float(getattr(g.coeffs, pre + f)[cell])
                b = getattr(h.coeffs, pre + f)
                check(np.size(b) == ncells(d), "number of reloaded cells")
                check(not np.ma.is_masked(b[cell]), "reloaded %s is missing" % f)
                b = float(b[cell])
                if abs(a - b) > 2e-6 * max(1e-3, abs(a)):
                    raise Violation("cell %d: %s%s saved as %r, reloaded as %r" %
                                    (cell, pre, f, a, b))


@st.composite
def fine(draw):
    """Grids of well over a hundred cells."""
    d = draw(cases(sample=st.integers(2, 5), nobs=st.integers(200, 400)))
    nx, ny = draw(st.integers(12, 19)), draw(st.integers(11, 16))
    lim, gs = d["limit"], draw(st.sampled_from([1, 2]))
    d["space"] = {"x": gs, "y": gs}
    d["limit"] = dict(lim, xMax=lim["xMin"] + nx * gs, yMax=lim["yMin"] + ny * gs)
    return d


@prop.facet(fine, quick=10, thorough=120,
            rule="as saved, on grids of more than a hundred cells")
def fine_statistics(d, ctx):
    saved(d, ctx)


@prop.facet(fine, quick=8, thorough=100,
            rule="as distributions, on grids of more than a hundred cells")
def fine_distributions(d, ctx):
    distributions(d, ctx)


dist_cases = lambda: cases(most=6, sample=st.integers(2, 30))


@prop.facet(dist_cases, quick=500, thorough=7000,
            rule="distribution tables of every cell, returned and written to "
                 "file; non-trivial when there is more than one cell and some "
                 "cell needs no widening")
def distributions(d, ctx):
    from StatInterface.GenerateDistributions import GenerateDistributions
    from StatInterface.KDEParameters import KDEParameters
    obs, val, miss = build(d)
    picks = [pick(d, c, obs, val, miss, lambda f: True) for c in range(ncells(d))]
    where = scratch()
    os.makedirs(os.path.join(where, "process"))
    ini = os.path.join(where, "c.ini")
    with open(ini, "w") as fh:
        fh.write("[Output]\nPath=%s\n" % where)
    step = {"pressure": 1.0, "speed": 1.0, "bearing": 5.0, "ties": 0.5, "patchy": 0.25}[d["values"]]
    angular = d["values"] == "bearing"
    kde = "gau" if d["seed"] % 2 else "biw"
    from Utilities import config
    config.reset()
    g = GenerateDistributions(ini, d["limit"], d["space"], d["inc"], kde, d["min"], miss)
    if None in picks:
        ctx.klass("too few observations")
        try:
            g.allDistributions(obs, val, None, step, angular)
        except StopIteration:
            return
        raise Violation("distribution produced although the whole domain holds "
                        "too few observations or only one value")
    wide = sum(p[1] > 0 for p in picks)
    ctx.klass("values " + d["values"], "widened" if wide else "not widened")
    ctx.nontrivial(len(picks) > 1 and wide < len(picks))
    rows = g.allDistributions(obs, val, None, step, angular)
    want = []
    for cell, (p, _) in enumerate(picks):
        t = KDEParameters(kde).generateKDE(np.array(p), step, angular=angular)
        want.append(np.column_stack([np.full(len(t), cell), t[:, 0], t[:, 2]]))
    want = np.vstack(want)
    check(rows.shape == want.shape, "table has %s rows and columns, the cells' samples "
          "give %s" % (rows.shape, want.shape))
    bad = np.argwhere(~(np.abs(rows - want) <= 1e-9 * np.maximum(1, np.abs(want))))
    if len(bad):
        i = bad[0][0]
        raise Violation("row %d is %r, the sample of the cell gives %r" %
                        (i, rows[i].tolist(), want[i].tolist()))
    g.allDistributions(obs, val, "thing", step, angular)
    name = os.path.join(where, "process", "all_cell_cdf_thing")
    from Utilities.files import flLoadFile
    back = flLoadFile(name, "%", ",")
    check(back.shape == rows.shape and np.abs(back - rows).max() <= 6e-7,
          "text file differs from the returned tables")
    from netCDF4 import Dataset
    with Dataset(name + ".nc") as nc:
        for var, col in (("cell", 0), ("x", 1), ("CDF", 2)):
            v = np.asarray(nc.variables[var][:], float)
            check(np.all(np.abs(v - rows[:, col]) <= 1e-6 * np.maximum(1, np.abs(rows[:, col]))),
                  "netCDF %s differs from the returned tables" % var)
    try:
        g.allDistributions(obs[:-1], val, None, step, angular)
    except IndexError:
        return
    raise Violation("positions and values of different length accepted")
