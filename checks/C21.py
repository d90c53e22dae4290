"""Statistical grid cells partition the domain and number consistently."""
from fractions import Fraction
import math

from hypothesis import strategies as st

from vf import Property, check, expect_raises, Violation

prop = Property("C21", assumptions=[
    "domain limits and cell sizes are multiples of 1/4 degree (exact in binary)"])

SIZES = [1, 2, 3, 5, 7, 10, 0.5, 0.25, 2.5, 1.5]


@st.composite
def domains(draw):
    x0 = draw(st.one_of(st.sampled_from([-10, 0, 70, 110, 175, -180, 350]),
                        st.integers(-180, 350)))
    y0 = draw(st.one_of(st.sampled_from([-40, -10, 0, 5, -25]),
                        st.integers(-60, 40)))
    gx = draw(st.sampled_from(SIZES))
    gy = draw(st.sampled_from(SIZES))
    nx = draw(st.integers(1, 12))
    ny = draw(st.integers(1, 10))
    # The last column or row may be a part cell.
    w = nx * gx
    h = ny * gy
    if draw(st.booleans()):
        w = max(gx, math.ceil(w) + draw(st.integers(0, 2)))
        h = max(gy, math.ceil(h) + draw(st.integers(0, 2)))
    as_float = draw(st.booleans())
    lim = {"xMin": x0, "xMax": x0 + w, "yMin": y0, "yMax": y0 + h}
    if as_float:
        lim = {k: float(v) for k, v in lim.items()}
    return {"limit": lim, "space": {"x": gx, "y": gy}}


@st.composite
def points_in(draw):
    d = draw(domains())
    lim = d["limit"]
    w = int((lim["xMax"] - lim["xMin"]) * 64)
    h = int((lim["yMax"] - lim["yMin"]) * 64)
    pts = []
    for _ in range(draw(st.integers(1, 8))):
        mode = draw(st.sampled_from(["any", "any", "edge"]))
        if mode == "edge":
            i = draw(st.integers(0, max(0, int(w / 64 / d["space"]["x"]))))
            j = draw(st.integers(0, max(0, int(h / 64 / d["space"]["y"]))))
            px = lim["xMin"] + i * d["space"]["x"]
            py = lim["yMax"] - j * d["space"]["y"]
        else:
            px = lim["xMin"] + draw(st.integers(0, w - 1)) / 64.0
            py = lim["yMax"] - draw(st.integers(0, h - 1)) / 64.0
        if px >= lim["xMax"]:
            px = lim["xMax"] - 1 / 64.0
        if py <= lim["yMin"]:
            py = lim["yMin"] + 1 / 64.0
        pts.append([px, py])
    d["points"] = pts
    return d


def model(d):
    lim, sp = d["limit"], d["space"]
    f = lambda v: Fraction(v)
    ncol = math.ceil((f(lim["xMax"]) - f(lim["xMin"])) / f(sp["x"]))
    nrow = math.ceil((f(lim["yMax"]) - f(lim["yMin"])) / f(sp["y"]))
    return ncol, nrow


def classes(d, ctx):
    lim = d["limit"]
    if lim["xMin"] < 0 < lim["xMax"]:
        ctx.klass("straddles Greenwich")
    if lim["yMin"] < 0 < lim["yMax"]:
        ctx.klass("straddles equator")
    if lim["yMax"] > 0:
        ctx.klass("north")
    if ((lim["xMax"] - lim["xMin"]) / d["space"]["x"]) % 1:
        ctx.klass("part cells")


@prop.facet(points_in, quick=1500, thorough=30000,
            rule="a domain with points; non-trivial when it has more than one "
                 "row and column")
def point_to_cell(d, ctx):
    from Utilities import stats
    lim, sp = d["limit"], d["space"]
    ncol, nrow = model(d)
    classes(d, ctx)
    ctx.nontrivial(ncol > 1 and nrow > 1)
    for lon, lat in d["points"]:
        col = math.floor((Fraction(lon) - Fraction(lim["xMin"])) / Fraction(sp["x"]))
        row = math.floor((Fraction(lim["yMax"]) - Fraction(lat)) / Fraction(sp["y"]))
        want = row * ncol + col
        got = stats.getCellNum(lon, lat, dict(lim), dict(sp))
        check(got == want, lambda: "point (%r, %r) numbered %r, its cell is %r"
              % (lon, lat, got, want))
        check(stats.validCellNum(got, lim, sp), "cell of a domain point is invalid")
        clon, clat = stats.getCellLonLat(got, lim, sp)
        check(clon <= lon < clon + sp["x"] and clat - sp["y"] < lat <= clat,
              lambda: "cell %r has corner (%r, %r), which does not contain (%r, %r)"
              % (got, clon, clat, lon, lat))


@prop.facet(domains, quick=600, thorough=8000,
            rule="a domain, every cell enumerated; non-trivial when it has more "
                 "than one row and column")
def cell_to_corner(d, ctx):
    from Utilities import stats
    lim, sp = d["limit"], d["space"]
    ncol, nrow = model(d)
    classes(d, ctx)
    ctx.nontrivial(ncol > 1 and nrow > 1)
    check(stats.maxCellNum(lim, sp) == ncol * nrow - 1, "largest cell number is %r "
          "for %d columns and %d rows" % (stats.maxCellNum(lim, sp), ncol, nrow))
    for c in range(ncol * nrow):
        check(stats.validCellNum(c, lim, sp), "cell %d of %d called invalid"
              % (c, ncol * nrow))
        lon, lat = stats.getCellLonLat(c, lim, sp)
        want = (lim["xMin"] + (c % ncol) * sp["x"], lim["yMax"] - (c // ncol) * sp["y"])
        check((lon, lat) == want, lambda: "cell %d has corner %r, expected %r"
              % (c, (lon, lat), want))
    for c in (-1, -5, ncol * nrow, ncol * nrow + 3, 10 * ncol * nrow):
        check(not stats.validCellNum(c, lim, sp), "cell %d called valid" % c)
        with expect_raises(IndexError, "corner of invalid cell %d returned" % c):
            stats.getCellLonLat(c, lim, sp)


@st.composite
def outside(draw):
    d = draw(domains())
    lim = d["limit"]
    side = draw(st.sampled_from(["w", "e", "n", "s"]))
    gap = draw(st.integers(1, 640)) / 64.0
    fx = draw(st.integers(0, 63)) / 64.0
    x = lim["xMin"] + fx * (lim["xMax"] - lim["xMin"])
    y = lim["yMax"] - fx * (lim["yMax"] - lim["yMin"])
    touch = draw(st.booleans())
    if side == "w":
        x = lim["xMin"] - gap
    elif side == "e":
        x = lim["xMax"] + (0 if touch else gap)
    elif side == "n":
        y = lim["yMax"] + gap
    else:
        y = lim["yMin"] - (0 if touch else gap)
    d["point"] = [x, y]
    return d


@prop.facet(outside, quick=400, thorough=5000,
            rule="a domain and a point outside it; always non-trivial")
def outside_rejected(d, ctx):
    from Utilities import stats
    ctx.nontrivial()
    with expect_raises(ValueError, "point %r outside %r given a cell number"
                       % (d["point"], d["limit"])):
        stats.getCellNum(d["point"][0], d["point"][1], d["limit"], d["space"])


@st.composite
def value_grids(draw):
    gx, gy = draw(st.sampled_from([1, 2, 5])), draw(st.sampled_from([1, 2, 5]))
    nx, ny = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"limit": {"xMin": draw(st.sampled_from([0, 110, 170, -10])), "yMin":
                      draw(st.sampled_from([-30, -5, 5]))},
            "space": {"x": gx, "y": gy}, "nx": nx, "ny": ny,
            "res": draw(st.sampled_from([0.25, 0.5, 1.0])),
            "pad": draw(st.integers(0, 2)),
            "vals": draw(st.lists(st.sampled_from([0, 0, 1, 2, 100, -3]), min_size=1, max_size=30)),
            "seed": draw(st.integers(0, 2 ** 32 - 1))}


@prop.facet(value_grids, quick=300, thorough=6000,
            rule="a value grid over a domain; non-trivial when it has several cells and "
                 "several values")
def cell_fraction(d, ctx):
    import os
    import numpy as np
    from vf import scratch
    from Utilities import stats
    lim = dict(d["limit"])
    lim["xMax"] = lim["xMin"] + d["nx"] * d["space"]["x"]
    lim["yMax"] = lim["yMin"] + d["ny"] * d["space"]["y"]
    ctx.nontrivial(d["nx"] * d["ny"] > 1 and len(set(d["vals"])) > 1)
    r = d["res"]
    w, e = lim["xMin"] - d["pad"], lim["xMax"] + d["pad"]
    s, n = lim["yMin"] - d["pad"], lim["yMax"] + d["pad"]
    xs = [w + i * r for i in range(int((e - w) / r) + 1)]
    ys = [n - i * r for i in range(int((n - s) / r) + 1)]
    rs = np.random.RandomState(d["seed"])
    z = rs.choice(d["vals"], (len(ys), len(xs)))
    path = os.path.join(scratch(), "values.txt")
    with open(path, "w") as fh:
        fh.write("ncols %d\nnrows %d\nxllcorner %r\nyllcorner %r\ncellsize %r\n"
                 "NODATA_value -9999\n" % (len(xs), len(ys), xs[0], ys[-1], r))
        for row in z:
            fh.write(" ".join(str(v) for v in row) + "\n")
    got = stats.statCellFraction(lim, d["space"], path)
    check(len(got) == d["nx"] * d["ny"], "%d cell fractions for %d cells" %
          (len(got), d["nx"] * d["ny"]))
    for cell in range(len(got)):
        cw = lim["xMin"] + (cell % d["nx"]) * d["space"]["x"]
        cn = lim["yMax"] - (cell // d["nx"]) * d["space"]["y"]
        v = [float(z[j, i]) for j, y in enumerate(ys) for i, x in enumerate(xs)
             if cw <= x <= cw + d["space"]["x"] and cn - d["space"]["y"] <= y <= cn]
        m = max(abs(a) for a in v)
        want = sum(v) / len(v) / m if m else 0.0
        check(abs(got[cell] - want) <= 1e-9, "cell %d has fraction %r, its values give %r" %
              (cell, float(got[cell]), want))
