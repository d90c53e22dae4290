"""Estimated distributions are proper and genesis density follows the genesis points."""
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar

from vf import Property, check, scratch, Violation
from vf.gen import dec

TECHNIQUE = ("generated samples; every table is checked for being a proper "
             "distribution and compared with a directly summed kernel mixture, "
             "and under translation, reordering and rotation of the sample")
NOTE = ("samples of 20 to 150 values; genesis sets of 8 to 40 points on grids up "
        "to 16 x 14; rotation of periodic data is approximate (15% of the peak)")

prop = Property("C23", assumptions=[
    "samples hold at least twenty values that are not all equal",
    "the table step is at most a twentieth of the range of the sample"])

KERNELS = ["gau", "epa", "biw", "tri", "triw", "cos", "cos2", "uni"]


@st.composite
def samples(draw):
    d = {"seed": draw(st.integers(0, 2 ** 32 - 1)),
         "n": draw(st.integers(20, 150)),
         "kind": draw(st.sampled_from(["normal", "skewed", "two humps", "ties", "few", "wide"])),
         "kernel": draw(st.sampled_from(KERNELS)),
         "cells": draw(st.integers(20, 150)),
         "missing": draw(st.integers(0, 8)),
         "shift": draw(st.integers(-2000, 2000)) / 8.0,
         "exact": draw(st.integers(0, 2)) > 0}
    return d


def draw_sample(d):
    rs = np.random.RandomState(d["seed"])
    n = d["n"]
    if d["kind"] == "normal":
        v = rs.normal(980, 15, n).round(1)
    elif d["kind"] == "skewed":
        v = rs.gamma(1.5, 10, n).round(2)
    elif d["kind"] == "two humps":
        v = np.where(rs.rand(n) < 0.3, rs.normal(-40, 3, n), rs.normal(20, 8, n)).round(2)
    elif d["kind"] == "ties":
        v = rs.choice([10.0, 20.0, 20.0, 30.0, 50.0], n)
    elif d["kind"] == "few":
        v = rs.choice([15.0, 25.0, 25.0], n)
    else:
        v = rs.standard_cauchy(n).clip(-50, 50).round(2)
    v = v + 0.0
    if v.max() == v.min():
        v[0] += 10
    return v


def proper(t, what):
    x, p, c = t[:, 0], t[:, 1], t[:, 2]
    check(np.isfinite(t).all(), what + ": table holds numbers that are not finite")
    check((np.diff(x) > 0).all(), what + ": abscissae do not increase strictly")
    check((p >= 0).all(), what + ": negative density")
    check((np.diff(c) >= -1e-15).all(), what + ": cumulative probability decreases")
    check(c[0] >= 0, what + ": cumulative probability starts below zero")
    check(abs(c[-1] - 1) <= 1e-12, what + ": cumulative probability ends at %r" % c[-1])
    w = np.cumsum(p) / p.sum()
    bad = np.abs(w - c).max()
    check(bad <= 1e-9, what + ": cumulative probability does not add up the density (%g)" % bad)


def fitted(x, p, v):
    """Smallest misfit of the density to a Gaussian mixture centred on the sample."""
    def mix(h):
        z = (x[:, None] - v[None, :]) / h
        return np.exp(-0.5 * z * z).sum(axis=1) / (len(v) * h * math.sqrt(2 * math.pi))

    def miss(lh):
        return float(np.abs(mix(math.exp(lh)) - p).max())
    s = v.std()
    grid = np.linspace(math.log(1e-3 * s), math.log(4 * s), 60)
    vals = [miss(g) for g in grid]
    i = int(np.argmin(vals))
    r = minimize_scalar(miss, bounds=(grid[max(0, i - 1)], grid[min(59, i + 1)]),
                        method="bounded", options={"xatol": 1e-12, "maxiter": 200})
    return min(r.fun, vals[i]) / p.max(), math.exp(r.x) / s


@prop.facet(samples, quick=300, thorough=8000,
            rule="a sample and kernel; non-trivial when the values are not all "
                 "multiples of five")
def tables(d, ctx):
    from StatInterface.KDEParameters import KDEParameters
    v = draw_sample(d)
    step = float(v.max() - v.min()) / d["cells"]
    if d["exact"]:
        # Exact in binary, so that shifting introduces no rounding.
        v = np.round(v * 8) / 8
        step = 2.0 ** math.floor(math.log(step, 2))
    ctx.klass("kernel " + d["kernel"], "sample " + d["kind"])
    t = KDEParameters(d["kernel"]).generateKDE(v, step)
    ctx.nontrivial(d["kind"] not in ("ties", "few"))
    proper(t, "table")
    x, p = t[:, 0], t[:, 1]
    check(abs(x[0] - v.min()) <= 1e-9 and x[-1] <= v.max() + 1e-6 * step and
          x[-1] >= v.max() - 1.000001 * step, "table runs from %r to %r, sample from %r to %r" %
          (x[0], x[-1], v.min(), v.max()))
    check(np.abs(np.diff(x) - step).max() <= 1e-6 * step, "uneven steps")
    # Reordering, missing values and a common shift do not matter.
    rs = np.random.RandomState(d["seed"] ^ 1)
    w = np.concatenate([v, np.full(d["missing"], float(sys.maxsize))])
    rs.shuffle(w)
    t2 = KDEParameters(d["kernel"]).generateKDE(w, step)
    check(t2.shape == t.shape and np.abs(t2 - t).max() <= 1e-9 * max(1, np.abs(t).max()),
          "reordering the sample or adding missing values changes the table")
    if d["exact"] and d["kernel"] != "uni":
        ctx.klass("shifted")
        t3 = KDEParameters(d["kernel"]).generateKDE(v + d["shift"], step)
        check(len(t) == len(t3), "shifting the sample changes the length of the table")
        check(np.abs(t3[:, 0] - d["shift"] - t[:, 0]).max() <= 1e-9,
              "shifting the sample does not shift the table")
        check(np.abs(t3[:, 1] - p).max() <= 1e-5 * p.max(),
              "shifting the sample changes the density")
    if d["kernel"] == "gau" and len(t) >= 4:
        ctx.klass("compared with a mixture")
        bad, h = fitted(x, p, v)
        check(bad <= 1e-4, "no bandwidth makes the density a mixture of kernels centred "
              "on the sample (off by %.3g of the peak)" % bad)


@prop.facet(samples, quick=60, thorough=1000,
            rule="a sample read from a file and tables written to files; non-trivial "
                 "when it holds missing values")
def table_files(d, ctx):
    from StatInterface.KDEParameters import KDEParameters
    from Utilities.files import flLoadFile
    v = draw_sample(d)
    step = float(v.max() - v.min()) / d["cells"]
    ctx.nontrivial(d["missing"] > 0)
    where = scratch()
    src = os.path.join(where, "values")
    w = np.concatenate([v, np.full(d["missing"], float(sys.maxsize))])
    np.savetxt(src, w, header="values", comments="%", fmt="%.8f")
    a, b = os.path.join(where, "pdf"), os.path.join(where, "cdf")
    KDEParameters(d["kernel"]).generateKDE(src, step, a, b)
    t = KDEParameters(d["kernel"]).generateKDE(v, step)
    pdf, cdf = flLoadFile(a), flLoadFile(b)
    check(pdf.shape == (len(t), 2) and cdf.shape == (len(t), 2), "length of the saved tables")
    tol = 1e-5 * np.maximum(1, np.abs(t[:, 0]))
    check((np.abs(pdf[:, 0] - t[:, 0]) <= tol).all() and
          (np.abs(cdf[:, 0] - t[:, 0]) <= tol).all(), "saved abscissae differ")
    check(np.abs(pdf[:, 1] - t[:, 1]).max() <= 1e-5 * max(1, t[:, 1].max()), "saved density differs")
    check(np.abs(cdf[:, 1] - t[:, 2]).max() <= 1e-5, "saved cumulative probability differs")
    try:
        KDEParameters("no such kernel")
    except NotImplementedError:
        return
    raise Violation("unknown kernel accepted")


@st.composite
def periodic(draw):
    step = draw(st.sampled_from([0.25, 0.5, 1.0, 1.0, 2.0, 3.0]))
    slow = draw(st.integers(0, 5)) == 0
    # A step wider than half the spread does not resolve the density.
    narrow = [3, 10, 40, 100] if step <= 1 and not slow else [10, 40, 100]
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(st.integers(20, 120)),
            "centre": draw(st.one_of(st.sampled_from([1, 365, 183]), st.integers(1, 365))),
            "spread": draw(st.sampled_from(narrow)),
            "turn": draw(st.integers(1, 364)),
            "step": max(step, 2.0) if slow else step,
            "kernel": draw(st.sampled_from(["biw", "epa", "tri", "triw", "cos", "cos2"]))
                      if slow else "gau"}


def days(d):
    rs = np.random.RandomState(d["seed"])
    v = (rs.normal(d["centre"], d["spread"], d["n"]).round() - 1) % 365 + 1
    if v.max() == v.min():
        v[0] = v[0] % 365 + 1
    return v


@prop.facet(periodic, quick=130, thorough=4000,
            rule="genesis days; non-trivial when they fall on both sides of the turn "
                 "of the year before or after the rotation")
def day_of_year(d, ctx):
    from StatInterface.KDEParameters import KDEParameters
    v = days(d)
    kde = KDEParameters(d["kernel"])
    t = kde.generateKDE(v, d["step"], periodic=365)
    proper(t, "day table")
    x, p = t[:, 0], t[:, 1]
    n = len(np.arange(1, 366, d["step"]))
    check(len(t) == n and abs(x[0] - 1) < 1e-9 and x[-1] < 366 and x[-1] + d["step"] >= 366 - 1e-9,
          "day table runs from %r to %r in %d rows" % (x[0], x[-1], len(t)))
    total = p.sum() * d["step"]
    check(abs(total - 1) <= 0.06, "density adds up to %r over the year" % total)
    join = abs(p[0] - p[-1]) / p.max()
    check(join <= 0.1 + 0.1 * d["step"], "density jumps by %.3g of its peak at the turn of the year" % join)
    turned = (v - 1 + d["turn"]) % 365 + 1
    crosses = lambda a: a.min() < 60 and a.max() > 305
    ctx.nontrivial(bool(crosses(v) or crosses(turned)))
    ctx.klass("crosses the turn of the year" if crosses(v) else "within a year",
              "step %g" % d["step"])
    t2 = kde.generateKDE(turned, d["step"], periodic=365)
    proper(t2, "day table")
    # Compare on whole days.
    day = np.arange(1, 366)
    pa = np.interp(day, x, p, period=365)
    pb = np.interp(day, t2[:, 0], t2[:, 1], period=365)
    bad = np.abs(np.roll(pa, d["turn"]) - pb).max() / pa.max()
    check(bad <= 0.25, "moving all days by %d does not move the density (off by %.3g of the peak)"
          % (d["turn"], bad))
    # The genesis day table of the same days.
    where = scratch()
    src = os.path.join(where, "jdays")
    np.savetxt(src, v, fmt="%.1f", header="day", comments="%")
    if d["kernel"] != "gau":
        return
    around = np.concatenate([v - 365, v, v + 365])
    bad, _ = fitted(x, p / 3, around)
    check(bad <= 1e-5, "no bandwidth makes the density a mixture of kernels centred on the "
          "days (off by %.3g of the peak)" % bad)
    g = KDEParameters("gau").generateGenesisDateCDF(src, None)
    proper(g, "genesis day table")
    bad, _ = fitted(g[:, 0], g[:, 1] / 3, around)
    check(bad <= 1e-5, "no bandwidth makes the genesis day density a mixture of kernels "
          "centred on the days (off by %.3g of the peak)" % bad)
    wide = KDEParameters("gau").generateGenesisDateCDF(src, None, bw=d["turn"] / 10.0 + 2)
    bad, h = fitted(wide[:, 0], wide[:, 1] / 3, around)
    check(bad <= 1e-5 and abs(h * around.std() - d["turn"] / 10.0 - 2) <= 1e-3 * d["turn"],
          "asked for a bandwidth of %r days, used %r" % (d["turn"] / 10.0 + 2, h * around.std()))
    check(len(g) == 365 and g[0, 0] == 1 and g[-1, 0] == 365, "genesis day table misses days")
    check(abs(g[:, 1].sum() - 1) <= 0.06, "genesis day density adds up to %r" % g[:, 1].sum())
    out = os.path.join(where, "cdf")
    KDEParameters("gau").generateGenesisDateCDF(src, None, genesisKDE=out)
    from Utilities.files import flLoadFile
    saved = flLoadFile(out)
    check(saved.shape == (365, 2) and np.abs(saved - g[:, [0, 2]]).max() <= 1e-5,
          "saved genesis day table differs")


@st.composite
def sizes(draw):
    return {"mean": draw(dec(5, 70, 1)), "sig": draw(dec(0.1, 0.9, 2)),
            "reach": draw(st.sampled_from([120.0, 120.0, 200.0, 60.0]))}


@prop.facet(sizes, quick=300, thorough=5000,
            rule="mean and spread of storm size; non-trivial when the table holds nearly "
                 "the whole distribution")
def size_table(d, ctx):
    from Utilities import stats
    x, p, c = [np.asarray(v, float) for v in stats.rMaxDist(d["mean"], d["sig"], d["reach"])]
    proper(np.column_stack([x, p, c]), "size table")
    check(x[0] > 0 and x[-1] < d["reach"], "sizes from %r to %r km" % (x[0], x[-1]))
    # A lognormal distribution with this mean
    mid = math.log(d["mean"]) - d["sig"] ** 2 / 2
    want = np.exp(-(np.log(x) - mid) ** 2 / (2 * d["sig"] ** 2)) / x
    check(np.abs(p / p.max() - want / want.max()).max() <= 1e-9, "sizes are not lognormal with "
          "mean %r and spread %r" % (d["mean"], d["sig"]))
    whole = (mid - 4 * d["sig"] > math.log(1.0) and mid + 4 * d["sig"] < math.log(d["reach"])
             and d["sig"] * math.exp(mid) > 3)
    ctx.nontrivial(whole)
    if whole:
        got = float((p * x).sum() / p.sum())
        check(abs(got - d["mean"]) <= 0.02 * d["mean"], "mean size %r, asked for %r"
              % (got, d["mean"]))


@st.composite
def bearings(draw):
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(st.integers(10, 120)),
            "centre": draw(st.integers(0, 359)), "spread": draw(st.sampled_from([10, 25, 60])),
            "step": draw(st.sampled_from([1.0, 1.0, 2.5, 5.0])),
            "kernel": draw(st.sampled_from([k for k in KERNELS if k != "uni"]))}


@prop.facet(bearings, quick=150, thorough=3000,
            rule="bearings; non-trivial when they fall on both sides of north")
def bearing_tables(d, ctx):
    from StatInterface.KDEParameters import KDEParameters
    rs = np.random.RandomState(d["seed"])
    v = rs.normal(d["centre"], d["spread"], d["n"]).round(1) % 360
    if v.max() == v.min():
        v[0] = (v[0] + 20) % 360
    kde = KDEParameters(d["kernel"])
    t = kde.generateKDE(v, d["step"], angular=True)
    proper(t, "bearing table")
    check(t[0, 0] == 0 and t[-1, 0] < 360 and t[-1, 0] + d["step"] >= 360 - 1e-9,
          "bearing table runs from %r to %r" % (t[0, 0], t[-1, 0]))
    both = bool(v.min() < 40 and v.max() > 320)
    ctx.nontrivial(both)
    ctx.klass("both sides of north" if both else "one side of north")
    if not both and v.min() > 4 * v.std() and v.max() < 360 - 4 * v.std():
        total = t[:, 1].sum() * d["step"]
        check(abs(total - 1) <= 0.05, "density adds up to %r" % total)
        return
    # Bearings wrap: density lost beyond 0 and 360 has to come back.
    total = t[:, 1].sum() * d["step"]
    if both and abs(total - 1) > 0.05 and total < 1:
        raise Violation("density of bearings around north adds up to %.3f: the part "
                        "beyond 0 and 360 is dropped" % total, finding="angular-wrap")


@st.composite
def genesis(draw):
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)),
            "x0": draw(st.sampled_from([0, 100, 170, -10])),
            "y0": draw(st.sampled_from([-30, -5, 5])),
            "w": draw(st.integers(4, 16)), "h": draw(st.integers(4, 14)),
            "step": draw(st.sampled_from([0.5, 1.0, 1.0, 2.0])),
            "n": draw(st.integers(8, 40)), "outside": draw(st.integers(0, 6)),
            "kind": draw(st.sampled_from(["uniform", "cluster", "line"])),
            "source": draw(st.sampled_from(["array", "file"]))}


def genesis_points(d):
    rs = np.random.RandomState(d["seed"])
    n = d["n"]
    if d["kind"] == "uniform":
        u, v = rs.rand(n), rs.rand(n)
    elif d["kind"] == "cluster":
        a, b = rs.uniform(0.15, 0.85, 2)
        u, v = rs.normal(a, 0.1, n).clip(0, 1), rs.normal(b, 0.1, n).clip(0, 1)
    else:
        u = rs.rand(n)
        v = (u * 0.8 + rs.normal(0, 0.05, n)).clip(0, 1)
    p = np.column_stack([d["x0"] + u * d["w"], d["y0"] + v * d["h"]]).round(2)
    far = np.column_stack([d["x0"] + rs.choice([-3, d["w"] + 3, d["w"] / 2.], d["outside"]),
                           d["y0"] + rs.choice([-2, d["h"] + 2], d["outside"])])
    return p, far + rs.uniform(-1, 1, far.shape)


@prop.facet(genesis, quick=250, thorough=1500,
            rule="genesis points in and around a domain; non-trivial when some lie "
                 "outside and the points are clustered")
def genesis_density(d, ctx):
    from StatInterface.KDEOrigin import KDEOrigin
    from Utilities import config
    inside, far = genesis_points(d)
    rs = np.random.RandomState(d["seed"] ^ 7)
    ctx.nontrivial(bool(len(far) and d["kind"] != "uniform"))
    ctx.klass("points " + d["kind"], "from " + d["source"])
    lim = {"xMin": d["x0"], "xMax": d["x0"] + d["w"], "yMin": d["y0"], "yMax": d["y0"] + d["h"]}
    where = scratch()
    os.makedirs(os.path.join(where, "process"))
    ini = os.path.join(where, "c.ini")
    with open(ini, "w") as fh:
        fh.write("[Output]\nPath=%s\n" % where)
    config.reset()
    pts = np.vstack([inside, far])
    pts = pts[rs.permutation(len(pts))]
    pts = np.column_stack([pts, np.zeros(len(pts))])
    if d["source"] == "array":
        k = KDEOrigin(ini, lim, d["step"], lonLat=pts)
    else:
        np.savetxt(os.path.join(where, "process", "init_lon_lat"), pts, delimiter=",",
                   fmt="%.6f", header="lon,lat,flag", comments="%")
        k = KDEOrigin(ini, lim, d["step"])
        pts = pts.round(6)
    x, y, p = k.generateKDE(save=True)
    check(np.abs(x - np.arange(lim["xMin"], lim["xMax"], d["step"])).max() < 1e-9 and
          np.abs(y - np.arange(lim["yMax"], lim["yMin"], -d["step"])).max() < 1e-9,
          "density grid does not cover the domain")
    check(p.shape == (len(x), len(y)), "density has shape %s on a grid of %d by %d" %
          (p.shape, len(x), len(y)))
    check(np.isfinite(p).all() and (p >= 0).all(), "density is negative or not a number")
    # Density is the average of product kernels centred on the points inside.
    hx, hy = [float(b) for b in k.bw]
    check(hx > 0 and hy > 0, "bandwidth %r" % (k.bw,))
    keep = [(a, b) for a, b, _ in pts if lim["xMin"] <= a <= lim["xMax"] and
            lim["yMin"] <= b <= lim["yMax"]]
    want = np.zeros(p.shape)
    for a, b in keep:
        want += np.outer(np.exp(-0.5 * ((x - a) / hx) ** 2), np.exp(-0.5 * ((y - b) / hy) ** 2))
    want /= len(keep) * 2 * math.pi * hx * hy
    bad = np.abs(p - want).max() / want.max()
    check(bad <= 1e-6, "density is not the mean kernel of the points inside the domain "
          "(off by %.3g of the peak)" % bad)
    # Bandwidth stays in proportion to the spread of the points.
    arr = np.array(keep)
    for h, s, side in ((hx, arr[:, 0].std(), d["w"]), (hy, arr[:, 1].std(), d["h"])):
        check(h < 5 * max(s, side), "bandwidth %r for points with spread %r" % (h, s))
    from netCDF4 import Dataset
    with Dataset(os.path.join(where, "process", "originPDF.nc")) as nc:
        sp = np.asarray(nc.variables["gpdf"][:], float)
        lon, lat = np.asarray(nc.variables["lon"][:]), np.asarray(nc.variables["lat"][:])
    check(np.abs(lon - x).max() < 1e-4 and np.abs(lat - y).max() < 1e-4, "saved axes differ")
    check(sp.shape == (len(y), len(x)) and np.abs(sp - p.T).max() <= 1e-6 * p.max(),
          "saved density differs")
    c = k.generateCdf()
    c = np.asarray(c).reshape(len(y), len(x))
    check((c >= -1e-12).all() and (c <= 1 + 1e-12).all(), "cumulative density outside 0 to 1")
    check((np.diff(c, axis=1) >= -1e-12).all() and (np.diff(c, axis=0) <= 1e-12).all(),
          "cumulative density does not grow eastward and northward")
    k.generateCdf(save=True)
    with Dataset(os.path.join(where, "process", "originCDF.nc")) as nc:
        sc = np.asarray(nc.variables["gcdf"][:], float)
    check(sc.shape == c.shape and np.abs(sc - c).max() <= 1e-6, "saved cumulative density differs")


@st.composite
def weights(draw):
    return {"x": draw(st.integers(2, 8)), "y": draw(st.integers(2, 8)),
            "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "zero": draw(st.sampled_from([0.0, 0.3, 0.7, 1.0])),
            "scale": draw(st.sampled_from([1e-6, 1.0, 50.0]))}


@prop.facet(weights, quick=400, thorough=8000,
            rule="densities on one- and two-dimensional grids; non-trivial when some "
                 "but not all are zero")
def cumulate(d, ctx):
    from Utilities import stats
    rs = np.random.RandomState(d["seed"])
    z = rs.rand(d["x"], d["y"]) * d["scale"]
    z[rs.rand(d["x"], d["y"]) < d["zero"]] = 0
    x, y = np.arange(d["x"]) * 0.5, 10 - np.arange(d["y"]) * 2.0
    ctx.nontrivial(bool(0 < (z == 0).sum() < z.size))
    c = stats.cdf(x, z[:, 0])
    want = np.cumsum(z[:, 0])
    if want[-1] > 0:
        want = want / want[-1]
    check(np.abs(c - want).max() <= 1e-12, "one-dimensional cumulative probability")
    c = stats.cdf2d(x, y, z)
    if z.sum() == 0:
        check((c == 0).all(), "cumulative probability of nothing")
        return
    want = z.cumsum(axis=0).cumsum(axis=1) / z.sum()
    check(np.abs(c - want).max() <= 1e-9, "two-dimensional cumulative probability")
