"""Return levels and confidence limits from records of annual maxima."""
import itertools
import math

from hypothesis import strategies as st

from vf import Property, check, close
from vf.gen import dec, edge

TECHNIQUE = ("property-based testing against probability-weighted moments computed exactly, the "
             "theoretical moments and quantiles of the fitted distribution, and enumeration of "
             "all resamplings for the confidence limits")
NOTE = ("records of 3-80 values with ties, zeros and light or heavy tails; levels against scipy's "
        "quantiles, shift and scale relations, per-cell independence, every partition into "
        "samples enumerated for small records")

prop = Property("C12", preload=("numpy", "scipy.stats", "hazard"), assumptions=[
    "return levels are reported only for a positive shape parameter, as documented",
    "the rational approximation of the shape parameter is accurate to 1e-5 in L-skewness"])

NODATA = -9999.0


@st.composite
def records(draw, lo=3, hi=60):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(["uniform", "free", "gumbel", "weibull", "ties", "tail"]))
    vals = draw(st.lists(dec(0.5, 95, 1), min_size=n, max_size=n))
    if kind == "uniform":
        vals = [round(20 + v / 2, 2) for v in vals]
    elif kind == "gumbel":
        vals = [round(max(1.0, 35 - 7 * math.log(-math.log(min(v, 94) / 95))), 2) for v in vals]
    elif kind == "weibull":
        vals = [round(max(1.0, 70 - 25 * (-math.log(min(v, 94) / 95)) ** 0.6), 2) for v in vals]
    elif kind == "ties":
        vals = [float(int(v / 20)) * 10 + 15 for v in vals]
    elif kind == "tail":
        vals = [10.0 + 0.1 * (k % 3) for k in range(n - 1)] + [90.0]
    zeros = draw(edge(st.just(0), 1, n // 3, n // 2, n - 1))
    vals = vals[:n - zeros] + [0.0] * zeros
    return {"data": vals, "min": draw(edge(st.integers(3, max(3, n)), 3, n)),
            "years": draw(st.sampled_from([[2, 5, 10, 20, 50, 100, 500, 1000, 10000],
                                           [1, 2, 3], [100], [50, 2.5, 10, 200]])),
            "yrs": draw(st.sampled_from([1, 1, 1, 2, 5]))}


def lmoments(data):
    """Unbiased sample L-moments from probability-weighted moments."""
    x = sorted(data)
    n = len(x)
    b0 = math.fsum(x) / n
    b1 = math.fsum(x[k] * k for k in range(n)) / (n * (n - 1))
    b2 = math.fsum(x[k] * k * (k - 1) for k in range(n)) / (n * (n - 1) * (n - 2))
    l2 = 2 * b1 - b0
    return b0, l2, (6 * b2 - 6 * b1 + b0) / l2 if l2 else float("nan")


def gev_moments(loc, scale, k):
    g = math.gamma(1 + k)
    if abs(k) < 1e-9:
        return loc + 0.5772156649 * scale, scale * math.log(2), 0.1699250014
    l1 = loc + scale * (1 - g) / k
    l2 = scale * (1 - 2 ** -k) * g / k
    return l1, l2, 2 * (1 - 3 ** -k) / (1 - 2 ** -k) - 3


def fittable(c, n=None):
    nz = [v for v in c["data"] if v != 0]
    return len(nz) >= c["min"] and len(nz) > 0 and min(nz) != max(nz)


@prop.facet(records, quick=2500, thorough=16000, rule="a fit that yields return levels")
def fitted(c, ctx):
    """Moments of the fit match the record; levels are its quantiles."""
    import numpy as np
    from scipy.stats import genextreme
    from hazard import evd
    data = np.sort(np.array(c["data"], float))
    years = np.array(c["years"], float)
    w, loc, scale, shp = evd.gevfit(data.copy(), years, NODATA, c["min"], c["yrs"])
    w = np.asarray(w, float)
    check(w.shape == years.shape, "levels %s for %d return periods" % (w.shape, len(years)))
    if not fittable(c):
        check((w == NODATA).all() and loc == scale == shp == NODATA,
              "a record without enough different values gave %s %s" % (w, (loc, scale, shp)))
        ctx.klass("not fittable")
        return
    m = lmoments(c["data"])
    if abs(m[2]) > 1 - 1e-6:        # three values, two of them equal: no such distribution
        ctx.klass("limiting skewness")
        if m[2] > 0:
            check((w == NODATA).all(), "levels %s for skewness 1" % w)
        return
    check(scale > 0, "scale %r" % scale)
    g = gev_moments(loc, scale, shp)
    tol = 3e-5 * (1 + abs(shp))
    close(g[1], m[1], "second moment of the fit", rtol=1e-4)
    close(g[0], m[0], "mean of the fit", rtol=1e-5, atol=1e-4 * m[1])
    close(g[2], m[2], "skewness of the fit", atol=max(tol, 2e-5))
    if shp <= 0:
        check((w == NODATA).all(), "levels given for shape %r" % shp)
        ctx.klass("shape not positive")
        return
    ctx.nontrivial()
    ctx.klass("fitted", "zeros" if 0.0 in c["data"] else "no zeros", "blocks %d" % c["yrs"])
    for t, v in zip(years, w):
        if t <= c["yrs"]:
            check(v == NODATA, "level %r for a return period within one block" % v)
        else:
            q = genextreme.ppf(1 - c["yrs"] / t, shp, loc=loc, scale=scale)
            close(v, q, "level for %g years" % t, rtol=1e-7, atol=1e-7 * scale)
    use = years > c["yrs"]
    order = np.argsort(years[use])
    check((np.diff(w[use][order]) >= -1e-9).all(), "levels fall with the return period: %s" % w)


@st.composite
def relations(draw):
    c = draw(records())
    c["data"] = [v for v in c["data"] if v] or [1.0]
    n = len(c["data"])
    while n < 4:
        c["data"].append(10.0 + 3 * n * n)
        n += 1
    c["min"] = 3
    c.update(factor=draw(st.sampled_from([0.5, 2.0, 10.0, 3.6])), shift=draw(dec(0, 40, 1)))
    return c


@prop.facet(relations, quick=1500, thorough=10000, rule="a fit that yields return levels")
def equivariant(c, ctx):
    import numpy as np
    from hazard import evd
    data = np.sort(np.array(c["data"], float))
    years = np.array(c["years"], float)
    args = (years, NODATA, c["min"], c["yrs"])
    w, loc, scale, shp = evd.gevfit(data.copy(), *args)
    ctx.nontrivial((w != NODATA).any())
    ctx.klass("levels" if (w != NODATA).any() else "missing")
    # shape zero and the limiting skewness may round to either side
    border = (shp != NODATA and abs(shp) < 1e-6) or not abs(lmoments(c["data"])[2]) < 1 - 1e-6
    for name, x, f in (("scaled", data * c["factor"], lambda v: v * c["factor"]),
                       ("shifted", data + c["shift"], lambda v: v + c["shift"])):
        w2, loc2, scale2, shp2 = evd.gevfit(np.array(x), *args)
        if border:
            continue
        check(((w2 == NODATA) == (w == NODATA)).all(), "%s: missing levels differ" % name)
        ok = w != NODATA
        close(w2[ok], f(w[ok]), "%s record levels" % name, rtol=1e-6, atol=1e-5)
        if shp == NODATA:
            check(shp2 == NODATA, "%s: fitted where the original was not" % name)
        else:
            close(shp2, shp, "%s shape" % name, rtol=1e-5, atol=1e-6)
            close(loc2, f(loc), "%s location" % name, rtol=1e-6, atol=1e-5)
            close(scale2, scale * (c["factor"] if name == "scaled" else 1), "%s scale" % name,
                  rtol=1e-6, atol=1e-6)


@prop.facet(records, quick=600, thorough=6000, rule="values not all equal")
def moments(c, ctx):
    """Sample L-moments of any order, and the threshold parameters they give."""
    import numpy as np
    from Utilities import lmomentFit as lf
    data = sorted(c["data"])
    n = len(data)
    if data[0] == data[-1]:
        return
    ctx.nontrivial()
    b = []
    for r in range(min(4, n)):
        b.append(math.fsum(x * math.comb(k, r) for k, x in enumerate(data)) / n
                 / math.comb(n - 1, r))
    lam = [sum((-1) ** (r - k) * math.comb(r, k) * math.comb(r + k, k) * b[k]
               for k in range(r + 1)) for r in range(len(b))]
    want = lam[:2] + [v / lam[1] for v in lam[2:]]
    for m in range(1, len(b) + 1):
        close(lf.samlmu(np.array(data), m), want[:m], "%d moments of %d values" % (m, n),
              rtol=1e-7, atol=1e-8)
    if abs(want[2]) < 1 - 1e-6:
        xi, a, k = lf.pelgpa(want[:3])
        close([xi + a / (1 + k), a / ((1 + k) * (2 + k)), (1 - k) / (3 + k)], want[:3],
              "moments of the fitted threshold distribution", rtol=1e-7, atol=1e-7)


@st.composite
def grids(draw):
    n = draw(st.integers(3, 25))
    ny, nx = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return {"n": n, "ny": ny, "nx": nx, "seed": draw(st.integers(0, 10 ** 6)),
            "kinds": draw(st.lists(st.sampled_from(["plain", "zero", "const", "few", "tail"]),
                                   min_size=ny * nx, max_size=ny * nx)),
            "min": draw(st.sampled_from([3, 3, 8])), "yrs": draw(st.sampled_from([1, 1, 2])),
            "years": draw(st.sampled_from([[2, 5, 10, 100], [20, 3], [7]])),
            "order": draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))}


def stack(c):
    import numpy as np
    r = np.random.RandomState(c["seed"] % (2 ** 31))
    out = np.zeros((c["n"], c["ny"], c["nx"]), "f4")
    for k, kind in enumerate(c["kinds"]):
        v = np.round(60 - 20 * r.weibull(1.8, c["n"]), 2).clip(1, 99)
        if kind == "zero":
            v[:] = 0
        elif kind == "const":
            v[:] = 33.0
            v[: c["n"] // 2] = 0.0
        elif kind == "few":
            v[2:] = 0
        elif kind == "tail":
            v = np.round(10 + r.pareto(0.8, c["n"]), 2).clip(1, 99)
        out[:, k // c["nx"], k % c["nx"]] = r.permutation(v)
    return out


@prop.facet(grids, quick=900, thorough=6000, rule="cells of different kinds")
def cells(c, ctx):
    """Each cell's result is that of its own record, in any order of years."""
    import numpy as np
    import hazard
    from hazard import evd
    Vr = stack(c)
    years = np.array(c["years"], "f")
    ctx.nontrivial(len(set(c["kinds"])) > 1)
    ctx.klass(*set(c["kinds"]))
    order = np.argsort(np.array(c["order"]), kind="stable")
    out = hazard.calculateGEV(Vr.copy(), years, NODATA, c["min"], c["yrs"])
    mixed = hazard.calculateGEV(Vr[order].copy(), years, NODATA, c["min"], c["yrs"])
    for a, b in zip(out, mixed):
        close(a, b, "years in another order", rtol=1e-5, atol=1e-5)
    Rp, loc, scale, shp = out
    for j in range(c["ny"]):
        for i in range(c["nx"]):
            rec = np.sort(Vr[:, j, i])
            if rec.max() <= 0:
                w, l, s, k = np.zeros(len(years)), 0, 0, 0
            else:
                w, l, s, k = evd.gevfit(rec, years, NODATA, c["min"], c["yrs"])
            close(Rp[:, j, i], w, "levels at (%d, %d)" % (j, i), rtol=1e-5, atol=1e-4)
            close([loc[j, i], scale[j, i], shp[j, i]], [l, s, k],
                  "parameters at (%d, %d)" % (j, i), rtol=1e-5, atol=1e-5)


@st.composite
def intervals(draw):
    size = draw(st.sampled_from([3, 4]))
    nsam = draw(st.sampled_from([1, 2, 2, 3])) if size == 3 else draw(st.sampled_from([1, 2]))
    n = size * nsam + draw(st.sampled_from([0, 0, 1])) if nsam < 3 else size * nsam
    cells = draw(st.lists(st.lists(edge(dec(10, 70, 1), 0.0, 66.0, 68.5), min_size=n, max_size=n),
                          min_size=1, max_size=3))
    return {"size": size, "cells": cells,
            "prange": draw(st.sampled_from([0, 50, 90, 95, 98, 100])),
            "seed": draw(st.integers(0, 10 ** 6)),
            "years": draw(st.sampled_from([[2, 10, 100], [20]])),
            "yrs": draw(st.sampled_from([1, 1, 2]))}


def partitions(n, size, m):
    """All ways to pick m disjoint samples of the given size."""
    def rec(left, m):
        if m == 0:
            yield ()
            return
        for combo in itertools.combinations(left, size):
            rest = [x for x in left if x not in combo and x > combo[0]]
            for tail in rec(rest, m - 1):
                yield (combo,) + tail
    seen = set()
    for skip in itertools.combinations(range(n), n - size * m):
        left = [x for x in range(n) if x not in skip]
        for p in rec(left, m):
            seen.add(p)
    return sorted(seen)


@prop.facet(intervals, quick=400, thorough=3000,
            rule="limits present, all partitions of the record enumerated")
def limits(c, ctx):
    """The limits are percentiles over the fits of some partition into samples."""
    import random
    import numpy as np
    import hazard
    from hazard import evd
    years = np.array(c["years"], "f")
    rec = np.array(c["cells"], "f4")            # cell x year
    n = rec.shape[1]
    m = n // c["size"]
    random.seed(c["seed"])
    np.random.seed(c["seed"] % (2 ** 31))
    up, lo = hazard.calculateCI(rec.T[:, None, :].copy(), years, NODATA, 30, c["yrs"],
                                c["size"], c["prange"])
    check(up.shape == lo.shape == (len(years), 1, len(rec)), "shape of the limits %s" % (up.shape,))
    check((up >= lo).all(), "an upper limit below the lower one")
    lower = (100 - c["prange"]) / 2.
    for k in range(len(rec)):
        got = np.stack([up[:, 0, k], lo[:, 0, k]]).astype(float)
        fits = {}
        best = None
        for p in partitions(n, c["size"], m):
            w = []
            for s in p:
                if s not in fits:
                    v = np.sort(rec[k][list(s)])
                    fits[s] = (evd.gevfit(v, years, NODATA, 3, c["yrs"])[0] if v.max() > 0
                               else np.full(len(years), NODATA))
                w.append(fits[s])
            w = np.array(w)
            exp = np.full((2, len(years)), NODATA)
            for y in range(len(years)):
                ok = w[w[:, y] != NODATA, y]
                if len(ok):
                    exp[:, y] = np.percentile(ok, [100 - lower, lower])
            d = np.abs(got - exp).max()
            if best is None or d < best[0]:
                best = (d, exp)
            if d < 1e-2:
                break
        present = (got != NODATA).any()
        ctx.nontrivial(present and m > 1)
        ctx.klass("samples %d" % m, "present" if present else "missing")
        check(best[0] < 1e-2 or np.allclose(got, best[1], rtol=1e-4),
              lambda: "cell %d: limits %s are not those of any partition into samples of %d; "
              "nearest %s" % (k, got.tolist(), c["size"], best[1].tolist()))


@st.composite
def longer(draw):
    return {"n": draw(st.integers(40, 160)), "size": draw(st.integers(10, 40)),
            "seed": draw(st.integers(0, 10 ** 6)),
            "factor": draw(st.sampled_from([2.0, 0.5, 3.0])),
            "prange": draw(st.sampled_from([80, 90, 98])), "pad": draw(st.integers(0, 3)),
            "above": draw(st.integers(0, 2)), "sorted": draw(st.booleans())}


@prop.facet(longer, quick=300, thorough=3000, rule="at least two samples")
def resampled(c, ctx):
    """Longer records: repeatable, order kept, nested, scaled and cells apart."""
    import random
    import numpy as np
    import hazard
    from hazard import evd
    r = np.random.RandomState(c["seed"])
    rec = np.round(80 - 30 * r.weibull(1.9, c["n"]), 2).clip(1, 99).astype("f4")
    years = np.array([5, 20, 100], "f")

    if c["sorted"]:
        rec.sort()

    def go(x, prange, pad=0, seed=0, above=0):
        random.seed(c["seed"] + seed)
        np.random.seed(c["seed"] + seed)
        v = np.zeros((c["n"], 1 + above, 1 + pad), "f4")
        v[:, above, pad] = x
        a, b = hazard.calculateCI(v, years, NODATA, 50, 1, c["size"], prange)
        check((a[:, :, :pad] == NODATA).all() and (a[:, :above] == NODATA).all(),
              "limits at a cell without wind")
        return a[:, above, pad], b[:, above, pad]
    up, lo = go(rec, c["prange"])
    m = c["n"] // c["size"]
    ctx.nontrivial(m > 1)
    ctx.klass("samples %s" % ("many" if m > 4 else m))
    if (up == NODATA).any():
        ctx.klass("missing")
        return
    again = go(rec, c["prange"])
    close(again, (up, lo), "repeated with the same random numbers", rtol=0)
    close(go(rec, c["prange"], c["pad"], above=c["above"]), (up, lo), "calm cells beside",
          rtol=1e-6)
    if m > 1:
        tries = [np.array(go(rec, c["prange"], c["pad"], s, c["above"])) for s in (1, 2, 3)]
        check(any((t != np.array((up, lo))).any() for t in tries),
              "the same samples are taken whatever the random numbers")
    su, sl = go(rec * np.float32(c["factor"]), c["prange"])
    close((su, sl), (up * c["factor"], lo * c["factor"]), "scaled record", rtol=2e-4)
    mu, ml = go(rec, 0)
    close(mu, ml, "a range of nothing", rtol=1e-6)
    wu, wl = go(rec, 100)
    check((wl <= lo + 1e-4).all() and (up <= wu + 1e-4).all(),
          "the full range is inside the narrower one")
    if m > 1 and (wu > wl + 0.5).all() and c["size"] > 20:
        check((up < wu).all() and (lo > wl).all(),
              "limits of %d %% are those of the full range" % c["prange"])
    nu, nl = go(rec, c["prange"] - 40)
    check((lo <= nl + 1e-4).all() and (nl <= mu + 1e-4).all() and (mu <= nu + 1e-4).all()
          and (nu <= up + 1e-4).all(), "narrower limits are not inside wider ones")
    # no fit of part of a record of wind speeds leaves the reach of the record by far
    check((lo > 0).all(), "a lower limit %s for winds from %g" % (lo, rec.min()))
