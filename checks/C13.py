"""Empirical, power-law and threshold hazard levels."""
import math

from hypothesis import strategies as st

from vf import Property, Violation, check, close
from vf.gen import dec, edge

TECHNIQUE = ("property-based testing of empirical levels against exceedance counts and exact "
             "plotting positions, and of fitted curves against their own parameters, monotonicity "
             "and least-squares / likelihood optimality")
NOTE = ("records of 1-120 events over 1-60 years with ties and calm events; counts of "
        "exceedances are exact, fitted curves checked through what they promise")

prop = Property("C13", preload=("numpy", "scipy.stats", "hazard"), assumptions=[
    "return periods asked of the empirical curve do not exceed the simulated years"])

NODATA = -9999.0


@st.composite
def records(draw, lo=1, hi=60):
    n = draw(st.integers(lo, hi))
    vals = draw(st.lists(edge(dec(5, 95, 1), 0.0, 30.0), min_size=n, max_size=n))
    if max(vals) <= 0:
        vals[0] = 42.0
    years = draw(st.integers(1, 60))
    return {"data": vals, "sims": years, "more": draw(st.integers(1, 40)),
            "t": draw(st.lists(edge(dec(0.01, years, 2), 1.0, float(years)), min_size=1,
                               max_size=6))}


def positions(n, total):
    """Return period in years of each rank, smallest first, of daily values."""
    days = int(365.25 * total)
    return [(days + 1.0) / (days + 1.0 - k) / 365.25 for k in range(1, days + 1)]


@prop.facet(records, quick=700, thorough=9000, rule="a level between zero and the largest event")
def empirical(c, ctx):
    import numpy as np
    from hazard import evd
    data = np.array(c["data"])
    t = np.array(c["t"])
    days = 365.25 * c["sims"]
    rp = positions(len(data), c["sims"])
    t = np.clip(t, rp[0] * 1.0000001, rp[-1] * 0.9999999)
    w, loc, scale, shp = evd.empfit(data.copy(), t, c["sims"])
    w = np.asarray(w, float)
    check(loc == scale == shp == NODATA, "parameters %s of an empirical curve" % ((loc, scale, shp),))
    x = np.zeros(int(days))
    x[len(x) - len(data):] = np.sort(data)
    close(w, np.interp(t, rp, x), "levels", rtol=1e-6, atol=1e-6)
    for T, v in zip(t, w):
        over = (data > v + 1e-9).sum()
        check(over <= days / (365.25 * T) + 1e-6,
              "%d events in %d years above the %g-year level" % (over, c["sims"], T))
        ctx.nontrivial(0 < v < data.max())
    order = np.argsort(t)
    check((np.diff(w[order]) >= -1e-9).all(), "levels fall with the return period")
    # the same events in any order
    w2 = evd.empfit(data[::-1].copy(), t, c["sims"])[0]
    close(w2, w, "events in another order", rtol=1e-9)
    # years without events lengthen the return period of every rank alike
    n2 = int(365.25 * (c["sims"] + c["more"]))
    near = t >= rp[len(rp) - len(data)]
    more = evd.empfit(data.copy(), t[near] * (n2 + 1.0) / (int(days) + 1.0) * (1 - 1e-12),
                      c["sims"] + c["more"])[0] if near.any() else []
    close(more, w[near], "after adding %d calm years" % c["more"], rtol=1e-6, atol=1e-6)


@prop.facet(records, quick=250, thorough=3000, rule="a request beyond the record")
def beyond(c, ctx):
    """A return period longer than the record is refused, not invented."""
    import numpy as np
    from hazard import evd
    rp = positions(len(c["data"]), c["sims"])
    t = np.array([rp[-1] * 1.01])
    ctx.nontrivial()
    try:
        w = evd.empfit(np.array(c["data"]), t, c["sims"])[0]
    except ValueError:
        return
    check(np.asarray(w)[0] == NODATA, "level %s beyond the longest return period" % w)


@st.composite
def samples(draw):
    n = draw(st.integers(20, 400))
    return {"n": n, "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["weibull", "gumbel", "pareto", "uniform"])),
            "calm": draw(st.sampled_from([0.0, 0.0, 0.3, 0.6])),
            "sims": draw(st.integers(2, 60)),
            "min": draw(st.sampled_from([1, 50])),
            "threshold": draw(st.sampled_from([99.5, 99.5, 90.0, 50.0])),
            "t": draw(st.sampled_from([[2, 5, 10, 50, 100, 500, 1000, 10000], [1, 25], [50, 5]]))}


def sample(c):
    import numpy as np
    r = np.random.RandomState(c["seed"])
    n = c["n"]
    v = {"weibull": 25 * r.weibull(2.0, n) + 5, "gumbel": r.gumbel(30, 7, n),
         "pareto": 15 + 5 * r.pareto(2.5, n), "uniform": r.uniform(10, 70, n)}[c["kind"]]
    v = np.round(v, 2).clip(1, 110)
    v[r.uniform(size=n) < c["calm"]] = 0.0
    if v.max() <= 0:
        v[0] = 40.0
    return v


def gpd_nll(x, mu, shape, scale):
    import numpy as np
    z = (x - mu) / scale
    if abs(shape) < 1e-12:
        return len(x) * math.log(scale) + z.sum()
    arg = 1 + shape * z
    if (arg <= 0).any():
        return float("inf")
    return len(x) * math.log(scale) + (1 + 1 / shape) * np.log(arg).sum()


@prop.facet(samples, quick=160, thorough=2000, rule="a fit is reported")
def threshold(c, ctx):
    """Peaks over threshold: levels follow the fitted tail and the true rate."""
    import numpy as np
    from hazard import evd, GPD
    data = np.sort(sample(c))
    t = np.array(c["t"], float)
    out = GPD.gpdfit(data.copy(), t, c["sims"], NODATA, c["min"], threshold=c["threshold"])
    twin = evd.gpdfit(data.copy(), t, c["sims"], NODATA, c["min"], threshold=c["threshold"])
    for a, b in zip(out, twin):
        close(a, b, "the two threshold fits", rtol=1e-9)
    w, loc, scale, shp = out
    w = np.asarray(w, float)
    if c["n"] < c["min"]:
        check((w == NODATA).all() and loc == scale == shp == NODATA,
              "a fit of %d events where %d are needed" % (c["n"], c["min"]))
        ctx.klass("too few")
        return
    if shp == NODATA:
        check((w == NODATA).all() and loc == scale == NODATA, "levels without parameters")
        ctx.klass("missing")
        return
    ctx.nontrivial()
    ctx.klass("fitted", "threshold %g" % c["threshold"])
    check(shp <= 0, "levels given for shape %r" % shp)
    check(scale > 0, "scale %r" % scale)
    pos = (len(data) - 1) * c["threshold"] / 100.0
    k = int(pos)
    mu = data[k] + (pos - k) * (data[min(k + 1, len(data) - 1)] - data[k])
    close(loc, mu, "threshold", rtol=1e-9)
    over = data[data > mu]
    rate = len(over) / float(int(365.25 * c["sims"]))
    m = t * 365.25 * rate       # exceedances expected in t years
    if abs(shp) > 1e-9:
        close(w, mu + scale / shp * (m ** shp - 1), "levels", rtol=1e-7)
    # the level for t years is exceeded by the fitted tail once in t years
    for T, v in zip(t, w):
        tail = 1 + shp * (v - mu) / scale
        if v > mu and shp < -1e-6 and tail > 1e-5:
            p = tail ** (-1 / shp)
            close(p * rate * 365.25 * T, 1.0, "exceedances in %g years" % T, rtol=1e-4)
    order = np.argsort(t)
    check((np.diff(w[order]) >= -1e-9).all(), "levels fall with the return period")
    best = gpd_nll(over, mu, shp, scale)
    if len(over) >= 10 and -0.4 < shp:
        mean, var = (over - mu).mean(), (over - mu).var()
        s0 = 0.5 * (1 - mean * mean / var)
        other = gpd_nll(over, mu, s0, 0.5 * mean * (mean * mean / var + 1))
        check(best <= other + 0.05, "the fit is less likely (%g) than the moment estimate (%g)"
              % (best, other))
    years2 = GPD.gpdfit(data.copy(), t, 2 * c["sims"], NODATA, c["min"], threshold=c["threshold"])
    days, days2 = int(365.25 * c["sims"]), int(730.5 * c["sims"])
    if years2[3] != NODATA and abs(shp) > 1e-9:
        m2 = t * 365.25 * len(over) / days2
        close(years2[0], mu + scale / shp * (m2 ** shp - 1), "twice the years", rtol=1e-6)


@prop.facet(samples, quick=120, thorough=1500, rule="a fit is reported")
def power(c, ctx):
    """The fitted power law never falls and is a least-squares fit."""
    import numpy as np
    from scipy.optimize import curve_fit
    from hazard import evd
    data = sample(c)
    t = np.array(c["t"], float)
    sims = max(c["sims"], 1 + c["n"] // 300)
    w, a, b, k = evd.powerfit(data.copy(), t, sims)
    w = np.asarray(w, float)
    if a == NODATA:
        check((w == NODATA).all() and b == k == NODATA, "levels without parameters")
        rp = np.array(positions(len(data), sims))[-len(data):]
        x = np.sort(data)
        use = x > x[x > 0].mean()
        try:
            curve_fit(lambda T, a, b, k: a - b * T ** k, rp[use], x[use],
                      p0=[x[-1], x[-1], -0.1], maxfev=2000)
        except (RuntimeError, TypeError, ValueError):
            ctx.klass("missing")
            return
        raise Violation("no power law is fitted to %d values that have one" % use.sum())
    ctx.nontrivial()
    ctx.klass("fitted")
    close(w, a - b * t ** k, "levels", rtol=1e-9)
    order = np.argsort(t)
    check((np.diff(w[order]) >= -1e-7).all(), "levels fall with the return period: %s" % w)
    rp = np.array(positions(len(data), sims))
    x = np.zeros(len(rp))
    x[len(x) - len(data):] = np.sort(data)
    use = x > x[x > 0].mean()
    rss = ((x[use] - (a - b * rp[use] ** k)) ** 2).sum()
    # no worse than the best straight line in log t
    A = np.stack([np.ones(use.sum()), np.log(rp[use])], axis=1)
    sol = np.linalg.lstsq(A, x[use], rcond=None)[0]
    line = ((x[use] - A @ sol) ** 2).sum()
    if use.sum() >= 5:
        check(rss <= line * 1.05 + 1e-3 * use.sum(),
              "sum of squares %g, a straight line in log time gives %g" % (rss, line))


@st.composite
def stacks(draw):
    c = draw(samples())
    c["n"] = draw(st.integers(10, 80))
    c.update(ny=draw(st.integers(1, 3)), nx=draw(st.integers(1, 3)), min=5,
             yrs=draw(st.sampled_from([1, 1, 2, 5])), sims=draw(st.integers(6, 30)),
             which=draw(st.sampled_from(["emp", "power", "GPD"])), t=[2.0, 5.0],
             dead=draw(st.integers(0, 8)))
    return c


@prop.facet(stacks, quick=140, thorough=1800, rule="several cells")
def cells(c, ctx):
    """Each cell's curve is that of its own events over all simulated years."""
    import numpy as np
    import hazard
    from hazard import evd, GPD
    Vr = np.zeros((c["n"], c["ny"], c["nx"]), "f4")
    for k in range(c["ny"] * c["nx"]):
        if k != c["dead"]:
            Vr[:, k // c["nx"], k % c["nx"]] = sample(dict(c, seed=c["seed"] + k))
    t = np.array(c["t"], "f")
    ctx.nontrivial(c["ny"] * c["nx"] > 1)
    ctx.klass(c["which"], "blocks of %d" % c["yrs"])
    fun = {"emp": hazard.calculateEMP, "power": hazard.calculatePower,
           "GPD": hazard.calculateGPD}[c["which"]]
    one = {"emp": evd.empfit, "power": evd.powerfit, "GPD": GPD.gpdfit}[c["which"]]
    Rp, loc, scale, shp = fun(Vr.copy(), t, c["sims"], NODATA, c["min"], c["yrs"])
    for j in range(c["ny"]):
        for i in range(c["nx"]):
            rec = np.sort(Vr[:, j, i])
            if rec.max() <= 0:
                w, l, s, k = np.zeros(len(t)), 0, 0, 0
            else:
                w, l, s, k = one(rec, t, c["sims"] * c["yrs"], NODATA, c["min"])
            close(Rp[:, j, i], w, "levels at (%d, %d)" % (j, i), rtol=1e-4, atol=1e-3)
            close([loc[j, i], scale[j, i], shp[j, i]], [l, s, k],
                  "parameters at (%d, %d)" % (j, i), rtol=1e-3, atol=1e-3)
