"""Random draws follow the tabulated distributions and streams repeat."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, scratch, Violation
from vf.gen import dec

TECHNIQUE = ("generated tables and quantiles compared with a linear scan; long "
             "seeded runs of draws compared with the table through an error bound "
             "that fails with probability below 1e-9")
NOTE = ("grids of at least 2 x 2; frequencies resolved to about 1% for "
        "single draws and 1.5% for genesis points")

prop = Property("C24", assumptions=["quantiles lie strictly between 0 and 1"])

ALPHA = 1e-10


def dkw(n):
    return math.sqrt(math.log(2 / ALPHA) / (2 * n))


@st.composite
def tables(draw, rows=st.integers(1, 40)):
    n = draw(rows)
    w = draw(st.lists(st.one_of(st.just(0), st.integers(0, 1000)), min_size=n, max_size=n))
    if sum(w) == 0:
        w[draw(st.integers(0, n - 1))] = 1
    x0 = draw(dec(-50, 1000, 1))
    step = draw(st.sampled_from([0.1, 0.25, 1.0, 5.0]))
    return {"w": w, "x": [x0 + i * step for i in range(n)]}


def as_cdf(t):
    c = np.cumsum(np.array(t["w"], float))
    return np.column_stack([t["x"], c / c[-1]])


@st.composite
def quantiles(draw):
    t = draw(tables())
    q = draw(st.lists(dec(0.0001, 0.9999, 4), min_size=1, max_size=12))
    return {"table": t, "q": q, "on": draw(st.booleans())}


@prop.facet(quantiles, quick=1500, thorough=30000,
            rule="a table and quantiles; non-trivial when the table has at least two "
                 "values with probability")
def one_value(d, ctx):
    from TrackGenerator.TrackGenerator import ppf
    t = as_cdf(d["table"])
    qs = list(d["q"])
    if d["on"]:
        # Quantiles exactly on and next to the tabulated probabilities.
        for c in t[:, 1]:
            qs += [c, np.nextafter(c, 0), np.nextafter(c, 1)]
    ctx.nontrivial(sum(w > 0 for w in d["table"]["w"]) > 1)
    for q in qs:
        if not 0 < q < 1:
            continue
        want = next(x for x, c in t if c >= q)
        got = ppf(q, t)
        check(got == want, "draw for %r is %r; the table reaches it first at %r" % (q, got, want))


@st.composite
def surfaces(draw):
    nx, ny = draw(st.integers(2, 8)), draw(st.integers(2, 8))
    z = draw(st.lists(st.one_of(st.just(0), st.integers(0, 500)), min_size=nx * ny,
                      max_size=nx * ny))
    if sum(z) == 0:
        z[draw(st.integers(0, nx * ny - 1))] = 1
    return {"nx": nx, "ny": ny, "z": z, "x0": draw(st.sampled_from([0, 100, 170, -20])),
            "y0": draw(st.sampled_from([-30, -5, 20])), "step": draw(st.sampled_from([0.25, 1.0])),
            "scale": draw(st.sampled_from([1.0, 1e-3, 1e-6])),
            "source": draw(st.sampled_from(["array", "netcdf", "set", "text", "folder"]))}


def surface(s):
    x = s["x0"] + np.arange(s["nx"]) * s["step"]
    y = s["y0"] - np.arange(s["ny"]) * s["step"]
    z = np.array(s["z"], float).reshape(s["ny"], s["nx"]) * s.get("scale", 1.0)
    return x, y, z


def sampler(s):
    from StatInterface.SamplingOrigin import SamplingOrigin
    x, y, z = surface(s)
    where = scratch()
    if s["source"] == "array":
        return SamplingOrigin(z, x, y)
    if s["source"] == "set":
        o = SamplingOrigin()
        if s["nx"] % 2:
            # what was set before is forgotten
            o.setKDEOrigins(x[:-1], y, z[::-1, :-1] + 1)
        o.setKDEOrigins(x, y, z)
        return o
    if s["source"] == "netcdf":
        from netCDF4 import Dataset
        path = os.path.join(where, "originPDF.nc")
        with Dataset(path, "w") as nc:
            for name, v in (("lat", y), ("lon", x)):
                nc.createDimension(name, len(v))
                nc.createVariable(name, "f8", (name,))[:] = v
            nc.createVariable("gpdf", "f4", ("lat", "lon"))[:] = z
        return SamplingOrigin(path)
    path = os.path.join(where, "originPDF.txt")
    with open(path, "w") as fh:
        fh.write("ncols %d\nnrows %d\nxllcorner %r\nyllcorner %r\ncellsize %r\n"
                 "NODATA_value -9999\n" % (s["nx"], s["ny"], float(x[0]), float(y[-1]), s["step"]))
        for row in z:
            fh.write(" ".join("%g" % v for v in row) + "\n")
    if s["source"] == "text":
        return SamplingOrigin(path)
    o = SamplingOrigin()
    o.setKDEOrigins(outputPath=where)
    return o


@st.composite
def origin_quantiles(draw):
    return {"surface": draw(surfaces()),
            "q": draw(st.lists(st.tuples(dec(0.0001, 0.9999, 4), dec(0.0001, 0.9999, 4)),
                               min_size=1, max_size=15))}


@prop.facet(origin_quantiles, quick=700, thorough=15000,
            rule="a genesis density and quantile pairs; non-trivial when the density "
                 "is positive at more than two points")
def origin(d, ctx):
    s = d["surface"]
    x, y, z = surface(s)
    o = sampler(s)
    ctx.klass("from " + s["source"])
    ctx.nontrivial(bool((z > 0).sum() > 2))
    col = z.sum(axis=0)
    for q1, q2 in d["q"]:
        # Exact rational comparison, leaving ties on a boundary alone.
        total, acc = col.sum(), 0.0
        near = False
        for i in range(len(x)):
            acc += col[i]
            near |= abs(acc / total - q1) < 1e-6
            if acc >= q1 * total:
                break
        acc = 0.0
        for j in range(len(y)):
            acc += z[j, i]
            near |= abs(acc / col[i] - q2) < 1e-6
            if acc >= q2 * col[i]:
                break
        if near:
            ctx.klass("on a boundary")
            continue
        got = tuple(float(v) for v in o.ppf(q1, q2))
        check(abs(got[0] - x[i]) < 1e-9 and abs(got[1] - y[j]) < 1e-9,
              "genesis point for (%r, %r) is %r; the density reaches it first at %r" %
              (q1, q2, got, (x[i], y[j])))


@st.composite
def long_runs(draw):
    return {"table": draw(tables(st.integers(2, 15))), "surface": draw(surfaces()),
            "seed": draw(st.integers(0, 2 ** 32 - 1)), "file": draw(st.booleans())}


@prop.facet(long_runs, quick=60, thorough=1200,
            rule="long runs of draws; non-trivial when table and density each offer "
                 "at least two outcomes")
def frequencies(d, ctx):
    from StatInterface.SamplingParameters import SamplingParameters
    from Utilities.files import flLoadFile
    t = as_cdf(d["table"])
    w = np.array(d["table"]["w"], float)
    x, y, z = surface(d["surface"])
    ctx.nontrivial(bool((w > 0).sum() > 1 and (z > 0).sum() > 1))
    where = scratch()
    np.random.seed(d["seed"])
    if d["file"]:
        src = os.path.join(where, "cdf")
        np.savetxt(src, t, fmt="%.10f", delimiter=",")
        sp = SamplingParameters(src)
    else:
        sp = SamplingParameters().setParameters(t)
    n = 100000
    got = sp.generateSamples(n)
    tally(got, t[:, 0], w, "generateSamples")
    m = 2500
    tally(np.array([sp.generateOneSample() for _ in range(m)]), t[:, 0], w, "generateOneSample")
    out = os.path.join(where, "out")
    sp.generateSamples(500, out)
    back = flLoadFile(out)
    check(back.shape == (500,), "saved draws")
    tally(back, t[:, 0], w, "saved draws")
    o = sampler(d["surface"])
    m = 8000
    pts = o.generateSamples(m)
    joint(pts, x, y, z, "genesis points")
    joint(np.array([o.generateOneSample() for _ in range(1500)]), x, y, z, "single genesis points")
    o.generateSamples(300, out)
    back = flLoadFile(out, "%", ",")
    check(back.shape == (300, 2), "saved genesis points")
    joint(back, x, y, z, "saved genesis points")
    for bad in (0, -1):
        for s in (sp, o):
            try:
                s.generateSamples(bad)
            except ValueError:
                continue
            raise Violation("%d draws accepted" % bad)


def tally(got, x, w, what):
    idx = np.abs(got[:, None] - x[None, :]).argmin(axis=1)
    check(np.abs(got - x[idx]).max() < 1e-5, what + ": value not in the table")
    f = np.bincount(idx, minlength=len(x)) / float(len(got))
    p = w / w.sum()
    check((f[p == 0] == 0).all(), what + ": value without probability drawn")
    bad = np.abs(np.cumsum(f) - np.cumsum(p)).max()
    check(bad <= dkw(len(got)), what + ": frequencies are off by %.4f over %d draws" % (bad, len(got)))


def joint(got, x, y, z, what):
    i = np.abs(got[:, [0]] - x[None, :]).argmin(axis=1)
    j = np.abs(got[:, [1]] - y[None, :]).argmin(axis=1)
    check(np.abs(got[:, 0] - x[i]).max() < 1e-3 and np.abs(got[:, 1] - y[j]).max() < 1e-3,
          what + ": not on the grid")
    f = np.zeros(z.shape)
    np.add.at(f, (j, i), 1.0 / len(got))
    p = z / z.sum()
    check((f[p == 0] == 0).all(), what + ": point without density drawn")
    # Bernstein bound for every cell.
    n, l = len(got), math.log(2 * z.size / ALPHA)
    tol = np.sqrt(2 * p * (1 - p) * l / n) + 2 * l / (3 * n)
    bad = np.abs(f - p) - tol
    if bad.max() > 0:
        b, a = np.unravel_index(bad.argmax(), bad.shape)
        raise Violation("%s: (%g, %g) drawn with frequency %.4f, its density is %.4f" %
                        (what, x[a], y[b], f[b, a], p[b, a]))


@st.composite
def streams(draw):
    return {"seed": draw(st.integers(0, 2 ** 31)), "stream": draw(st.integers(0, 10 ** 6)),
            "other": draw(st.integers(1, 1000)),
            "mu": draw(dec(-100, 100, 1)), "sigma": draw(dec(0.1, 30, 1)),
            "xi": draw(dec(0.1, 1.5, 2)), "width": draw(dec(0.1, 500, 1))}


def ks(v, cdf, what):
    v = np.sort(np.asarray(v, float))
    n = len(v)
    c = cdf(v)
    d = max(np.abs(c - np.arange(n) / n).max(), np.abs(c - np.arange(1, n + 1) / n).max())
    check(d <= dkw(n), "%s: distribution off by %.4f over %d draws" % (what, d, n))


@prop.facet(streams, quick=150, thorough=3000,
            rule="a seed, a stream and parameters; non-trivial always")
def streams_repeat(d, ctx):
    from scipy.special import ndtr
    from Utilities.tcrandom import Random
    ctx.nontrivial(True)
    mu, s, xi = d["mu"], d["sigma"], d["xi"]
    n = 4000
    r = Random(d["seed"], d["stream"])
    ks([r.normalvariate(mu, s) for _ in range(n)], lambda v: ndtr((v - mu) / s), "normal")
    ks(r.normalvariate(mu, s, n), lambda v: ndtr((v - mu) / s), "normal array")
    hi = mu + d["width"]
    u = np.array([r.uniform(mu, hi) for _ in range(n)])
    check((u >= mu).all() and (u <= hi).all(), "uniform draw outside its range")
    ks(u, lambda v: (v - mu) / d["width"], "uniform")
    ks([r.random() for _ in range(n)], lambda v: v, "random")
    ks([r.logisticvariate(mu, s) for _ in range(n)],
       lambda v: 1 / (1 + np.exp(-np.clip((v - mu) / s, -700, 700))), "logistic")
    ks([r.lognormvariate(xi, mu, s) for _ in range(n)],
       lambda v: ndtr(np.log(np.maximum(v - mu, 1e-300) / s) / xi), "lognormal")
    ks([r.normalvariate() for _ in range(500)], ndtr, "standard normal")
    for call in (lambda: r.logisticvariate(mu, 0.0), lambda: r.logisticvariate(mu, -s),
                 lambda: r.lognormvariate(0.0, mu, s), lambda: r.lognormvariate(xi, mu, -s)):
        try:
            call()
        except ValueError:
            continue
        raise Violation("a scale or shape that is not positive is accepted")

    def run(seed, stream, n=200):
        q = Random(seed, stream)
        return [f() for _ in range(n // 4) for f in
                (q.random, lambda: q.normalvariate(mu, s), lambda: q.logisticvariate(mu, s),
                 lambda: q.lognormvariate(xi, mu, s))]
    a = run(d["seed"], d["stream"])
    check(a == run(d["seed"], d["stream"]), "the same seed and stream give another sequence")
    # Other generators do not disturb a stream.
    q = Random(d["seed"], d["stream"])
    p = Random(d["seed"], d["stream"] + d["other"])
    first = []
    for _ in range(50):
        first.append(q.random())
        p.random()
    q = Random(d["seed"], d["stream"])
    check(first == [q.random() for _ in range(50)], "streams disturb each other")
    for seed, stream in ((d["seed"], d["stream"] + d["other"]), (d["seed"] + d["other"], d["stream"])):
        v = np.array([Random(seed, stream).uniform(shape=4000),
                      Random(d["seed"], d["stream"]).uniform(shape=4000)])
        c = abs(np.corrcoef(v)[0, 1])
        check(c < 0.12, "streams are correlated (%.3f)" % c)
