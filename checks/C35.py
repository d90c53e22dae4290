"""Evaluation grids and crossing rates of historical and synthetic track sets."""
import math
import os
import random
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, mpi, records, scratch, tracks
from vf.gen import dec
from vf.geom import crossing, edge_distance, inside, lean

TECHNIQUE = ("generated historical records and simulation files run through the evaluation by "
             "one or several processes, compared with counts made by an independent loop")
NOTE = ("up to 5 simulation files of 5 tracks and 4 processes; plots are left out; tracks that "
        "touch a line of longitude without crossing it and steps that cross the coast more than "
        "once are not compared")

prop = Property("C35", assumptions=[
    "the grid spacing divides the region", "positions are within the range of longitudes of the "
    "region plus or minus 6 degrees", "a time step crosses the coast at most once"])

LAYOUT = {"ids": "num", "dates": "date", "fmt": "%Y-%m-%d %H:%M", "speed": "mps",
          "pressure": "hPa", "length": "km", "missing": "", "delimiter": ",", "heading": 1,
          "west": False, "vmax": False, "rmax": False, "outer": "penv", "pad": "",
          "order": list(range(24)), "skips": 0}


@st.composite
def track(draw, lim, n, span):
    """Positions wandering across the region, on the 0.25 degree lattice or off it."""
    k = draw(st.integers(*n))
    fine = draw(st.sampled_from([0.25, 0.01, 0.5]))
    x = draw(st.integers(int((lim[0] - 3) * 4), int((lim[1] + 3) * 4))) / 4
    y = draw(st.integers(int((lim[2] - 2) * 4), int((lim[3] + 2) * 4))) / 4
    out = []
    cx, cy = draw(dec(-span, span, 1)), draw(dec(-span, span, 1))
    for _ in range(k):
        out.append({"lon": x, "lat": y, "cp": draw(dec(880, 1008, 1))})
        x = round(round((x + cx + draw(dec(-1, 1, 2))) / fine) * fine, 2)
        y = round(round((y + cy + draw(dec(-1, 1, 2))) / fine) * fine, 2)
    for p in out:
        p["lon"] = p["lon"] + 0.01 if p["lon"] == lim[1] else p["lon"]
        p["lat"] = p["lat"] + 0.01 if p["lat"] == lim[3] else p["lat"]
    return out


@st.composite
def studies(draw, n=(1, 8), span=3.0, count=(1, 5), least=1, files=(1, 5)):
    x0, y0 = draw(st.sampled_from([100, 150, 40, 203])), draw(st.sampled_from([-30, -25, 5]))
    lim = [x0, x0 + draw(st.sampled_from([10, 20, 30])), y0, y0 + draw(st.sampled_from([10, 20]))]
    return {"lim": lim, "space": [draw(st.sampled_from([1.0, 2.0, 2.5, 0.5])),
                                  draw(st.sampled_from([1.0, 2.0, 5.0, 0.5]))],
            "hist": [draw(track(lim, n, span)) for _ in range(draw(st.integers(least, 5)))],
            "years": [draw(st.sampled_from([0, 1, 1, 3])) for _ in range(5)],
            "gone": draw(st.integers(0, 7)),
            "december": [draw(st.integers(0, 3)) == 3 for _ in range(5)],
            "files": [[draw(track(lim, n, span)) for _ in range(draw(st.integers(*count)))]
                      for _ in range(draw(st.integers(*files)))],
            "peryear": draw(st.sampled_from([1, 5, 10])),
            "ranks": draw(st.sampled_from([1, 1, 2, 3, 4])),
            "schedule": draw(st.lists(st.integers(0, 7), min_size=1, max_size=6))}


def lay_out(d, gates=None, history=True):
    """Write the configuration, the record and the simulation files; run with a class."""
    from Utilities.track import ncSaveTracks
    path = scratch()
    for sub in ("tracks", "process", os.path.join("plots", "stats")):
        os.makedirs(os.path.join(path, sub))
    rows, t = [], datetime(1990, 3, 1)
    for k, pts in enumerate(d["hist"]):
        t = datetime(t.year + d["years"][k], 3, 1 + k)
        if d["december"][k]:
            t = datetime(t.year, 12, 31, 6)
        for i, p in enumerate(pts):
            gone = d["gone"] and i > 0 and (i + k) % d["gone"] == 0
            w = t + timedelta(hours=6 * i)
            rows.append({"sid": k + 1, "t": [w.year, w.month, w.day, w.hour, w.minute],
                         "lon": p["lon"], "lat": p["lat"], "p": p["cp"], "gone": bool(gone),
                         "v": 0.0, "r": 30.0, "env": 1010.0})
    lim = d["lim"]
    extra = """[Region]
gridLimit={'xMin':%d,'xMax':%d,'yMin':%d,'yMax':%d}
gridSpace={'x':%r,'y':%r}
gridInc={'x':1.0,'y':1.0}

[Output]
Path=%s

[TrackGenerator]
yearspersimulation=%d
Timestep=6.0

[Input]
CoastlineGates=%s
""" % (lim[0], lim[1], lim[2], lim[3], d["space"][0], d["space"][1], path, d["peryear"],
       os.path.join(path, "gates.csv"))
    with open(os.path.join(path, "gates.csv"), "w") as f:
        for k, g in enumerate(gates or [[1, 1], [2, 2], [3, 1]]):
            f.write("%d,%r,%r\n" % (k, g[0], g[1]))
    ini = records.write({"layout": LAYOUT, "rows": rows}, path, extra=extra)[1]
    for k, f in enumerate(d["files"]):
        ts = []
        for i, pts in enumerate(f):
            full = [dict(p, sp=10.0, be=90.0, rm=30.0, ep=1010.0) for p in pts]
            ts.append(tracks.make(full, tid=(i + 1, len(f)), start=(2001, 1, 1)))
        ncSaveTracks(os.path.join(path, "tracks", "tracks.%05d.nc" % k), ts)
    with open(os.path.join(path, "tracks", "notes.txt"), "w") as f:
        f.write("not a track file\n")
    return path, ini, rows


def run(d, kind, ini, figures=False):
    """Run one evaluation on every process; returns the first's."""
    import Evaluate
    from Utilities import config

    def target(rank):
        config.reset()
        e = getattr(Evaluate, kind)(ini)
        for name in dir(e):
            if not figures and name.startswith("plot") and callable(getattr(e, name)):
                setattr(e, name, lambda *a, **k: None)
        e.run()
        return e
    try:
        return mpi.run_ranks(d["ranks"], d["schedule"], target)[0]
    finally:
        config.reset()


def hist_tracks(rows):
    out = {}
    for r in rows:
        out.setdefault(r["sid"], []).append(r)
    return list(out.values())


def bins(v, edges):
    """Index of the bin [a, b) that holds v, or None."""
    for k in range(len(edges) - 1):
        if edges[k] <= v < edges[k + 1]:
            return k
    return None


def axis(lo, hi, step):
    return [lo + step * k for k in range(int(round((hi - lo) / step)) + 1)]


def grids(name):
    from netCDF4 import Dataset
    nc = Dataset(name)
    out = {v: np.ma.array(nc.variables[v][:]) for v in nc.variables}
    atts = {v: {a: nc.variables[v].getncattr(a) for a in nc.variables[v].ncattrs()}
            for v in nc.variables}
    dims = {v: nc.variables[v].dimensions for v in nc.variables}
    nc.close()
    return out, atts, dims


def same(got, want, what, tol=1e-5):
    got = np.ma.array(got)
    want = np.ma.array(want)
    check(got.shape == want.shape, "%s: shape %r, expected %r" % (what, got.shape, want.shape))
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    check((gm == wm).all(), "%s: empty cells %r, expected %r" % (what, gm, wm))
    g, w = got.filled(0.0).astype(float), want.filled(0.0).astype(float)
    bad = ~(np.abs(g - w) <= tol * (1 + np.abs(w)))
    check(not bad.any(), "%s: %d of %d values differ, first at %r: %r, expected %r" % (
        what, bad.sum(), bad.size, tuple(np.argwhere(bad)[0]) if bad.any() else None,
        g[bad][:1], w[bad][:1]))


def held(e, name, want, what):
    """Results that are kept in memory only, under the name the figures use."""
    if hasattr(e, name):
        same(getattr(e, name), want, what)


def check_axes(d, v, lon, lat):
    check(np.allclose(v["lon"], lon) and len(v["lon"]) == len(lon), "longitudes %r" % v["lon"])
    check(np.allclose(v["lat"], lat) and len(v["lat"]) == len(lat), "latitudes %r" % v["lat"])


@prop.facet(lambda: studies(), quick=90, thorough=1500,
            rule="historical record and simulation files; non-trivial with two or more files "
                 "and positions in two or more cells")
def position_density(d, ctx):
    path, ini, rows = lay_out(d)
    e = run(d, "TrackDensity", ini)
    lon = axis(d["lim"][0], d["lim"][1], d["space"][0])
    lat = axis(d["lim"][2], d["lim"][3], d["space"][1])

    def count(pts):
        h = np.zeros((len(lat) - 1, len(lon) - 1))
        for p in pts:
            i, j = bins(p["lon"], lon), bins(p["lat"], lat)
            if i is not None and j is not None:
                h[j, i] += 1
        return h
    years = [r["t"][0] for r in rows]
    h = count(rows) / (max(years) - min(years) + 1.0)
    syn = np.array([count([p for t in f for p in t]) / d["peryear"] for f in d["files"]])
    ctx.nontrivial(len(syn) > 1 and (syn.sum(axis=0) > 0).sum() > 1)
    ctx.klass("%d processes" % d["ranks"], "one year" if len(set(years)) == 1 else "several years")
    v, atts, dims = grids(os.path.join(path, "process", "density.nc"))
    check_axes(d, v, lon[:-1], lat[:-1])
    same(v["hist_density"], h, "historical density")
    same(v["syn_density"], syn.mean(axis=0), "mean synthetic density")
    same(v["syn_density_upper"], np.percentile(syn, 95, axis=0), "upper synthetic density")
    same(v["syn_density_lower"], np.percentile(syn, 5, axis=0), "lower synthetic density")
    check(str(atts["syn_density_upper"]["percentile"]) == "95"
          and str(atts["syn_density_lower"]["percentile"]) == "5", "percentile labels %r" % atts)
    held(e, "medSynHist", np.median(syn, axis=0).T, "median synthetic density")


@prop.facet(lambda: studies(), quick=90, thorough=1500,
            rule="historical record and simulation files; non-trivial with two or more files "
                 "and a cell seen in some of the files only")
def pressures(d, ctx):
    path, ini, rows = lay_out(d)
    e = run(d, "PressureDistribution", ini)
    lon = axis(d["lim"][0], d["lim"][1], d["space"][0])
    lat = axis(d["lim"][2], d["lim"][3], d["space"][1])

    def cells(pts):
        held = {}
        for p in pts:
            i, j = bins(p["lon"], lon), bins(p["lat"], lat)
            if i is not None and j is not None:
                held.setdefault((j, i), []).append(p["cp"])
        out = []
        for f in (np.mean, np.min, np.max, np.median):
            a = np.ma.masked_all((len(lat) - 1, len(lon) - 1))
            for k, v in held.items():
                a[k] = f(v)
            out.append(a)
        return out

    def lowest(ts):
        lim = d["lim"]
        return [min(p["cp"] for p in t) if lim[0] <= t[0]["lon"] <= lim[1]
                and lim[2] <= t[0]["lat"] <= lim[3] else 0.0 for t in ts]

    def spread(v):
        h = np.zeros(33)
        for x in v:
            # The last bin includes its upper end.
            if 850 <= x <= 1015:
                h[min(int((x - 850) // 5), 32)] += 1
        return h / h.sum() / 5.0 if h.sum() else h
    good = [dict(r, cp=r["p"]) for r in rows if not r["gone"]]
    hist = cells(good)
    hmin = lowest([[dict(r, cp=2e9 if r["gone"] else r["p"]) for r in t] for t in hist_tracks(rows)])
    syn = [cells([p for t in f for p in t]) for f in d["files"]]
    stack = [np.ma.array([s[k] for s in syn]) for k in range(4)]
    seen = ~np.ma.getmaskarray(stack[0])
    ctx.nontrivial(len(syn) > 1 and (seen.any(axis=0) & ~seen.all(axis=0)).any())
    ctx.klass("%d processes" % d["ranks"])
    v, atts, dims = grids(os.path.join(path, "process", "pressureDistribution.nc"))
    check_axes(d, v, lon[:-1], lat[:-1])
    same(v["hist_mean"], hist[0], "historical mean pressure")
    same(v["hist_min"], hist[1], "historical minimum pressure")
    same(v["syn_mean"], stack[0].mean(axis=0), "mean of the mean synthetic pressure")
    same(v["syn_min"], stack[1].mean(axis=0), "mean of the minimum synthetic pressure")
    held(e, "histMax", hist[2].T, "historical maximum pressure")
    held(e, "histMed", hist[3].T, "historical median pressure")
    held(e, "synMax", stack[2].mean(axis=0).T, "mean of the maximum synthetic pressure")
    held(e, "synMed", stack[3].mean(axis=0).T, "mean of the median synthetic pressure")
    same(np.sort(np.loadtxt(os.path.join(path, "process", "histCP.csv"), ndmin=1)), sorted(hmin),
         "historical minimum pressures")
    smin = [lowest(f) for f in d["files"]]
    same(np.sort(np.loadtxt(os.path.join(path, "process", "synCP.csv"), ndmin=1)),
         sorted(x for s in smin for x in s), "synthetic minimum pressures")
    held(e, "histMinCPDist", spread(hmin), "distribution of historical minimum pressures")
    dist = np.array([spread(s) for s in smin])
    held(e, "synMinCPDist", dist.mean(axis=0), "distribution of synthetic minimum pressures")
    held(e, "synMinCPUpper", np.percentile(dist, 95, axis=0), "upper minimum pressure distribution")
    held(e, "synMinCPLower", np.percentile(dist, 5, axis=0), "lower minimum pressure distribution")


def sign(v):
    return (v > 0) - (v < 0)


def lon_crossings(ts, glon, edges):
    """Crossings of a line of longitude; None when a track only touches it."""
    we, ew = [], []
    for t in ts:
        k = 0
        while k < len(t) - 1:
            a, b = t[k], t[k + 1]
            sa, sb = sign(a["lon"] - glon), sign(b["lon"] - glon)
            if sa == 0:
                return None
            if sb == 0:
                if k + 2 >= len(t):
                    return None
                sc = sign(t[k + 2]["lon"] - glon)
                if sc == 0 or sc == sa:
                    return None
                at, out, k = b["lat"], sc, k + 2
            elif sa != sb:
                u = (glon - a["lon"]) / (b["lon"] - a["lon"])
                at, out, k = a["lat"] + u * (b["lat"] - a["lat"]), sb, k + 1
            else:
                k += 1
                continue
            if min(abs(at - g) for g in edges) < 1e-6:
                return None
            if edges[0] < at < edges[-1]:
                (we if out > 0 else ew).append(at)
    return we, ew


def share(v, edges):
    h = np.zeros(len(edges) - 1)
    for x in v:
        h[bins(x, edges)] += 1
    return h / h.sum() / (edges[1] - edges[0]) if len(v) else h


@prop.facet(lambda: studies(n=(2, 8)), quick=90, thorough=1500,
            rule="historical record and simulation files; non-trivial with crossings both ways")
def longitude_crossings(d, ctx):
    path, ini, rows = lay_out(d)
    run(d, "LongitudeCrossing", ini)
    edges = axis(d["lim"][2], d["lim"][3], 2.0)
    lons = axis(d["lim"][0], d["lim"][1], 10.0)
    v, atts, dims = grids(os.path.join(path, "process", "lonCrossings.nc"))
    check_axes(d, v, lons, edges[:-1])
    ctx.klass("%d processes" % d["ranks"])
    both = set()
    for n, g in enumerate(lons):
        h = lon_crossings(hist_tracks(rows), g, edges)
        if h is not None:
            ctx.klass("historical crossings" if h[0] or h[1] else "no historical crossings")
            same(v["hist_we"][:, n], share(h[0], edges), "historical crossings to the east of %r" % g)
            same(v["hist_ew"][:, n], share(h[1], edges), "historical crossings to the west of %r" % g)
            same(v["hist"][:, n], share(h[0] + h[1], edges), "historical crossings of %r" % g)
        s = [lon_crossings(f, g, edges) for f in d["files"]]
        if None in s:
            ctx.klass("touching")
            continue
        for k, (name, pick) in enumerate((("_we", lambda c: c[0]), ("_ew", lambda c: c[1]),
                                          ("", lambda c: c[0] + c[1]))):
            a = np.array([share(pick(c), edges) for c in s])
            if a.any():
                both.add(name)
            same(v["syn_mean" + name][:, n], a.mean(axis=0), "mean crossings%s of %r" % (name, g))
            same(v["syn_upper" + name][:, n], np.percentile(a, 95, axis=0),
                 "upper crossings%s of %r" % (name, g))
            same(v["syn_lower" + name][:, n], np.percentile(a, 5, axis=0),
                 "lower crossings%s of %r" % (name, g))
            check(int(atts["syn_upper" + name]["percentile"]) == 95
                  and int(atts["syn_lower" + name]["percentile"]) == 5, "percentile labels")
    ctx.nontrivial(len(both) == 3)


@st.composite
def coasts(draw):
    d = draw(studies(n=(3, 9), span=1.5))
    lim = d["lim"]
    cx, cy = (lim[0] + lim[1]) / 2.0, (lim[2] + lim[3]) / 2.0
    # Bring the tracks to the coast.
    for t in [t for g in [d["hist"]] + d["files"] for t in g]:
        dx = round((cx - t[0]["lon"]) * 0.75 * 4) / 4
        dy = round((cy - t[0]["lat"]) * 0.6 * 4) / 4
        for q in t:
            q["lon"], q["lat"] = round(q["lon"] + dx, 2), round(q["lat"] + dy, 2)
    n = draw(st.integers(3, 9))
    ring = []
    for k in range(n):
        ang = 2 * math.pi * (k + draw(dec(0, 0.4, 3))) / n
        r = draw(st.sampled_from([3.0, 4.0, 5.5, 7.0]))
        ring.append([round(cx + 1.2 * r * math.cos(ang) + 0.0031, 4),
                     round(cy + r * math.sin(ang) + 0.0017, 4)])
    if draw(st.booleans()):
        ring.reverse()
    k = draw(st.integers(0, n - 1))
    d["gates"] = ring[k:] + ring[:k]
    return d


def coast_crossings(ts, gates):
    """Gate and direction of each crossing; None when a step crosses more than once."""
    ring = gates + gates[:1]
    land, off = [], []
    for t in ts:
        for a, b in zip(t, t[1:]):
            p, q = [a["lon"], a["lat"]], [b["lon"], b["lat"]]
            if p == q:
                continue
            hit = []
            for k, (g, h) in enumerate(zip(ring, ring[1:])):
                if min(edge_distance(p, g, h), edge_distance(q, g, h)) < 1e-7 \
                        or lean((p, q), (g, h)) < 1e-7:
                    return None
                s, u, x = crossing(p, q, g, h)
                if min(abs(u), abs(u - 1)) < 1e-7:
                    return None
                if 0 <= s <= 1 and 0 <= u <= 1:
                    hit.append(k)
            if len(hit) > 1:
                return None
            if hit and hit[0] < len(gates) - 1:
                (land if inside(q, ring) else off).append(hit[0])
    return land, off


def gate_rates(v, gates):
    h = np.zeros(len(gates) - 1)
    for k in v:
        h[k] += 1
    return h / h.sum() if len(v) else h


def coast_rates(d):
    """Observed line, mean, upper and lower values of the landfall and offshore panels; None
    for those that rounding decides."""
    gates = d["gates"]
    want = coast_crossings([list(t) for t in d["hist"]], gates)
    syn = [coast_crossings(f, gates) for f in d["files"]]
    out = []
    for k in (0, 1):
        one = [None if want is None else gate_rates(want[k], gates), None, None, None]
        if None not in syn:
            r = np.array([gate_rates(s[k], gates) for s in syn])
            one[1:] = r.mean(axis=0), np.percentile(r, 95, axis=0), np.percentile(r, 5, axis=0)
        out.append(one)
    return out


def coast_figure(fig, rates):
    """The figure of the landfall rates shows them."""
    from matplotlib.collections import PolyCollection
    axes = fig.axes
    check([a.get_title() for a in axes] == ["Landfall", "Offshore"], "panels")
    for a, (seen, mean, up, lo) in zip(axes, rates):
        title = a.get_title()
        got = [np.asarray(l.get_ydata(), float) for l in a.lines[:2]]
        check(len(got) == 2, "%s: %d lines" % (title, len(got)))
        for i in (0, 1):
            pair = got[i], got[1 - i]
            if all(w is None or len(g) == len(w) and np.allclose(g, w)
                   for g, w in zip(pair, (seen, mean))):
                break
        else:
            check(False, "%s: lines %r, expected %r and %r" % (title, got, seen, mean))
        if up is None:
            continue
        band = [b for b in a.collections if isinstance(b, PolyCollection)]
        check(len(band) == 1, "%s: %d ranges" % (title, len(band)))
        vert = band[0].get_paths()[0].vertices
        for k in range(len(up)):
            y = vert[np.isclose(vert[:, 0], k), 1]
            check(len(y) > 0 and abs(y.max() - up[k]) <= 1e-9 and abs(y.min() - lo[k]) <= 1e-9,
                  "%s: range at gate %d is %r, expected %r to %r" % (title, k, y, lo[k], up[k]))


@prop.facet(coasts, quick=120, thorough=2000,
            rule="coast of several gates, historical record and simulation files; non-trivial "
                 "with landfalls and crossings to sea in the files")
def coast(d, ctx):
    gates = d["gates"]
    path, ini, rows = lay_out(d, gates)
    e = run(d, "LandfallRates", ini)
    ctx.klass("%d processes" % d["ranks"])
    rates = coast_rates(d)
    (land, off) = rates
    if land[0] is not None:
        ctx.klass("landfall" if land[0].any() else "no landfall")
    if land[1] is not None:
        ctx.nontrivial(land[1].any() and off[1].any())
        if land[1][-1] or off[1][-1]:
            ctx.klass("last gate")
    names = (("historicLandfall", "synMeanLandfall", "synUpperLF", "synLowerLF"),
             ("historicOffshore", "synMeanOffshore", "synUpperOF", "synLowerOF"))
    if not all(hasattr(e, n) for pair in names for n in pair):
        # kept under other names: they are still drawn
        from vf import plots
        with plots.recorded() as figures:
            run(d, "LandfallRates", ini, figures=True)
        shown = [f for p, f in figures if os.path.basename(p) == "landfall_rates.png"]
        check(len(shown) == 1, "landfall_rates.png saved %d times" % len(shown))
        coast_figure(shown[0], rates)
        return
    for what, pair, want in zip(("landfall", "offshore"), names, rates):
        for n, kind, w in zip(pair, ("historical", "mean", "upper", "lower"), want):
            if w is not None:
                same(getattr(e, n), w, "%s %s" % (kind, what))


@st.composite
def births(draw):
    d = draw(studies(n=(1, 3), count=(6, 9), files=(1, 3)))
    # Enough distinct genesis points for a bandwidth in every set.
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    lim = d["lim"]
    d["hist"] = [d["hist"][0]] * 5
    for group in [d["hist"]] + d["files"]:
        for k, t in enumerate(group):
            t = [dict(p) for p in t]
            out = k == 0 and rnd.random() < 0.5
            t[0]["lon"] = round(rnd.uniform(lim[0] + 0.5, lim[1] - 0.5) + (60 if out else 0), 2)
            t[0]["lat"] = round(rnd.uniform(lim[2] + 0.5, lim[3] - 0.5), 2)
            for a, b in zip(t, t[1:]):
                b["lon"], b["lat"] = round(a["lon"] + 0.4, 2), round(a["lat"] - 0.3, 2)
            group[k] = t
    return d


@prop.facet(births, quick=12, thorough=120, case_limit=300,
            rule="genesis points of historical record and simulation files; non-trivial with two "
                 "or more files")
def genesis_density(d, ctx):
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    path, ini, rows = lay_out(d)
    run(d, "GenesisDensity", ini)
    lim = d["lim"]
    lon, lat = axis(lim[0], lim[1], 1.0), axis(lim[2], lim[3], 1.0)

    def density(ts):
        pts = [t[0] for t in ts if lim[0] <= t[0]["lon"] <= lim[1]
               and lim[2] <= t[0]["lat"] <= lim[3]]
        x, y = np.array([p["lon"] for p in pts]), np.array([p["lat"] for p in pts])
        # The search for the bandwidth ends within some distance of the best one, and where
        # depends on the last digits of the positions: lowest and highest density around it.
        found = []
        for k in range(4):
            at = np.vstack([x, y])
            if k:
                at = at.astype("f4").astype("f8") if k == 1 else \
                    at + np.random.RandomState(k).uniform(-2e-6, 2e-6, at.shape)
            bw = KDEMultivariate(at, bw="cv_ml", var_type="cc").bw
            for a in (0.99, 1, 1.01):
                for b in (0.99, 1, 1.01):
                    found.append((bw[0] * a, bw[1] * b))
        out = np.zeros((len(found), len(lat), len(lon)))
        for k, (a, b) in enumerate(found):
            u = np.exp(-((np.array(lon)[:, None] - x) / a) ** 2 / 2)
            w = np.exp(-((np.array(lat)[:, None] - y) / b) ** 2 / 2)
            out[k] = (w @ u.T) / len(x) / (2 * math.pi * a * b)
        return out.min(axis=0), out.max(axis=0)
    ctx.nontrivial(len(d["files"]) > 1)
    ctx.klass("%d processes" % d["ranks"])
    v, atts, dims = grids(os.path.join(path, "process", "genesis_density.nc"))
    check_axes(d, v, lon, lat)
    h = density(hist_tracks(rows))
    s = np.array([density(f) for f in d["files"]])
    for name, f in (("hist_density", None), ("syn_density", lambda a: a.mean(axis=0)),
                    ("syn_density_upper", lambda a: np.percentile(a, 95, axis=0)),
                    ("syn_density_lower", lambda a: np.percentile(a, 5, axis=0))):
        lo, hi = h if f is None else (f(s[:, 0]), f(s[:, 1]))
        got = np.ma.asanyarray(v[name])
        check(got.shape == lo.shape and not np.ma.getmaskarray(got).any(),
              "%s has shape %r or missing cells" % (name, got.shape))
        got = np.ma.getdata(got)
        bad = ~((got >= lo * (1 - 1e-3) - 1e-6) & (got <= hi * (1 + 1e-3) + 1e-6))
        check(not bad.any(), "%s: %d of %d values differ, first %r, expected %r to %r" % (
            name, bad.sum(), bad.size, got[bad][:1], lo[bad][:1], hi[bad][:1]))
    # Counting instead of smoothing.
    from Evaluate import GenesisDensity
    from Utilities import config
    from Utilities.track import ncReadTrackData
    config.reset()
    g = GenesisDensity(ini)
    config.reset()
    n = np.zeros((len(lon) - 1, len(lat) - 1))
    for t in d["files"][0]:
        i, j = bins(t[0]["lon"], lon), bins(t[0]["lat"], lat)
        if i is not None and j is not None:
            n[i, j] += 1
    same(g.calculate(ncReadTrackData(os.path.join(path, "tracks", "tracks.00000.nc"))), n,
         "genesis counts")
