"""Figures: what is drawn is the data, in the place and the units the figure says."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import C29, C35
from vf import Property, Violation, check, scratch
from vf import plots, world
from vf.core import TIER

TECHNIQUE = ("generated hazard results, storm records and event sets drawn by the program; the "
             "lines, points, bars and map fields of the saved figures compared with the data "
             "they should show, worked out directly")
NOTE = ("grids of up to 7 by 6 cells, records of up to 120 positions, up to 5 simulation files; "
        "figures are looked at when they are saved, not rendered")

prop = Property("C38", assumptions=[
    "figures are looked at when they are saved and never rendered"],
    preload=("numpy", "scipy.stats", "matplotlib.pyplot", "netCDF4", "pandas", "cartopy.crs",
             "seaborn", "statsmodels.api"))

#: Speed units in m/s
UNITS = {"mps": 1.0, "mph": 1609.344 / 3600, "kts": 1852.0 / 3600, "kph": 1 / 3.6, "kmh": 1 / 3.6}
TOL = 1.5e-3
MISSING = float(2 ** 63)


def near(a, b, tol):
    return abs(a - b) <= tol * (1e-6 + abs(b))


def named(figures, path):
    """The one figure saved under a name."""
    got = [f for p, f in figures if p == os.path.abspath(path)]
    check(len(got) == 1, "%s saved %d times" % (os.path.basename(path), len(got)))
    return got[0]


def points(axes):
    """Points of the scatter plots of an axes."""
    from matplotlib.collections import PathCollection
    out = [np.ma.getdata(c.get_offsets()) for c in axes.collections if isinstance(c, PathCollection)]
    return [p.reshape(-1, 2) for p in out]


def alike(got, want, what, tol=1e-9):
    """Two sets of points, in any order."""
    got, want = np.asarray(got, float).reshape(-1, 2), np.asarray(want, float).reshape(-1, 2)
    check(len(got) == len(want), "%s: %d points, expected %d" % (what, len(got), len(want)))
    if not len(want):
        return
    a, b = got[np.lexsort(np.round(got, 6).T)], want[np.lexsort(np.round(want, 6).T)]
    bad = ~(np.abs(a - b) <= tol * (1 + np.abs(b))).all(axis=1)
    check(not bad.any(), "%s: point %r, expected %r" % (
        what, a[bad][0].tolist() if bad.any() else 0, b[bad][0].tolist() if bad.any() else 0))


# -- hazard ---------------------------------------------------------------------------------

@st.composite
def hazards(draw):
    c = draw(C29.worlds())
    c["step"] = draw(st.sampled_from([0.25, 0.5, 0.5, 1.0, 2.0]))
    c["x0"] = draw(st.sampled_from([0, 100, 150, 179, 200, 340]))
    c["locs"] = [[c["x0"] + draw(st.integers(0, 100)) / 100. * c["step"] * (c["nx"] - 1),
                  c["y0"] + draw(st.integers(0, 100)) / 100. * c["step"] * (c["ny"] - 1), n, w]
                 for x, y, n, w in c["locs"]]
    c.update(tracks=[], ranks=1, extras=[])
    cells = st.tuples(st.integers(0, c["ny"] - 1), st.integers(0, c["nx"] - 1))
    return {"c": c, "units": draw(st.sampled_from(sorted(UNITS))), "smooth": draw(st.booleans()),
            "ci": draw(st.booleans()), "sims": draw(st.sampled_from([1, 2, 5, 10])),
            "gone": [list(g) for g in draw(st.lists(cells, max_size=4, unique=True))],
            "fit": draw(st.sampled_from(["GEV", "GPD", "emp"]))}


def levels(d):
    """Return levels of a case, by name, with missing cells masked."""
    c = d["c"]
    h = {n: np.ma.array(v) for n, v in C29.hazard_grid(c).items() if n.startswith("wspd")}
    for j, i in d["gone"]:
        for v in h.values():
            v[:, j, i] = np.ma.masked
    return h


def lay_out(d, where):
    import netCDF4
    ini = C29.build(d["c"], where)
    lon, lat = C29.axes(d["c"])
    out = os.path.join(where, "output")
    os.makedirs(os.path.join(out, "plots", "hazard"))
    with netCDF4.Dataset(os.path.join(out, "hazard", "hazard.nc"), "w") as nc:
        for n, v in (("ari", d["c"]["years"]), ("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        for n, v in C29.hazard_grid(d["c"]).items():
            x = nc.createVariable(n, "f8", ("ari", "lat", "lon")[-v.ndim:], fill_value=-9999.0)
            x[:] = levels(d).get(n, v)
        nc.tcrm_version = C29.VERSION
    with open(ini, "a") as f:
        f.write("[Hazard]\nPlotSpeedUnits=%s\nCalculateCI=%s\nExtremeValueDistribution=%s\n"
                "SmoothPlots=%s\n[TrackGenerator]\nNumSimulations=%d\n[Logging]\n"
                "ProgressBar=False\n" % (d["units"], d["ci"], d["fit"], d["smooth"], d["sims"]))
    return ini, out


def smoothed(v, n):
    """Weighted means of the cells that have values, mirrored over the edges."""
    v = np.ma.asanyarray(v)
    ny, nx = v.shape
    out = np.ma.masked_all(v.shape)
    if n < 1:
        return v
    at = lambda k, m: (lambda r: r if r < m else 2 * m - 1 - r)(k % (2 * m))
    for j in range(ny):
        for i in range(nx):
            if np.ma.getmaskarray(v)[j, i]:
                continue
            total = weight = 0.0
            for b in range(-n, n + 1):
                for a in range(-n, n + 1):
                    x = v[at(j + b, ny), at(i + a, nx)]
                    if x is not np.ma.masked:
                        w = np.exp(-(a * a + b * b) / float(n))
                        total, weight = total + w * x, weight + w
            out[j, i] = total / weight
    return out


def field(figures, fig, what):
    got = [f for f in figures.fields if f[0].figure is fig]
    check(len(got) == 1, "%s shows %d fields" % (what, len(got)))
    return got[0]


def same_field(z, want, what, tol=TOL):
    z, want = np.ma.asanyarray(z), np.ma.asanyarray(want)
    check(z.shape == want.shape, "%s: field of %r, expected %r" % (what, z.shape, want.shape))
    gone = np.ma.getmaskarray(want)
    shown = ~np.ma.getmaskarray(z) & np.isfinite(np.ma.filled(z, np.nan).astype(float))
    check((shown == ~gone).all(), "%s: cells with a value %r, expected %r" % (
        what, shown.astype(int).tolist(), (~gone).astype(int).tolist()))
    bad = shown & ~(np.abs(z.filled(0) - want.filled(0)) <= tol * np.abs(want.filled(0)) + 1e-9)
    check(not bad.any(), "%s: cell %r is %r, expected %r" % (
        what, tuple(np.argwhere(bad)[0]) if bad.any() else 0, z[bad][:1], want[bad][:1]))


@prop.facet(hazards, quick=130, thorough=1500,
            rule="return levels on a grid, with and without missing cells, confidence limits and "
                 "smoothing, stations and their simulated winds; non-trivial with a station that "
                 "has events, shown in units other than m/s")
def hazard_figures(d, ctx):
    c = d["c"]
    where = scratch()
    ini, out = lay_out(d, where)
    lon, lat, places, events = C29.expected(c)
    ctx.klass(d["units"], "smooth" if d["smooth"] else "plain", "limits" if d["ci"] else "no limits")
    ctx.nontrivial(bool(places) and bool(events) and d["units"] != "mps")
    if d["smooth"] and d["gone"]:
        ctx.klass("smooth with missing cells")
    with C29.database(c, ini, 1) as db:
        with plots.recorded() as figures, world.quiet():
            draw_hazard(ini)
            look_at_hazard(d, out, figures, ctx)


def draw_hazard(ini):
    from PlotInterface.AutoPlotHazard import AutoPlotHazard
    from Utilities import config
    from Utilities.progressbar import ProgressBar
    config.reset()
    C29.forget()
    p = AutoPlotHazard(ini, ProgressBar("", False))
    p.plotMap()
    p.plotCurves()
    p.db.close()
    config.reset()


def look_at_hazard(d, out, figures, ctx):
    c = d["c"]
    lon, lat, places, events = C29.expected(c)
    h = levels(d)
    scale = 1 / UNITS[d["units"]]
    folder = os.path.join(out, "plots", "hazard")
    x0 = lon - 360 if lon[0] > 180 else lon
    n = int(round(1 / c["step"] - 0.499)) if d["smooth"] else 0
    for k, y in enumerate(c["years"]):
        name = "%d_yrRP_hazard_map.png" % y
        axes, x, yy, z = field(figures, named(figures, os.path.join(folder, name)), name)
        check(str(y) in axes.get_title(), "%s is headed %r" % (name, axes.get_title()))
        gx, gy = np.meshgrid(x0, lat)
        xs, ys = (np.meshgrid(x, yy) if x.ndim == 1 else (x, yy))
        check(xs.shape == gx.shape and np.allclose(xs, gx) and np.allclose(ys, gy),
              "%s drawn at %r, %r" % (name, x, yy))
        same_field(z, smoothed(h["wspd"][k] * scale, n), name)
    want = set("%d_yrRP_hazard_map.png" % y for y in c["years"])
    for pid, (place, px, py) in sorted(places.items()):
        ii, jj = C29.nearest(lon, px), C29.nearest(lat, py)
        if all(np.ma.getmaskarray(h["wspd"])[:, j, i].all() for j in jj for i in ii):
            ctx.klass("station without levels")
            continue
        if any(np.ma.getmaskarray(h["wspd"])[:, j, i].any() for j in jj for i in ii):
            # half way between a cell with levels and one without
            want |= {"ARI_curve_%d.png" % pid} & {os.path.basename(p) for p, f in figures}
            continue
        name = "ARI_curve_%d.png" % pid
        want.add(name)
        axes, = named(figures, os.path.join(folder, name)).axes
        check(place in axes.get_title(), "%s of %s is headed %r" % (name, place, axes.get_title()))
        line = axes.lines[0]
        check(np.allclose(line.get_xdata(), c["years"]), "%s: periods %r" % (name, line.get_xdata()))
        got = np.asarray(line.get_ydata(), float)
        ok = [(j, i) for j in jj for i in ii
              if np.allclose(got, h["wspd"][:, j, i] * scale, rtol=TOL, atol=0)]
        check(ok, "%s: levels %r, expected %r" % (name, got, h["wspd"][:, jj[0], ii[0]] * scale))
        wind = [np.sort([v[0][j, i] for v in events.values()]) for j in jj for i in ii]
        pts, = points(axes)
        total = int(d["sims"] * 365.25)
        rp = (total + 1.0) / np.arange(total, 0, -1) / 365.25
        m = max(1, int((rp > 1).sum()))
        many = [np.concatenate([np.zeros(total), w])[-total:] * scale for w in wind]
        best = sorted((p for p in pts.tolist()), key=lambda p: p[0])
        ws = [[(x, y) for x, y in zip(rp, w) if x > 1] for w in many]
        check(any(len(best) == len(w) and np.allclose(best, w, rtol=TOL, atol=1e-6) for w in ws),
              "%s: simulated winds at %r, expected %r" % (name, best[-5:], ws[0][-5:]))
        if d["ci"]:
            from matplotlib.collections import PolyCollection
            band = [b for b in axes.collections if isinstance(b, PolyCollection)]
            up = [h["wspdupper"][:, j, i] * scale for j, i in ok]
            lo = [h["wspdlower"][:, j, i] * scale for j, i in ok]
            if lo[0][0] > 0 and len(c["years"]) > 1:
                check(len(band) == 1, "%s: no range" % name)
                v = band[0].get_paths()[0].vertices
                for k, y in enumerate(c["years"]):
                    at = v[np.isclose(v[:, 0], y), 1]
                    check(any(near(at.max(), u[k], TOL) and near(at.min(), l[k], TOL)
                              for u, l in zip(up, lo)), "%s: range at %d years is %r to %r, "
                          "expected %r to %r" % (name, y, at.min(), at.max(), lo[0][k], up[0][k]))
        if events:
            ctx.klass("station with events")
    got = sorted(os.path.basename(p) for p, f in figures)
    check(got == sorted(want), "figures %r, expected %r" % (got, sorted(want)))


# -- the record -----------------------------------------------------------------------------

@st.composite
def processed(draw):
    return {"seed": draw(st.integers(0, 2 ** 32 - 1)),
            "storms": [5, 4, 6] + draw(st.lists(st.integers(1, 12), min_size=5, max_size=17)),
            "gone": draw(st.sampled_from([0, 0.05, 0.2])),
            "years": draw(st.integers(2, 40)), "first": draw(st.integers(1900, 2010))}


def sample(d):
    """A processed record, as arrays."""
    r = np.random.RandomState(d["seed"])
    n = sum(d["storms"])
    start = np.zeros(n, int)
    start[np.cumsum([0] + d["storms"][:-1])] = 1
    step = np.where(start, 0, 1)
    lon = np.round(r.uniform(60, 300) + np.cumsum(r.uniform(-1, 1, n)), 2)
    lat = np.round(-20 + np.cumsum(r.uniform(-.5, .5, n)), 2)
    s = {"all_pressure": np.round(r.uniform(900, 1000, n), 1),
         "pressure_rate": np.round(r.uniform(-4, 4, n), 2),
         "all_bearing": np.round(r.uniform(0, 360, n), 1),
         "bearing_rate": np.round(r.uniform(-30, 30, n), 2),
         "all_speed": np.round(r.uniform(1, 60, n), 1),
         "speed_rate": np.round(r.uniform(-5, 5, n), 2)}
    for k, v in s.items():
        if k.endswith("rate"):
            v[start == 1] = MISSING
        elif k != "all_pressure":
            v[np.flatnonzero(start)] = np.where(r.uniform(size=start.sum()) < 0.5, MISSING,
                                                v[np.flatnonzero(start)])
        lost = r.uniform(size=n) < d["gone"]
        v[lost] = MISSING
    s["cyclone_tracks"] = np.column_stack([start, lon, lat])
    years = d["first"] + np.arange(d["years"])
    s["frequency"] = np.column_stack([years, r.poisson(6, len(years))])
    for k in ("jday_obs", "jday_genesis"):
        s[k] = np.column_stack([np.arange(1, 366), r.poisson(2, 365)])
    return s


def lagged(v, f=lambda x: x):
    v = np.asarray(v, float)
    a, b = v[1:], v[:-1]
    ok = (a < MISSING) & (b < MISSING)
    return np.column_stack([f(a[ok]), f(b[ok])])


def shown(figures):
    """What the figures hold, as plain data."""
    out = {}
    for p, f in figures:
        a = out.setdefault(os.path.basename(p), [])
        for x in f.axes:
            a.append({"points": [q.tolist() for q in points(x)],
                      "lines": [np.asarray(l.get_xydata()).tolist() for l in x.lines],
                      "bars": [[b.get_x() + b.get_width() / 2., b.get_height(), b.get_width()]
                               for b in x.patches if hasattr(b, "get_height")]})
    return out


def heights(axes):
    return [b[1] for b in sorted(axes["bars"])]


@prop.facet(processed, quick=24, thorough=200, case_limit=120,
            budget=90 if TIER == "quick" else 600,
            rule="processed record of several storms; non-trivial with missing values in it")
def record_figures(d, ctx):
    where = scratch()
    proc, plotted = os.path.join(where, "process"), os.path.join(where, "plots", "stats")
    os.makedirs(proc)
    os.makedirs(plotted)
    s = sample(d)
    for k, v in s.items():
        np.savetxt(os.path.join(proc, k), v, delimiter=",", header="x", comments="%", fmt="%.10g")
    ini = os.path.join(where, "c.ini")
    with open(ini, "w") as f:
        f.write("[Output]\nPath=%s\n[Logging]\nProgressBar=False\n" % where)
    ctx.nontrivial(d["gone"] > 0)

    def target(rank):
        import tcrm
        from Utilities import config
        from Utilities.parallel import attemptParallel
        config.reset()
        attemptParallel()       # as the main program does first
        tcrm.doDataPlotting(ini)
    g = world.apart(target, inspect=shown)
    p = s["all_pressure"]
    half = lambda x: np.cos(np.radians(x) / 2)
    start, lon, lat = s["cyclone_tracks"].T
    inside = start[1:] == 0
    dlon, dlat = np.diff(lon)[inside], np.diff(lat)[inside]
    for name, want in (("pressure", lagged(p)), ("pressure_rate", lagged(s["pressure_rate"])),
                       ("bearing", lagged(s["all_bearing"], half)),
                       ("bearing_rate", lagged(s["bearing_rate"])),
                       ("speed", lagged(s["all_speed"])), ("speed_rate", lagged(s["speed_rate"])),
                       ("delta_lon", np.column_stack([dlon[1:], dlon[:-1]])),
                       ("delta_lat", np.column_stack([dlat[1:], dlat[:-1]])),
                       ("lonlat_corr", np.column_stack([dlon, dlat]))):
        check(name + ".png" in g, "no figure %s" % name)
        alike(g[name + ".png"][0]["points"][0], want, name)
    for name, v in (("pressure_rate", s["pressure_rate"]), ("bearing_rate", s["bearing_rate"]),
                    ("speed_rate", s["speed_rate"]), ("delta_lon", dlon), ("delta_lat", dlat)):
        fig = "qqplot_%s.png" % name
        check(fig in g, "no figure %s" % fig)
        v = v[v < MISSING]
        got = sorted(q[1] for q in g[fig][0]["lines"][0])
        check(len(got) == len(v) and np.allclose(got, np.sort((v - v.mean()) / v.std()), atol=1e-6),
              "%s: %r" % (fig, got[:3]))
    # Lowest pressure of each storm that has one
    low = [q[q < MISSING].min() for q in np.split(p, np.flatnonzero(start)[1:]) if (q < MISSING).any()]
    bars = sorted(g["min_pressure_hist.png"][0]["bars"])
    check(bars, "no histogram of lowest pressures")
    edges = [b[0] - b[2] / 2 for b in bars] + [bars[-1][0] + bars[-1][2] / 2]
    count, _ = np.histogram(low, edges)
    share = np.array([b[1] * b[2] for b in bars])
    check(np.allclose(share, count / count.sum(), atol=1e-9), "lowest pressures: shares %r, "
          "expected %r" % (share[share > 0], (count / count.sum())[count > 0]))
    for k, (name, want) in enumerate((("jday_obs", s["jday_obs"]), ("jday_genesis", s["jday_genesis"]))):
        got = heights(g["julian_day.png"][k])
        check(np.allclose(got, want[:, 1]) if len(got) == len(want) else False,
              "%s: %d bars, %r" % (name, len(got), got[:9]))
    got = heights(g["frequency.png"][0])
    check(len(got) == len(s["frequency"]) and np.allclose(got, s["frequency"][:, 1]),
          "bars of frequency %r, expected %r" % (got, s["frequency"][:, 1]))


# -- evaluation -----------------------------------------------------------------------------

KINDS = ["TrackDensity", "PressureDistribution", "LongitudeCrossing", "LandfallRates"]


@st.composite
def evaluations(draw):
    kind = draw(st.sampled_from(KINDS + ["TrackDensity", "LongitudeCrossing"]))
    d = draw(C35.coasts() if kind == "LandfallRates" else C35.studies(n=(3, 8), least=3, count=(2, 5)))
    d["ranks"] = draw(st.sampled_from([1, 1, 2]))
    return dict(d, kind=kind)


def titled(figures, fig):
    """Fields on a figure, in order."""
    return [(a.get_title(), z) for a, x, y, z in figures.fields if a.figure is fig]


@prop.facet(evaluations, quick=110, thorough=1200, case_limit=120,
            rule="record and simulation files of one evaluation; non-trivial when it finds "
                 "anything in both")
def evaluation_figures(d, ctx):
    kind = d["kind"]
    ctx.klass(kind)
    lim = d["lim"]
    inside = lambda t: any(lim[0] <= p["lon"] < lim[1] and lim[2] <= p["lat"] < lim[3] for p in t)
    first = lambda t: inside(t[:1])
    if kind == "TrackDensity" and not any(map(inside, d["hist"])):
        return
    if kind == "PressureDistribution" and not (any(map(first, d["hist"])) and
                                               any(first(t) for f in d["files"] for t in f)):
        return
    path, ini, rows = C35.lay_out(d, d.get("gates"))
    with plots.recorded() as figures, world.quiet():
        C35.run(d, kind, ini, figures=True)
    at = lambda n: named(figures, os.path.join(path, "plots", "stats", n))
    if kind == "TrackDensity":
        v = C35.grids(os.path.join(path, "process", "density.nc"))[0]
        ctx.nontrivial(v["hist_density"].max() > 0 and v["syn_density"].max() > 0)
        for name, want in (("track_density.png", [("Historic", "hist_density"),
                                                  ("Synthetic", "syn_density")]),
                           ("track_density_percentiles.png", [("Upper percentile", "syn_density_upper"),
                                                              ("Lower percentile", "syn_density_lower")])):
            got = titled(figures, at(name))
            check([t for t, z in got] == [t for t, n in want], "%s: fields %r" % (name, [t for t, z in got]))
            for (t, z), (_, n) in zip(got, want):
                same_field(z, v[n], name + " " + t, 1e-5)
        # every tenth of the simulations beside the record
        got = titled(figures, at("track_density_samples.png"))
        check([t for t, z in got] == ["Historic"] + ["Synthetic"] * (1 + (len(d["files"]) - 1) // 10),
              "track_density_samples.png: fields %r" % [t for t, z in got])
        same_field(got[0][1], v["hist_density"], "track_density_samples.png Historic", 1e-5)
        if len(d["files"]) == 1:
            same_field(got[1][1], v["syn_density"], "track_density_samples.png Synthetic", 1e-5)
    elif kind == "PressureDistribution":
        v = C35.grids(os.path.join(path, "process", "pressureDistribution.nc"))[0]
        ctx.nontrivial()
        for name, a, b in (("meanPressure.png", "hist_mean", "syn_mean"),
                           ("minPressure.png", "hist_min", "syn_min")):
            got = titled(figures, at(name))
            check([t for t, z in got] == ["Historic", "Synthetic"], "%s: fields %r" % (name, [t for t, z in got]))
            for (t, z), n in zip(got, (a, b)):
                same_field(z, v[n], name + " " + t, 1e-5)
        for name, a, b in (("meanPressureDiff.png", "hist_mean", "syn_mean"),
                           ("minPressureDiff.png", "hist_min", "syn_min")):
            (t, z), = titled(figures, at(name))
            both = ~(np.ma.getmaskarray(v[a]) | np.ma.getmaskarray(v[b]))
            z = np.ma.asanyarray(z)
            check((~np.ma.getmaskarray(z) == both).all(), "%s: cells with a difference" % name)
            check(np.allclose(z[both], (v[a] - v[b])[both], atol=1e-2), "%s: %r, expected %r" % (
                name, z[both], (v[a] - v[b])[both]))
    elif kind == "LongitudeCrossing":
        v = C35.grids(os.path.join(path, "process", "lonCrossings.nc"))[0]
        ctx.nontrivial(v["hist"].max() > 0 and v["syn_mean"].max() > 0)
        lines = {"r": "hist_%s", "k": "syn_mean_%s"}
        for axes, way, sign in zip(at("lon_crossing_syn.png").axes, ("ew", "we"), (-1, 1)):
            for colour, n in lines.items():
                got = [l for l in axes.lines if l.get_color() == colour]
                check(len(got) == len(v["lon"]), "%d lines %s" % (len(got), way))
                for k, l in enumerate(got):
                    check(np.allclose(l.get_ydata(), v["lat"]), "latitudes of the lines")
                    x = 2 * float(v["lon"][k]) + sign * 100 * v[n % way][:, k]
                    check(np.allclose(l.get_xdata(), x, atol=1e-4), "line of %s at %r: %r, expected %r" % (
                        n % way, v["lon"][k], l.get_xdata(), x))
    else:
        rates = C35.coast_rates(d)
        C35.coast_figure(at("landfall_rates.png"), rates)
        ctx.nontrivial(all(w is not None and w.any() for w in rates[0][:2]))
