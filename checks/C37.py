"""Scenario of a single event: track, wind field, station series, figures, impact."""
import csv
import glob
import json
import os
import shutil
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from vf import Property, Violation, check, scratch
from vf import plots, world
from vf.core import TIER

TECHNIQUE = ("generated single-storm records and configurations run through the scenario program "
             "as from the command line; track, wind field, station series and figures compared "
             "with each other and with the record; the loss program is a recording stand-in")
NOTE = ("storms of 4 to 7 positions, regions of 3 to 6 degrees on grids of 0.25 to 0.5 degrees, "
        "up to 4 stations; figures are recorded, not drawn")

prop = Property("C37", assumptions=[
    "figures are recorded when they are saved and never rendered",
    "the loss program is a stand-in that records what it is given"],
    preload=("numpy", "scipy.stats", "matplotlib.pyplot", "netCDF4", "pandas", "cartopy.crs",
             "seaborn", "statsmodels.api"))

IDS = ["94300", "A1", "stn.2", "Cocos", "vcs", "tst", "007", "X.csv", "Port_St"]


@st.composite
def scenarios(draw):
    x0 = draw(st.sampled_from([113.0, 145.0, 60.0, 172.0]))
    y0 = draw(st.sampled_from([-22.0, -17.0, -24.0]))
    w, h = draw(st.integers(3, 6)), draw(st.integers(3, 6))
    n = draw(st.integers(4, 7))
    pts = []
    lon, lat, p = x0 + draw(st.integers(0, 10 * w)) / 10., y0 + draw(st.integers(0, 10 * h)) / 10., \
        draw(st.integers(960, 995))
    dlon, dlat = draw(st.integers(-8, 8)) / 10., draw(st.integers(-8, 8)) / 10.
    for k in range(n):
        pts.append([round(lon, 2), round(lat, 2), p, draw(st.integers(15, 60))])
        lon += dlon + draw(st.integers(-2, 2)) / 10.
        lat = max(-40, min(-5, lat + dlat + draw(st.integers(-2, 2)) / 10.))
        p = max(920, min(1000, p + draw(st.integers(-12, 10))))
    res = draw(st.sampled_from([0.25, 0.5]))
    ids = draw(st.permutations(IDS))[:draw(st.integers(1, 4))]
    stations = []
    for i in ids:
        far = draw(st.integers(0, 4)) == 0
        stations.append([i, x0 + (20 if far else 0) + draw(st.integers(1, int(w / res) - 1)) * res,
                         y0 + draw(st.integers(1, int(h / res) - 1)) * res])
    return {"x0": x0, "y0": y0, "w": w, "h": h, "res": res, "points": pts,
            "hours": draw(st.sampled_from([3, 6])), "minute": draw(st.sampled_from([0, 0, 30])),
            "domain": draw(st.sampled_from(["bounded", "full"])),
            "profile": draw(st.sampled_from(["powell", "holland", "schloemer"])),
            "field": draw(st.sampled_from(["kepert", "hubbert", "mcconochie"])),
            "stations": stations, "plot": draw(st.booleans()), "extract": draw(st.booleans()),
            "shp": draw(st.booleans()),
            "impact": draw(st.sampled_from(["none", "off", "on", "section"]))}


def stand_in(where, status=0):
    """A loss program that notes what it is asked for."""
    os.makedirs(os.path.join(where, "bin"), exist_ok=True)
    path = os.path.join(where, "bin", "hazimp")
    with open(path, "w") as fh:
        fh.write("#!/bin/sh\n{ echo \"ARGS $@\"; cat \"$2\"; echo; echo END; } >> %s/calls\n"
                 "exit %d\n" % (where, status))
    os.chmod(path, 0o755)
    return os.path.join(where, "bin")


def calls(where):
    import yaml
    path = os.path.join(where, "calls")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        parts = fh.read().split("END\n")
    out = []
    for p in parts:
        if p.strip():
            first, rest = p.split("\n", 1)
            check(first.startswith("ARGS -c "), "loss program called with %r" % first)
            flat = {}
            for item in yaml.safe_load(rest):
                flat.update(item)
            out.append(flat)
    return out


def losses(got, gusts, exposure, out, what):
    """One calculation for each wind field, with its own result."""
    check(len(got) == len(gusts), "%s: %d loss calculations for %d wind fields" %
          (what, len(got), len(gusts)))
    seen = {}
    for g in got:
        src = [v for v in g.values() if isinstance(v, str) and ":" in v]
        check(len(src) == 1, "%s: wind field given as %r" % (what, src))
        kind, name, var = src[0].split(":")
        check(kind.lower() == "netcdf" and var == "vmax", "%s: wind field given as %r" % (what, src))
        check(g["load_exposure"]["file_name"] == exposure, "%s: exposure %r" % (what, g))
        seen[os.path.realpath(name)] = os.path.realpath(g["save"])
    check(sorted(seen) == sorted(os.path.realpath(g) for g in gusts),
          "%s: losses for wind fields %s" % (what, sorted(seen)))
    for g, o in seen.items():
        want = os.path.join(os.path.realpath(out), "impact", os.path.basename(g)[:-3] + ".csv")
        check(o == want, "%s: losses of %s go to %s" % (what, g, o))


def look(figures):
    """What the figures show."""
    out = {"names": [f for f, _ in figures], "fields": [], "series": {}}
    for ax, x, y, z in figures.fields:
        out["fields"].append((np.asarray(x, float), np.asarray(y, float), np.ma.filled(z, np.nan)))
    for f, fig in figures:
        if os.path.basename(f).startswith("ts"):
            from matplotlib.dates import num2date
            lines = {}
            for ax in fig.axes:
                for l in ax.get_lines():
                    lines[ax.get_ylabel()] = (
                        [d.replace(tzinfo=None) for d in num2date(l.get_xdata(orig=False))],
                        np.asarray(l.get_ydata(), float), ax.get_ylim())
            title = fig._suptitle.get_text() if fig._suptitle else ""
            out["series"][os.path.basename(f)] = (title, lines)
    return out


def read_series(path):
    with open(path) as fh:
        rows = list(csv.DictReader(fh))
    return [dict((k, v.strip()) for k, v in r.items()) for r in rows]


def figures_of_series(series, shown, what):
    """Each station's figure shows its series."""
    check(sorted(shown) == sorted("ts.%s.png" % i for i in series),
          "%s: figures %s for stations %s" % (what, sorted(shown), sorted(series)))
    for i, rows in series.items():
        title, lines = shown["ts.%s.png" % i]
        check(i in title, "%s: figure of station %s is titled %r" % (what, i, title))
        check(len(lines) == 3, "%s: %d curves for station %s" % (what, len(lines), i))
        when = [datetime.strptime(r["Time"][:16], "%Y-%m-%d %H:%M") for r in rows]
        for label, col, scale in (("pressure", "Pressure", 0.01), ("speed", "Speed", 1.0),
                                  ("direction", "Bearing", 1.0)):
            pick = [v for k, v in lines.items() if label in k.lower()]
            check(len(pick) == 1, "%s: no single curve of %s in %s" % (what, label, list(lines)))
            t, v, _ = pick[0]
            want = np.array([float(r[col]) * scale for r in rows])
            check(len(t) == len(when) and
                  all(abs((a - b).total_seconds()) < 30 for a, b in zip(t, when)),
                  "%s: times of the %s curve of station %s" % (what, label, i))
            check(v.shape == want.shape and np.abs(v - want).max() <= 1e-6 * max(1, np.abs(want).max()),
                  "%s: the %s curve of station %s does not show its series" % (what, label, i))


@prop.facet(scenarios, quick=70, thorough=500, case_limit=200,
            budget=90 if TIER == "quick" else 600,
            rule="a storm through the scenario program; non-trivial when some station feels it")
def scenario(c, ctx):
    where = scratch()
    try:
        _scenario(c, ctx, where)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def _scenario(c, ctx, where):
    from netCDF4 import Dataset
    import shapefile
    w = {"seed": 1, "storms": 1, "years": 1, "x0": c["x0"], "y0": c["y0"], "stations": 1,
         "limit": {"xMin": c["x0"], "xMax": c["x0"] + c["w"],
                   "yMin": c["y0"], "yMax": c["y0"] + c["h"]}}
    ins, out = os.path.join(where, "in"), os.path.join(where, "out")
    world.build(w, ins)
    t0 = datetime(2001, 2, 27, 18, c["minute"])
    times = [t0 + timedelta(hours=c["hours"] * k) for k in range(len(c["points"]))]
    with open(os.path.join(ins, "storm.csv"), "w") as fh:
        for t, (x, y, p, r) in zip(times, c["points"]):
            fh.write("7,%s,%r,%r,%r,%r\n" % (t.strftime("%Y-%m-%d %H:%M"), x, y, float(p), float(r)))
    if c["shp"]:
        loc = os.path.join(ins, "ts.shp")
        with shapefile.Writer(loc, shapeType=shapefile.POINT) as s:
            s.field("WMO", "C", size=20)
            for i, x, y in c["stations"]:
                s.point(x, y)
                s.record(i)
    else:
        loc = os.path.join(ins, "ts.csv")
        with open(loc, "w") as fh:
            for i, x, y in c["stations"]:
                fh.write("%s,%.3f,%.3f\n" % (i, x, y))
    ini = os.path.join(where, "event.ini")
    impact = {"none": "", "off": "[Actions]\nExecuteImpact=False\n[Impact]\nExposure=%s/exp.csv\n" % ins,
              "on": "[Actions]\nExecuteImpact=True\n[Impact]\nExposure=%s/exp.csv\n" % ins,
              "section": "[Impact]\nExposure=%s/exp.csv\n" % ins}[c["impact"]]
    with open(ini, "w") as fh:
        fh.write("""%s[DataProcess]
InputFile=%s/storm.csv
Source=ONE
FilterSeasons=False
[ONE]
Columns=num,date,lon,lat,pressure,rmax
FieldDelimiter=,
NumberOfHeadingLines=0
PressureUnits=hPa
LengthUnits=km
SpeedUnits=mps
DateFormat=%%Y-%%m-%%d %%H:%%M
[WindfieldInterface]
Margin=2
Resolution=%r
profileType=%s
windFieldType=%s
Domain=%s
PlotOutput=%s
[Region]
gridLimit=%r
[Input]
MSLPFile=%s/mslp.nc
LandMask=%s/land.nc
[Timeseries]
Extract=%s
LocationFile=%s
StationID=WMO
[Output]
Path=%s
[Logging]
LogFile=%s/log/e.log
LogLevel=INFO
""" % (impact, ins, c["res"], c["profile"], c["field"], c["domain"], c["plot"], w["limit"], ins,
            ins, c["extract"], loc, out, out))
    bins = stand_in(where)
    old = os.environ["PATH"]
    os.environ["PATH"] = bins + os.pathsep + old
    try:
        shown = world.simulate(ini, program="tcevent", inspect=look)
    finally:
        os.environ["PATH"] = old
    # The track.
    from Utilities.track import ncReadTrackData
    found = glob.glob(os.path.join(out, "tracks", "*.nc"))
    check([os.path.basename(f) for f in found] == ["tracks.interp.nc"], "track files %s" % found)
    tracks = ncReadTrackData(found[0])
    check(len(tracks) == 1, "%d tracks of one storm" % len(tracks))
    t = tracks[0]
    stamps = [datetime(d.year, d.month, d.day, d.hour, d.minute, d.second) for d in t.Datetime]
    step = [(b - a).total_seconds() for a, b in zip(stamps, stamps[1:])]
    check(abs((stamps[0] - times[0]).total_seconds()) < 90 and
          abs((stamps[-1] - times[-1]).total_seconds()) < 90,
          "track from %s to %s, the storm lasts from %s to %s" %
          (stamps[0], stamps[-1], times[0], times[-1]))
    check(all(200 < s < 400 for s in step[:-1]), "track steps of %r to %r seconds" %
          (min(step), max(step)))
    x, y, p = [np.asarray(v, float) for v in (t.Longitude, t.Latitude, t.CentralPressure)]
    sec = np.array([(s - times[0]).total_seconds() for s in stamps])
    for when, (a, b, q, r) in zip(times, c["points"]):
        k = int(np.abs(sec - (when - times[0]).total_seconds()).argmin())
        check(abs(x[k] - a) < 0.06 and abs(y[k] - b) < 0.06 and abs(p[k] - q) < 0.6,
              "at %s the track has %r, %r, %r; the record %r" % (when, x[k], y[k], p[k], (a, b, q)))
    # The wind field.
    gusts = glob.glob(os.path.join(out, "windfield", "gust.*.nc"))
    lim = w["limit"]
    inside = bool(((x > lim["xMin"]) & (x < lim["xMax"]) & (y > lim["yMin"]) &
                   (y < lim["yMax"])).any())
    check(len(gusts) == 1, "wind fields %s of one storm" % gusts)
    with Dataset(gusts[0]) as nc:
        lon, lat = [np.asarray(nc.variables[v][:], float) for v in ("lon", "lat")]
        vmax = np.asarray(nc.variables["vmax"][:], float)
        slp = np.asarray(nc.variables["slp"][:], float)
    if inside:
        check(vmax.max() > 0, "a storm through the region brings no wind")
    # Station series.
    names = sorted(glob.glob(os.path.join(out, "process", "timeseries", "*")))
    series = {}
    felt = 0
    if c["extract"]:
        for i, a, b in c["stations"]:
            path = os.path.join(out, "process", "timeseries", "ts.%s.csv" % i)
            on = lon.min() <= a <= lon.max() and lat.min() <= b <= lat.max() and \
                lim["xMin"] <= a <= lim["xMax"] and lim["yMin"] <= b <= lim["yMax"]
            j, k = int(np.abs(lat - b).argmin()), int(np.abs(lon - a).argmin())
            if not on:
                continue
            if not os.path.exists(path):
                check(vmax[j, k] < 0.01, "no series at station %s, where the wind reaches %r" %
                      (i, vmax[j, k]))
                continue
            rows = series[i] = read_series(path)
            felt += 1
            top = max(float(r["Speed"]) for r in rows)
            low = min(float(r["Pressure"]) for r in rows if float(r["Pressure"]) > 0)
            check(abs(top - vmax[j, k]) <= 0.011, "station %s: strongest wind %r in the series, %r "
                  "in the wind field" % (i, top, vmax[j, k]))
            scale = 100.0 if slp[j, k] < 2000 else 1.0
            check(low <= slp[j, k] * scale + 1, "station %s: lowest pressure %r in the series, %r in "
                  "the wind field" % (i, low, slp[j, k] * scale))
            check(len(rows) <= len(stamps), "station %s has %d records of %d steps" %
                  (i, len(rows), len(stamps)))
        for i, a, b in c["stations"]:
            path = os.path.join(out, "process", "timeseries", "ts.%s.csv" % i)
            if i not in series and os.path.exists(path):
                series[i] = read_series(path)
        check(len(names) == len(series), "series %s" % names)
        figures_of_series(series, shown["series"], "scenario")
    else:
        check(not names and not shown["series"], "series %s although none are asked for" % names)
    # The map.
    maps = [n for n in shown["names"] if os.path.basename(n) == "maxwind.png"]
    check(len(maps) == int(c["plot"]), "%d maps of the wind, PlotOutput=%s" % (len(maps), c["plot"]))
    if c["plot"]:
        check(len(shown["fields"]) == 1, "%d fields on maps" % len(shown["fields"]))
        mx, my, mz = shown["fields"][0]
        if mx.ndim == 1:
            mx, my = np.meshgrid(mx, my)
        jj = (lat >= lim["yMin"]) & (lat <= lim["yMax"])
        ii = (lon >= lim["xMin"]) & (lon <= lim["xMax"])
        want = vmax[jj][:, ii]
        check(mz.shape == want.shape, "map of %s points, the region has %s" % (mz.shape, want.shape))
        wx, wy = np.meshgrid(lon[ii], lat[jj])
        order = lambda a, b, v: sorted(zip(np.round(a.ravel(), 3).tolist(),
                                           np.round(b.ravel(), 3).tolist(),
                                           np.round(v.ravel(), 3).tolist()))
        check(np.allclose(np.array(order(mx, my, mz)), np.array(order(wx, wy, want)), atol=2e-3),
              "map does not show the wind field of the region")
    got = calls(where)
    if c["impact"] in ("on",):
        losses(got, gusts, ins + "/exp.csv", out, "scenario")
    elif c["impact"] in ("none", "off"):
        check(not got, "losses although none are asked for")
    ctx.nontrivial(felt > 0)
    ctx.klass("impact " + c["impact"], c["domain"], "map" if c["plot"] else "no map",
              "through the region" if inside else "past the region", "%d stations feel it" % felt)


# ---------------------------------------------------------------- losses

@st.composite
def impacts(draw):
    return {"gusts": draw(st.lists(st.tuples(st.integers(0, 12), st.integers(0, 300)), min_size=1,
                                   max_size=5, unique=True)),
            "actions": draw(st.sampled_from([None, "True", "False", "missing"])),
            "section": draw(st.booleans()), "before": draw(st.booleans()),
            "fails": draw(st.sampled_from([0, 0, 0, 1, 3])),
            "exposure": draw(st.sampled_from(["exp.csv", "my data/exposure.txt"]))}


@prop.facet(impacts, quick=120, thorough=1500,
            rule="wind fields handed to the loss program; non-trivial when there are several")
def impact(c, ctx):
    from configparser import ConfigParser
    import impact as I
    where = scratch()
    out = os.path.join(where, "out")
    os.makedirs(os.path.join(out, "windfield"))
    gusts = []
    for a, b in c["gusts"]:
        gusts.append(os.path.join(out, "windfield", "gust.%03d-%05d.nc" % (a, b)))
    for g in gusts + [os.path.join(out, "windfield", n) for n in ("gust.txt", "evolution.001-00001.nc")]:
        open(g, "w").close()
    if c["before"]:
        os.makedirs(os.path.join(out, "impact"))
    cfg = ConfigParser()
    text = "[Output]\nPath=%s\n" % out
    exposure = os.path.join(where, c["exposure"])
    on = c["actions"] == "True" or (c["actions"] is None and c["section"])
    if c["section"] or c["actions"] == "True":
        text += "[Impact]\nExposure=%s\n" % exposure
    if c["actions"] is not None:
        text += "[Actions]\nExecuteStat=True\n"
        if c["actions"] != "missing":
            text += "ExecuteImpact=%s\n" % c["actions"]
    cfg.read_string(text)
    bins = stand_in(where, c["fails"])
    old = os.environ["PATH"]
    os.environ["PATH"] = bins + os.pathsep + old
    try:
        with world.quiet():
            I.run_optional(cfg)
        failed = False
    except Exception as exc:
        failed = True
        if not (on and c["fails"]):
            raise Violation("losses ended with %r" % exc)
    finally:
        os.environ["PATH"] = old
    got = calls(where)
    ctx.nontrivial(on and len(gusts) > 1)
    ctx.klass("on" if on else "off", "fails" if c["fails"] else "succeeds")
    if not on:
        check(not got, "losses although none are asked for")
    elif c["fails"]:
        check(failed, "the loss program failed unnoticed")
    else:
        losses(got, gusts, exposure, out, "losses")
        check(os.path.isdir(os.path.join(out, "impact")), "no folder for the losses")


# ---------------------------------------------------------------- figures of series

@st.composite
def series_files(draw):
    ids = draw(st.permutations(IDS + ["9999.t", "S", "ts", "csv"]))[:draw(st.integers(1, 4))]
    return {"ids": ids, "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(st.integers(1, 30)),
            "one": draw(st.integers(0, 3)) == 0, "minutes": draw(st.sampled_from([5, 60, 180]))}


@prop.facet(series_files, quick=40, thorough=400,
            rule="station series drawn; non-trivial when there are several stations")
def series_figures(c, ctx):
    from PlotInterface.plotTimeseries import plotTimeseries
    where = scratch()
    src, dst = os.path.join(where, "a"), os.path.join(where, "b")
    os.makedirs(src)
    os.makedirs(dst)
    rs = np.random.RandomState(c["seed"])
    series = {}
    for k, i in enumerate(c["ids"]):
        rows = []
        t = datetime(2003, 12, 30, 22)
        for _ in range(c["n"]):
            u, v = rs.normal(0, 20, 2)
            rows.append([i, t.strftime("%Y-%m-%d %H:%M"), "%.5f" % (110 + k), "%.5f" % (-15 - k),
                         "%.2f" % np.hypot(u, v), "%.2f" % u, "%.2f" % v,
                         "%.2f" % (np.degrees(np.arctan2(-u, -v)) % 360),
                         "%.2f" % rs.uniform(92000, 101000)])
            t += timedelta(minutes=c["minutes"])
        with open(os.path.join(src, "ts.%s.csv" % i), "w") as fh:
            fh.write("Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure\n")
            for r in rows:
                fh.write(",".join(r) + "\n")
        series[i] = read_series(os.path.join(src, "ts.%s.csv" % i))
    open(os.path.join(src, "notes.txt"), "w").close()
    with plots.recorded() as figures, world.quiet():
        if c["one"]:
            plotTimeseries(src, dst, c["ids"][0])
            series = {c["ids"][0]: series[c["ids"][0]]}
        else:
            plotTimeseries(src, dst)
        shown = look(figures)["series"]
    ctx.nontrivial(len(series) > 1)
    ctx.klass("one station" if c["one"] else "all stations")
    figures_of_series(series, shown, "series")
