"""Historical storm records: what the file says is what is loaded."""
import math
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import Property, check, np_seed, scratch
from vf import records as rec
from vf.gen import dec

TECHNIQUE = ("property-based loading of generated observation files in generated layouts against "
             "the observations they were written from")
NOTE = ("records of up to 7 storms of up to 9 observations; 4 ways of telling storms apart, 7 "
        "date formats and 4 other ways of giving the time, all speed, pressure and length units, "
        "any column order with unused columns")

prop = Property("C18", preload=("numpy", "Utilities.loadData"), assumptions=[
    "pressures flagged missing are blank, 0, -999 or 9999",
    "two consecutive observations of one storm lie within a few degrees unless the record "
    "joins two storms, in which case a jump of more than 10 degrees of longitude or 5 of "
    "latitude separates them"])


@st.composite
def files(draw):
    rows = draw(rec.records())
    lay = draw(rec.layouts())
    if lay["dates"] in ("columns", "hhmm"):
        # whole hours, or at least one hour of 100 or more as hhmm
        for r in rows:
            if lay["dates"] == "columns":
                r["t"][4] = 0
    if lay["fmt"] == "%Y%m%d%H%M" and lay["pad"]:
        lay["pad"] = ""
    return {"rows": rows, "layout": lay, "seed": draw(st.integers(0, 10 ** 6))}


def load(case, path, rows=None, wind=False, name="obs.csv", **kw):
    from Utilities import config, loadData
    data, conf = rec.write(case, path, rows=rows, name=name, **kw)
    config.reset()
    np_seed(case["seed"])
    return loadData.loadTrackFile(conf, data, "MADEUP", calculateWindSpeed=wind)


def near(a, b, rel, what, absolute=0.0):
    check(abs(float(a) - b) <= absolute + rel * abs(b), "%s is %r, should be %r" % (what, float(a), b))


def angle(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def ambiguous(case):
    """hhmm times need one at 01:00 or later to be recognised as such."""
    return (case["layout"]["dates"] == "hhmm" and
            all(r["t"][3] == 0 for r in case["rows"]))


def groups(case, across=10.0, rows=None):
    rows = case["rows"] if rows is None else rows
    out = []
    for r, s in zip(rows, rec.splits(case, rows, across)):
        if s:
            out.append([])
        out[-1].append(r)
    return out


def wind_of(lay, o):
    return o["v"] if lay["vmax"] and not (lay["blanks"] and o["vgone"]) else 0.0


def slack(lay):
    """Whole numbers are right to half a unit."""
    return 0.01 + (0.51 * rec.SPEED[lay["speed"]] if lay["whole"] else 0.0)


def compare(case, tracks, want, wind=False):
    lay = case["layout"]
    check(len(tracks) == len(want), "%d storms loaded from a file of %d" % (len(tracks), len(want)))
    for k, (t, obs) in enumerate(zip(tracks, want)):
        who = "storm %d" % (k + 1)
        check(t.trackId == (k + 1, len(want)), "%s is called %r" % (who, t.trackId))
        check(len(t.Longitude) == len(obs), "%s has %d observations, the file %d"
              % (who, len(t.Longitude), len(obs)))
        check(int(t.Indicator[0]) == 1 and not t.Indicator[1:].any(),
              "%s starts at %r" % (who, list(t.Indicator)))
        check(set(int(i) for i in t.CycloneNumber) == {k + 1},
              "%s is numbered %r" % (who, list(t.CycloneNumber)))
        start = rec.when(obs[0])
        for i, o in enumerate(obs):
            at = "%s observation %d: " % (who, i)
            true = rec.when(o)
            gone = (true - start).total_seconds() / 3600.0
            date = true if lay["dates"] != "age" else datetime(2000, 1, 1) + timedelta(hours=gone)
            got = [int(t.Year[i]), int(t.Month[i]), int(t.Day[i]), int(t.Hour[i]),
                   int(t.Minute[i])]
            given = t.Datetime[i]
            tol = timedelta(seconds=1)
            check(abs(given - date) <= tol, "%sdate %s, should be %s" % (at, given, date))
            check(abs(datetime(*got) - date) <= (tol if lay["dates"] != "age" else
                                                  timedelta(minutes=1)),
                  "%sdate fields %r, should be %s" % (at, got, date))
            near(t.TimeElapsed[i], gone, 1e-6, at + "time elapsed", 1e-3)
            near(t.Longitude[i], o["lon"], 0, at + "longitude", 1e-4)
            near(t.Latitude[i], o["lat"], 0, at + "latitude", 1e-4)
            check(0 <= t.Longitude[i] < 360.0001, at + "longitude %r" % t.Longitude[i])
            near(t.CentralPressure[i], 0.0 if o["gone"] else o["p"], 2e-4, at + "pressure", 0.01)
            if not wind:
                near(t.WindSpeed[i], wind_of(lay, o), 4e-4, at + "wind speed", slack(lay))
            near(t.rMax[i], o["r"] if lay["rmax"] and not (lay["blanks"] and o["rgone"]) else 0.0,
                 4e-4, at + "radius", 0.02)
            env = float(t.EnvPressure[i])
            if lay["outer"] in ("poci", "both"):
                near(env, o["env"] - 2.0, 2e-4, at + "outer pressure", 0.01)
            elif o["gone"] or o["p"] > o["env"] + 0.1:
                check(not (env > 0), at + "outer pressure %r though the central one is %s"
                      % (env, "missing" if o["gone"] else "higher"))
            elif o["p"] < o["env"] - 0.1:
                check(900 < env < 1100, at + "outer pressure %r" % env)
            if i == 0:
                check(t.Speed[i] == 0 and t.Bearing[i] == 0,
                      at + "moves at %r towards %r" % (t.Speed[i], t.Bearing[i]))
                continue
            b = obs[i - 1]
            hours = (true - rec.when(b)).total_seconds() / 3600.0
            far = rec.distance(b, o)
            if hours <= 0 or far / hours > 205:
                check(t.Speed[i] == 0, at + "speed %r after %r h and %r km" % (t.Speed[i], hours, far))
                continue
            if far / hours < 195:
                near(t.Speed[i], far / hours, 0.02 + 0.02 * abs(b["lat"] - o["lat"]),
                     at + "speed", 0.02)
            if far > 1:
                d = angle(float(t.Bearing[i]), rec.heading(b, o))
                check(d < 0.5 + 1.5 * abs(b["lat"] - o["lat"]), at + "bearing %r, should be %r"
                      % (float(t.Bearing[i]), rec.heading(b, o)))
        valid = [o["p"] for o in obs if not o["gone"]]
        near(t.trackMinPressure, min(valid) if valid else 0.0, 2e-4, who + " lowest pressure", 0.01)
        if not wind and lay["vmax"]:
            near(t.trackMaxWind, max(wind_of(lay, o) for o in obs), 4e-4, who + " highest wind",
                 slack(lay))


def label(case, ctx, want):
    lay = case["layout"]
    ctx.klass("ids-" + lay["ids"], "dates-" + lay["dates"], "outer-" + lay["outer"])
    if len(set(r["sid"] for r in case["rows"])) < len(want):
        ctx.klass("jump")
    if any(abs(a["lon"] - b["lon"]) > 300 for a, b in zip(case["rows"], case["rows"][1:])):
        ctx.klass("crosses-0E")
    if any(len(w) == 1 for w in want):
        ctx.klass("single-observation-storm")
    if any(r["gone"] for r in case["rows"]):
        ctx.klass("missing-pressure")
    ctx.nontrivial(len(want) > 1 and any(len(w) > 1 for w in want))


@prop.facet(files, quick=1500,
            rule="every observation comes back in order with its values in standard units")
def observations(case, ctx):
    if ambiguous(case) or rec.borderline(case["rows"], 10.0):
        return
    want = groups(case)
    tracks = load(case, scratch())
    label(case, ctx, want)
    compare(case, tracks, want)


@prop.facet(files, quick=700, rule="the layout of the file does not change what is loaded")
def layout(case, ctx):
    import numpy as np
    if rec.borderline(case["rows"], 10.0):
        return
    path = scratch()
    case = dict(case, rows=[dict(r, t=r["t"][:4] + [0]) for r in case["rows"]])
    base = dict(case["layout"], ids="serial", dates="date", fmt="%Y-%m-%d %H:%M:%S",
                delimiter=",", skips=0, pad="", heading=0, west=False, speed="mps",
                pressure="hPa", length="km", missing="0")
    case["layout"] = dict(case["layout"], whole=False)
    base["whole"] = False
    if case["layout"]["dates"] == "age" or ambiguous(case):
        return
    a = load(case, path)
    b = load(dict(case, layout=base), path, name="plain.csv", ini="plain.ini")
    check(len(a) == len(b), "%d storms or %d" % (len(a), len(b)))
    ctx.nontrivial(len(a) > 1)
    ctx.klass(case["layout"]["dates"], case["layout"]["ids"])
    for x, y in zip(a, b):
        for f in x.data.dtype.names:
            if f == "Datetime":
                check(list(x.data[f]) == list(y.data[f]), "%s: %r or %r" % (f, x.data[f], y.data[f]))
                continue
            u, v = np.asarray(x.data[f], float), np.asarray(y.data[f], float)
            ok = (np.abs(u - v) <= 5e-4 * np.abs(v) + 0.02) | (np.isnan(u) & np.isnan(v))
            check(ok.all(), "%s of storm %r: %r or %r" % (f, x.trackId, u, v))


def holland(p, env, lat, speed, trend):
    """10-minute wind (m/s) of Holland (2008): hPa, degrees, m/s and hPa per hour."""
    dp, phi = env - p, abs(lat)
    centre = p + dp / 3.7
    ts = 28.0 - 3.0 * (phi - 10.0) / 20.0
    q = 0.9 * 3.802 / centre * math.exp(17.67 * ts / (243.5 + ts))
    rho = centre * 100.0 / (287.04 * (ts + 273.15) * (1.0 + 0.81 * q))
    x = 0.6 * (1.0 - dp / 215.0)
    b = (1.0 - 4.4e-5 * dp ** 2 + 0.01 * dp + 0.03 * trend - 0.014 * phi
         + (0.15 * speed ** x if speed > 0 else 0.0))
    return 0.9524 * math.sqrt(max(b * dp * 100.0 / (rho * math.e), 0.0))


def estimated(t, obs, who):
    """Winds estimated from the pressures of the storm."""
    p = [float(v) for v in t.CentralPressure]
    for i, o in enumerate(obs):
        env = float(t.EnvPressure[i])
        if o["gone"] or not env > p[i] + 0.05:
            continue
        hours = (rec.when(o) - rec.when(obs[i - 1])).total_seconds() / 3600.0 if i else 0.0
        trend = (p[i] - p[i - 1]) / hours if hours > 0 else 0.0
        if abs(abs(trend) - 5.0) < 0.05 or hours < 0:
            continue
        trend = 0.0 if abs(trend) > 5 else trend
        near(t.WindSpeed[i], holland(p[i], env, float(t.Latitude[i]), float(t.Speed[i]) / 3.6,
                                     trend), 2e-3, "%s observation %d: estimated wind" % (who, i), 0.03)


@prop.facet(files, quick=600, rule="a storm is loaded the same whatever else the file holds")
def independence(case, ctx):
    import numpy as np
    if ambiguous(case) or rec.borderline(case["rows"], 10.0):
        return
    path = scratch()
    want = groups(case)
    tracks = load(case, path, wind=True)
    compare(case, tracks, want, wind=True)
    label(case, ctx, want)
    for k, (t, obs) in enumerate(zip(tracks, want)):
        check(all(np.isfinite(t.WindSpeed)) and all(t.WindSpeed >= 0),
              "storm %d has winds %r" % (k + 1, t.WindSpeed))
        for i, o in enumerate(obs):
            if o["gone"]:
                check(t.WindSpeed[i] == 0, "storm %d has a wind of %r where the pressure is missing"
                      % (k + 1, t.WindSpeed[i]))
        estimated(t, obs, "storm %d" % (k + 1))
        if case["layout"]["dates"] == "hhmm" and all(o["t"][3] == 0 for o in obs):
            continue
        alone = load(case, path, rows=obs, wind=True, name="one%d.csv" % k, ini="one%d.ini" % k)
        check(len(alone) == 1, "storm %d alone becomes %d storms" % (k + 1, len(alone)))
        for f in t.data.dtype.names:
            if f == "CycloneNumber":
                continue
            u, v = t.data[f], alone[0].data[f]
            if f == "Datetime":
                check(list(u) == list(v), "%s of storm %d" % (f, k + 1))
            else:
                u, v = np.asarray(u, float), np.asarray(v, float)
                ok = (np.abs(u - v) <= 1e-5 * np.abs(v)) | (np.isnan(u) & np.isnan(v))
                check(ok.all(), "%s of storm %d depends on the other storms: %r or %r alone"
                      % (f, k + 1, u, v))


@st.composite
def filtered(draw):
    case = draw(files())
    case["rows"] = draw(rec.records(min_storms=4, max_obs=4))
    case["layout"]["dates"] = draw(st.sampled_from(["date", "minute"]))
    case["layout"]["ids"] = draw(st.sampled_from(["serial", "season"]))
    seasons = sorted(set(rec.season(r) for r in case["rows"]))
    case["start"] = draw(st.sampled_from(seasons[1:] or seasons)) + draw(
        st.sampled_from([0, 0, 0, -1]))
    return case


@prop.facet(filtered, quick=500, rule="only seasons from the first one asked for are loaded")
def seasons(case, ctx):
    rows = [r for r in case["rows"] if rec.season(r) >= case["start"]]
    if case["layout"]["dates"] in ("hhmm", "age") or rec.borderline(rows, 10.0):
        return
    tracks = load(case, scratch(), filtering=True, start=case["start"])
    ctx.nontrivial(len(rows) < len(case["rows"]))
    compare(case, tracks, groups(case, rows=rows))
    everything = load(case, scratch(), filtering=False, start=case["start"])
    if not rec.borderline(case["rows"], 10.0):
        compare(case, everything, groups(case))


@st.composite
def yearless(draw):
    rows = draw(rec.records(min_storms=2, max_obs=6))
    lay = draw(rec.layouts(dates=["noyear"], ids=("serial", "num", "index")))
    # each storm between March and the following January
    out, base, prev = [], None, None
    for r in rows:
        if prev is None or r["sid"] != prev["sid"]:
            m = draw(st.sampled_from([12, 3, 6, 11, 12, 1]))
            base, first = datetime(2000 if m != 1 else 2001, m, draw(
                st.sampled_from([30, 29, 28, 1, 15])),
                                   r["t"][3], r["t"][4]), rec.when(r)
            gone = timedelta(0)
        gone = max(gone, min(rec.when(r) - first, timedelta(days=15)))
        t = base + gone
        out.append(dict(r, t=[t.year, t.month, t.day, t.hour, t.minute]))
        prev = r
    return {"rows": out, "layout": lay, "seed": 1}


@prop.facet(yearless, quick=500,
            rule="records without a year still give the right time between observations")
def no_year(case, ctx):
    import numpy as np
    from Utilities import loadData
    rows = case["rows"]
    index = np.array([int(i == 0 or rows[i - 1]["sid"] != r["sid"]) for i, r in enumerate(rows)])
    names = [("month", "i4"), ("day", "i4"), ("hour", "i4"), ("minute", "i4")]
    data = np.zeros(len(rows), dtype=names)
    for i, r in enumerate(rows):
        data[i] = tuple(r["t"][1:])
    year, month, day, hour, minute, dates = loadData.parseDates(data, index)
    got = loadData.getTimeElapsed(index, year, month, day, hour, minute)
    start = None
    for i, r in enumerate(rows):
        if index[i]:
            start = rec.when(r)
        want = (rec.when(r) - start).total_seconds() / 3600.0
        near(got[i], want, 0, "time elapsed at observation %d" % i, 1e-3)
        check([dates[i].month, dates[i].day, dates[i].hour, dates[i].minute] == r["t"][1:],
              "observation %d is dated %s, should be %r" % (i, dates[i], r["t"]))
    ctx.nontrivial(any(r["t"][0] == 2001 for r in rows) and any(r["t"][0] == 2000 for r in rows))


@st.composite
def sampled(draw):
    case = draw(files())
    case["layout"]["outer"] = "penv"
    case["level"] = draw(dec(1000, 1015, 1))
    case["units"] = draw(st.sampled_from(["hPa", "Pa"]))
    case["var"] = draw(st.sampled_from(["slp", "mslp"]))
    return case


@prop.facet(sampled, quick=200, rule="mean pressure from a file and from a column agree")
def mean_pressure(case, ctx):
    import numpy as np
    from netCDF4 import Dataset
    if ambiguous(case) or rec.borderline(case["rows"], 10.0):
        return
    path = scratch()
    ncfile = os.path.join(path, "slp.nc")
    with Dataset(ncfile, "w") as nc:
        for n, v in (("time", np.arange(24)), ("lat", np.linspace(-90, 90, 19)),
                     ("lon", np.arange(0, 360, 10.0))):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        v = nc.createVariable(case["var"], "f8", ("time", "lat", "lon"))
        v[:] = case["level"] * (100.0 if case["units"] == "Pa" else 1.0)
        v.units = case["units"]
    extra = "[Input]\nMSLPFile=%s\nMSLPVariableName=%s\n" % (ncfile, case["var"])
    lay = dict(case["layout"], outer="none")
    rows = [dict(r, env=case["level"]) for r in case["rows"]]
    a = load(dict(case, rows=rows, layout=lay), path, extra=extra)
    b = load(dict(case, rows=rows), path, name="col.csv", ini="col.ini")
    ctx.nontrivial(len(rows) > 2)
    check(len(a) == len(b), "%d or %d storms" % (len(a), len(b)))
    for x, y in zip(a, b):
        u, v = np.asarray(x.EnvPressure, float), np.asarray(y.EnvPressure, float)
        edge_ = np.abs(np.asarray(x.CentralPressure, float) - case["level"]) < 0.05
        ok = (np.abs(u - v) < 0.05) | (np.isnan(u) & np.isnan(v)) | edge_
        check(ok.all(), "outer pressure %r from the file, %r from the column" % (u, v))
        u = u[~np.isnan(u)]
        check(((u > 900) & (u < 1100)).all(), "outer pressure %r" % u)


@st.composite
def pressures(draw):
    return {"p": draw(st.lists(st.one_of(dec(600, 1100, 1), dec(-2000, 12000, 0),
                                         st.sampled_from([0.0, -999.0, 9999.0, float("nan"), 599.9,
                                                          1100.2, 950.0])),
                               min_size=1, max_size=12)),
            "units": draw(st.sampled_from(sorted(rec.PRESSURE))),
            "flag": draw(st.sampled_from([0, -1, 2 ** 63 - 1]))}


@prop.facet(pressures, quick=600, rule="only physical pressures pass")
def physical(case, ctx):
    import numpy as np
    from Utilities import loadData
    f = rec.PRESSURE[case["units"]]
    given = np.array([p / f for p in case["p"]])
    out = loadData.filterPressure(given.copy(), case["units"], case["flag"])
    flags = 0
    for p, q in zip(case["p"], np.asarray(out, float)):
        if math.isnan(p) or p < 599.7 or p > 1100.4:
            flags += 1
            check(q == float(case["flag"]), "pressure %r becomes %r" % (p, q))
        elif 600.3 < p < 1099.6:
            near(q, p, 2e-4, "pressure")
    ctx.nontrivial(0 < flags < len(case["p"]))
