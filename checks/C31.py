"""Interpolated tracks keep the observed storm."""
import math
import os
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, scratch
from vf import tracks as tk
from vf.gen import dec, edge

TECHNIQUE = ("generated storm records and output steps; the interpolated records are "
             "compared with the observations around them and under shifting, reversing "
             "and straight-line motion")
NOTE = ("two to twelve observations 10 minutes to 24 hours apart, steps of 0.1 to 24 hours; "
        "records that do not cross Greenwich; the last output step runs to the final "
        "observation")

prop = Property("C31", extensions=["Utilities._akima"], assumptions=[
    "observation times increase and longitudes are continuous (no step of a full turn)",
    "environmental pressure and size are present in every record"])

KINDS = ["akima", "linear", None]
R = 6367.0


@st.composite
def storms(draw, n=(2, 12), straight=False):
    k = draw(edge(st.integers(*n), max(n[0], 2), max(n[0], 3), max(n[0], 4)))
    regular = draw(st.booleans())
    base = draw(st.sampled_from([60, 180, 360, 360, 720]))
    times, t = [], 0
    for _ in range(k):
        times.append(t)
        t += base if regular else draw(st.sampled_from([10, 30, 60, 90, 120, 180, 360, 390, 720, 1440]))
    lon = draw(dec(20, 340, 1))
    lat = draw(dec(-35, 35, 1))
    pts, p = [], draw(dec(875, 1000, 1))
    rare = draw(st.integers(0, 9)) == 9
    u, v = draw(dec(-0.1, 0.1, 3)), draw(dec(-0.1, 0.1, 3))
    for i in range(k):
        if straight:
            x, y = lon + u * times[i] / 60.0, lat + v * times[i] / 60.0
        else:
            x, y = round(lon, 2), round(lat, 2)
            lon += draw(dec(-1, 1, 2))
            lat += draw(dec(-1, 1, 2))
        pts.append({"lon": x, "lat": y, "ep": draw(dec(1000, 1015, 1)), "cp": p,
                    "rm": draw(dec(10, 80, 1)), "ws": draw(dec(10, 70, 1)), "sp": 10.0, "be": 90.0,
                    "gone": draw(st.integers(0, 6)) == 0 or rare})
        p = round(max(870, min(1010, p + draw(dec(-20, 20, 1)))), 1)
    if all(q["gone"] for q in pts):
        pts[draw(st.integers(0, k - 1))]["gone"] = False
    return {"pts": pts, "times": times, "regular": regular,
            "start": draw(st.sampled_from([[1975, 12, 31, 18, 0], [2000, 2, 28, 23, 30],
                                           [2011, 1, 31, 6, 0], [1999, 6, 5, 0, 7],
                                           [3500, 3, 1, 12, 0]])),
            "delta": draw(st.sampled_from([0.1, 1 / 12.0, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 6.0,
                                           7.0, 12.0, 24.0])),
            "kind": draw(st.sampled_from(KINDS)),
            "missing": draw(st.booleans()),
            "dlon": draw(dec(-15, 15, 1)), "dlat": draw(dec(-15, 15, 1))}


def build(d, pts=None, times=None):
    pts = d["pts"] if pts is None else pts
    times = d["times"] if times is None else times
    tr = tk.make(pts, tid=(3, 5), trackfile="somefile")
    t0 = datetime(*d["start"])
    for i, (p, m) in enumerate(zip(pts, times)):
        t = t0 + timedelta(minutes=m)
        for name, v in (("Year", t.year), ("Month", t.month), ("Day", t.day), ("Hour", t.hour),
                        ("Minute", t.minute), ("TimeElapsed", m / 60.0), ("Datetime", t)):
            tr.data[name][i] = v
        if d["missing"] and p["gone"]:
            tr.data["CentralPressure"][i] = 0
    return tr


def run(d, **kw):
    from Evaluate import interpolateTracks as it
    tr = build(d, **kw)
    before = tr.data.copy()
    new = it.interpolate(tr, d["delta"], d["kind"])
    check((tr.data == before).all(), "interpolating changes the observed track")
    return tr, new


def distance(lon1, lat1, lon2, lat2):
    a = [math.radians(v) for v in (lon1, lat1, lon2, lat2)]
    h = (math.sin((a[3] - a[1]) / 2) ** 2
         + math.cos(a[1]) * math.cos(a[3]) * math.sin((a[2] - a[0]) / 2) ** 2)
    return 2 * R * math.asin(math.sqrt(h))


def hours(d, when):
    return (when - datetime(*d["start"])).total_seconds() / 3600.0


@prop.facet(lambda: storms(), quick=1500, thorough=25000, variant=["pure", "compiled"],
            rule="storm record, output step and interpolation type; non-trivial when the output "
                 "has times between observations and at least one observation inside")
def records(d, ctx):
    tr, new = run(d)
    delta = d["delta"]
    obs = [m / 60.0 for m in d["times"]]
    out = [float(v) for v in new.TimeElapsed]
    n = len(out)
    ctx.klass(d["kind"] or "spline", "regular" if d["regular"] else "irregular")
    ctx.nontrivial(n > 2 and len(obs) > 2)
    check(n >= 2, "%d observations become %d records" % (len(obs), n))
    check(new.trackId == tr.trackId and new.trackfile == tr.trackfile, "track identity changes")
    # Times.
    check(abs(out[0]) < 1e-6 and abs(out[-1] - obs[-1]) < 1e-4,
          "times run from %r to %r, observations from 0 to %r" % (out[0], out[-1], obs[-1]))
    for k in range(n - 2):
        check(abs(out[k + 1] - out[k] - delta) < 1e-4,
              "times %r and %r are not %r hours apart" % (out[k], out[k + 1], delta))
    check(out[-1] - out[-2] < 2 * delta + 1e-4 and (n == 2 or out[-1] - out[-2] > delta - 0.011),
          "the last step is %r hours, the step asked for is %r" % (out[-1] - out[-2], delta))
    if delta < obs[-1] - 0.02:
        whole = obs[-1] / delta
        check(n == int(math.floor(whole + 0.01 / delta)) + 1, "%r hours in steps of %r give %d "
              "records" % (obs[-1], delta, n))
    else:
        ctx.klass("shorter than a step")
    for k in range(n):
        t = new.Datetime[k]
        check(abs(hours(d, t) - out[k]) < 1e-4 and t.tzinfo is None,
              "record %d is at %r, %r hours after the start" % (k, t, out[k]))
        near = t + timedelta(seconds=1)
        check([int(new.data[f][k]) for f in ("Year", "Month", "Day", "Hour", "Minute")]
              == [near.year, near.month, near.day, near.hour, near.minute],
              "record %d is dated %r, its time is %r" % (
                  k, [int(new.data[f][k]) for f in ("Year", "Month", "Day", "Hour", "Minute")], t))
    check(list(new.Indicator) == [1] + [0] * (n - 1), "start of track marks are %r" % (new.Indicator,))
    check(len(set(new.CycloneNumber)) == 1, "storm numbers vary along the track")
    # Values at and between observations.
    valid = [i for i in range(len(obs)) if not (d["missing"] and d["pts"][i]["gone"])]
    inside = False
    for k in range(n):
        at = [i for i in range(len(obs)) if abs(obs[i] - out[k]) < 1e-4]
        if at:
            p = d["pts"][at[0]]
            inside = inside or 0 < at[0] < len(obs) - 1
            check(abs(new.Longitude[k] - p["lon"]) < 1e-3 and abs(new.Latitude[k] - p["lat"]) < 1e-3,
                  "the track is at %r at the time of the observation at %r" % (
                      (float(new.Longitude[k]), float(new.Latitude[k])), (p["lon"], p["lat"])))
            check(abs(new.rMax[k] - p["rm"]) < 1e-2 and abs(new.EnvPressure[k] - p["ep"]) < 1e-2,
                  "size and environmental pressure %r, observed %r" % (
                      (float(new.rMax[k]), float(new.EnvPressure[k])), (p["rm"], p["ep"])))
            if len(valid) == 1:
                check(abs(new.CentralPressure[k] - d["pts"][valid[0]]["cp"]) < 1e-2
                      and abs(new.WindSpeed[k] - d["pts"][valid[0]]["ws"]) < 1e-2,
                      "pressure and wind are %r, the only observation has %r" % (
                          (float(new.CentralPressure[k]), float(new.WindSpeed[k])),
                          (d["pts"][valid[0]]["cp"], d["pts"][valid[0]]["ws"])))
            if at[0] in valid and valid[0] < at[0] < valid[-1] \
                    or at[0] in valid and at[0] in (0, len(obs) - 1):
                check(abs(new.CentralPressure[k] - p["cp"]) < 1e-2 or len(valid) == 1,
                      "central pressure %r, observed %r" % (float(new.CentralPressure[k]), p["cp"]))
                check(abs(new.WindSpeed[k] - p["ws"]) < 1e-2 or len(valid) == 1,
                      "wind speed %r, observed %r" % (float(new.WindSpeed[k]), p["ws"]))
            continue
        j = max(i for i in range(len(obs)) if obs[i] < out[k])
        a, b = d["pts"][j], d["pts"][j + 1]
        part = (out[k] - obs[j]) / (obs[j + 1] - obs[j])
        for name, key in (("rMax", "rm"), ("EnvPressure", "ep")):
            v = float(new.data[name][k])
            check(abs(a[key] + part * (b[key] - a[key]) - v) < 2e-2,
                  "%s is %r %r of the way from %r to %r" % (name, v, part, a[key], b[key]))
        if d["kind"] == "linear" or len(obs) <= 3:
            f = (out[k] - obs[j]) / (obs[j + 1] - obs[j])
            for name, key in (("Longitude", "lon"), ("Latitude", "lat")):
                w = a[key] + f * (b[key] - a[key])
                check(abs(float(new.data[name][k]) - w) < 1e-3, "%s is %r, a straight line "
                      "between the observations gives %r" % (name, float(new.data[name][k]), w))
        before = [i for i in valid if i <= j]
        after = [i for i in valid if i > j]
        v = float(new.CentralPressure[k])
        if before and after:
            x, y = d["pts"][before[-1]], d["pts"][after[0]]
            part = (out[k] - obs[before[-1]]) / (obs[after[0]] - obs[before[-1]])
            for name, key, got in (("central pressure", "cp", v),
                                   ("wind speed", "ws", float(new.WindSpeed[k]))):
                check(abs(x[key] + part * (y[key] - x[key]) - got) < 2e-2, "%s %r at %r of the way "
                      "from %r to %r" % (name, got, part, x[key], y[key]))
            if before[-1] != j or after[0] != j + 1:
                ctx.klass("missing pressure bridged")
        elif len(valid) == 1:
            w = d["pts"][valid[0]]
            check(abs(v - w["cp"]) < 1e-2 and abs(new.WindSpeed[k] - w["ws"]) < 1e-2,
                  "pressure and wind are %r, the only observation has %r" % (
                      (v, float(new.WindSpeed[k])), (w["cp"], w["ws"])))
            ctx.klass("one valid observation")
        elif len(valid) > 1:
            ctx.klass("no pressure yet or any more")
            check(v > 1e6, "central pressure %r where no observation bounds it" % v)
    if inside:
        ctx.klass("observation inside")
    # Speed and bearing.
    for k in range(n - 1):
        lo1, la1, lo2, la2 = [float(v) for v in (new.Longitude[k], new.Latitude[k],
                                                 new.Longitude[k + 1], new.Latitude[k + 1])]
        dist = distance(lo1, la1, lo2, la2)
        step = out[k + 1] - out[k]
        if dist > 150:
            continue
        s = float(new.Speed[k])
        check(abs(s * step - dist) <= 0.02 * dist + 0.05, "speed %r km/h over %r hours, the "
              "positions are %r km apart" % (s, step, dist))
        if dist > 2:
            m = math.radians((la1 + la2) / 2)
            b = math.degrees(math.atan2((lo2 - lo1) * math.cos(m), la2 - la1))
            off = (float(new.Bearing[k]) - b + 180) % 360 - 180
            check(abs(off) < 4, "bearing %r, the positions give %r" % (float(new.Bearing[k]), b % 360))
    check(abs(new.Speed[-1] - new.Speed[-2]) < 1e-3 * (1 + abs(new.Speed[-2]))
          and abs((new.Bearing[-1] - new.Bearing[-2] + 180) % 360 - 180) < 1e-2,
          "speed or bearing of the last record differs from the last step")


@prop.facet(lambda: storms(n=(4, 9), straight=True), quick=600, thorough=8000,
            variant=["pure", "compiled"],
            rule="storm moving straight at a steady rate; non-trivial with four or more "
                 "observations, so that the chosen curve is used")
def straight(d, ctx):
    _, new = run(d)
    ctx.klass(d["kind"] or "spline")
    ctx.nontrivial(len(d["pts"]) > 3 and len(new.data) > 2)
    a, b = d["pts"][0], d["pts"][-1]
    total = d["times"][-1] / 60.0
    for k in range(len(new.data)):
        f = float(new.TimeElapsed[k]) / total
        for name, key in (("Longitude", "lon"), ("Latitude", "lat")):
            w = a[key] + f * (b[key] - a[key])
            check(abs(float(new.data[name][k]) - w) < 1e-3, "%s is %r on a steady course, "
                  "expected %r" % (name, float(new.data[name][k]), w))


@prop.facet(lambda: storms(n=(4, 10)), quick=600, thorough=8000, variant=["pure", "compiled"],
            rule="storm record repeated elsewhere and run backwards; non-trivial with four or "
                 "more observations")
def symmetry(d, ctx):
    tr, new = run(d)
    ctx.klass(d["kind"] or "spline")
    ctx.nontrivial(len(d["pts"]) > 3 and len(new.data) > 2)
    moved = [dict(p, lon=p["lon"] + d["dlon"], lat=p["lat"] + d["dlat"]) for p in d["pts"]]
    _, other = run(d, pts=moved)
    check(len(other.data) == len(new.data), "moving the storm changes the number of records")
    for k in range(len(new.data)):
        check(abs(other.Longitude[k] - new.Longitude[k] - d["dlon"]) < 1e-3
              and abs(other.Latitude[k] - new.Latitude[k] - d["dlat"]) < 1e-3,
              "moving the observations by %r moves record %d from %r to %r" % (
                  (d["dlon"], d["dlat"]), k, (float(new.Longitude[k]), float(new.Latitude[k])),
                  (float(other.Longitude[k]), float(other.Latitude[k]))))
        for name in ("CentralPressure", "WindSpeed", "rMax", "EnvPressure"):
            check(other.data[name][k] == new.data[name][k], "moving the storm changes %s" % name)
    total = d["times"][-1]
    whole = total / 60.0 / d["delta"]
    if abs(whole - round(whole)) > 1e-9 or round(whole) < 1:
        return
    ctx.klass("reversed")
    back = list(reversed(d["pts"]))
    _, rev = run(d, pts=back, times=[total - t for t in reversed(d["times"])])
    check(len(rev.data) == len(new.data), "reversing the storm changes the number of records")
    n = len(new.data)
    for k in range(n):
        for name, tol in (("Longitude", 2e-3), ("Latitude", 2e-3), ("rMax", 1e-2),
                          ("EnvPressure", 1e-2)):
            check(abs(float(rev.data[name][n - 1 - k]) - float(new.data[name][k])) < tol,
                  "%s of record %d is %r, %r with the observations reversed" % (
                      name, k, float(new.data[name][k]), float(rev.data[name][n - 1 - k])))


@st.composite
def curves(draw):
    n = draw(edge(st.integers(3, 14), 3, 4))
    x = [0.0]
    for _ in range(n - 1):
        x.append(round(x[-1] + draw(st.sampled_from([0.5, 1.0, 1.0, 2.0, 6.0, 0.1])), 3))
    mode = draw(st.sampled_from(["any", "any", "steps", "kinks", "flat"]))
    vals = {"any": dec(-50, 50, 2), "steps": st.sampled_from([0.0, 1.0, 1.0, 5.0]),
            "flat": st.sampled_from([3.0]), "kinks": None}[mode]
    if mode == "kinks":
        x, y, slope = [float(k) for k in range(n)], [0.0], 0.0
        for _ in range(n - 1):
            slope = draw(st.sampled_from([slope, slope, 1.0, -2.0, 0.0]))
            y.append(y[-1] + slope)
    else:
        y = [draw(vals) for _ in range(n)]
    return {"x": x, "y": y, "mode": mode, "shift": draw(dec(-100, 100, 1)),
            "scale": draw(st.sampled_from([-1.0, 2.0, 0.5, -10.0])),
            "poke": draw(st.integers(0, n - 1)),
            "frac": draw(st.lists(edge(dec(0, 1, 3), 0.0, 1.0, 0.5), min_size=1, max_size=12))}


@prop.facet(curves, quick=1500, thorough=25000, variant=["pure", "compiled"],
            rule="data points of a curve and places on it; non-trivial when the values are not "
                 "all equal")
def curve(d, ctx):
    from Utilities import akima
    x, y = np.array(d["x"]), np.array(d["y"])
    ctx.klass(d["mode"])
    ctx.nontrivial(len(set(d["y"])) > 1)
    xi = np.sort(np.array([f * x[-1] for f in d["frac"]] + d["x"]))
    f = lambda a, b, c: np.asarray(akima.interpolate(a, b, c))
    kx, ky = x.copy(), y.copy()
    v = f(x, y, xi)
    check((x == kx).all() and (y == ky).all(), "interpolating changes the data points")
    check(v.shape == xi.shape and np.isfinite(v).all(), "result is %r" % (v,))
    size = 1 + np.abs(y).max()
    tol = 1e-7 * size
    at = f(x, y, x)
    check(np.abs(at - y).max() <= tol, "the curve misses its data points: %r, %r" % (at, y))
    check(np.abs(f(x, y + d["shift"], xi) - v - d["shift"]).max() <= tol + 1e-7 * abs(d["shift"]),
          "adding a constant to the data changes the shape of the curve")
    check(np.abs(f(x, y * d["scale"], xi) - v * d["scale"]).max() <= 20 * tol,
          "scaling the data changes the shape of the curve")
    check(np.abs(f(x + 7, y, xi + 7) - v).max() <= 1e-5 * size, "moving the curve along changes it")
    slopes = np.diff(y) / np.diff(x)
    # Slopes that differ by rounding only are on the edge between two rules.
    m = np.concatenate(([3 * slopes[0] - 2 * slopes[1], 2 * slopes[0] - slopes[1]], slopes,
                        [2 * slopes[-1] - slopes[-2], 3 * slopes[-1] - 2 * slopes[-2]]))
    dm = np.abs(np.diff(m))
    w = dm[2:] + dm[:-2]
    if not ((w > 0) & (w < 1e-6 * max(1.0, w.max()))).any():
        back = f(x[-1] - x[::-1], y[::-1], (x[-1] - xi)[::-1])[::-1]
        check(np.abs(back - v).max() <= 1e-5 * size, "the reversed curve is not the curve reversed")
    # A straight run of data gives a straight curve.
    line = 2.0 - 3.0 * x
    check(np.abs(f(x, line, xi) - (2.0 - 3.0 * xi)).max() <= 1e-6 * (1 + np.abs(line).max()),
          "straight data do not give a straight curve")
    # Far data do not matter.
    i = d["poke"]
    z = y.copy()
    z[i] += 11.0
    far = np.array([q for q in xi if abs(np.searchsorted(x, q) - i) > 4])
    if len(far):
        ctx.klass("far change")
        check(np.abs(f(x, z, far) - f(x, y, far)).max() <= 1e-6 * size,
              "a data point more than three intervals away changes the curve")


@st.composite
def files(draw):
    n = draw(st.integers(1, 4))
    out = []
    for _ in range(n):
        s = draw(storms(n=(2, 6)))
        s["only"] = draw(st.integers(0, 4)) == 0
        out.append(s)
    return {"storms": out, "delta": draw(st.sampled_from([0.5, 1.0, 3.0, 6.0])),
            "kind": draw(st.sampled_from(KINDS)), "save": draw(st.booleans())}


@prop.facet(files, quick=60, thorough=800,
            rule="track file with several storms; non-trivial when there are two or more")
def track_file(d, ctx):
    from Evaluate import interpolateTracks as it
    from Utilities.track import ncReadTrackData, ncSaveTracks
    path = scratch()
    src = []
    for k, s in enumerate(d["storms"]):
        one = s["only"]
        tr = build(s, pts=s["pts"][:1] if one else None, times=s["times"][:1] if one else None)
        tr.trackId = (k + 1, len(d["storms"]))
        src.append(tr)
        if one:
            ctx.klass("single record")
    ctx.nontrivial(len(src) > 1)
    name = os.path.join(path, "in.nc")
    ncSaveTracks(name, src)
    saved = os.path.join(path, "out.nc")
    got = it.parseTracks(None, name, None, d["delta"], saved if d["save"] else None, d["kind"])
    check(len(got) == len(src), "%d storms in the file, %d interpolated" % (len(src), len(got)))
    by = {tuple(int(v) for v in g.trackId): g for g in got}
    for s, tr in zip(d["storms"], src):
        g = by.get(tuple(tr.trackId))
        check(g is not None, "storm %r is missing" % (tr.trackId,))
        if s["only"]:
            check(len(g.data) == 1 and abs(g.Longitude[0] - tr.Longitude[0]) < 1e-3
                  and abs(g.CentralPressure[0] - tr.CentralPressure[0]) < 1e-2,
                  "a single record is altered: %r, %r" % (g.data, tr.data))
            continue
        w = it.interpolate(tr, d["delta"], d["kind"])
        check(len(w.data) == len(g.data), "storm %r has %d records in the file run, %d alone" % (
            tr.trackId, len(g.data), len(w.data)))
        for f in ("Longitude", "Latitude", "CentralPressure", "EnvPressure", "rMax", "TimeElapsed"):
            check(np.allclose(w.data[f], g.data[f], rtol=1e-5, atol=1e-3), "%s of storm %r differs "
                  "from interpolating it alone" % (f, tr.trackId))
        check(max(abs((a - b).total_seconds()) for a, b in zip(w.Datetime, g.Datetime)) < 1,
              "times differ")
    check(os.path.exists(saved) == d["save"], "output file written: %r" % os.path.exists(saved))
    if d["save"]:
        ctx.klass("saved")
        again = ncReadTrackData(saved)
        check(len(again) == len(got), "%d storms saved, %d read" % (len(got), len(again)))
        for a in again:
            g = by[tuple(int(v) for v in a.trackId)]
            check(len(a.data) == len(g.data) and np.allclose(a.Longitude, g.Longitude, atol=1e-3)
                  and np.allclose(a.CentralPressure, g.CentralPressure, rtol=1e-5),
                  "the saved track differs from the interpolated one")
