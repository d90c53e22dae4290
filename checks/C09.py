"""Station time series report the wind at the station's nearest grid point."""
import csv
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import Property, Skip, check, close, scratch
from vf.gen import dec, edge

TECHNIQUE = "property-based testing against a nearest-point reference and re-read reports"
NOTE = "random station lists (csv and shapefile), grids and up to 45 time steps"

prop = Property("C09", preload=("numpy", "Utilities.timeseries"), assumptions=[
    "one process writes the reports; station longitudes are in the grid's range",
    "reports are text with two decimals"])


@st.composite
def series_cases(draw):
    res = draw(st.sampled_from([0.1, 0.25, 0.05, 0.5]))
    x0 = draw(st.sampled_from([110.0, 0.0, 178.5]))
    y0 = draw(st.sampled_from([-20.0, 8.5]))
    shp = draw(st.booleans())
    names = st.text("ABCDEFGHXYZ0123456789_", min_size=1, max_size=10)
    ids = draw(st.lists(names if draw(st.booleans()) else
                        st.integers(1, 99999).map(str), min_size=1, max_size=5, unique=True))
    stations = []
    for i in ids:
        cells = st.one_of(dec(0, 18, 2), st.integers(0, 18), dec(0, 36, 0).map(lambda k: k / 2))
        stations.append({"id": i,
                         "lon": round(draw(edge(cells.map(lambda k: x0 + res * k), x0, x0 + 8)), 3),
                         "lat": round(draw(edge(cells.map(lambda k: y0 + res * k), y0, y0 - 1.0)), 3)})
    n = draw(edge(st.integers(1, 12), 16, 23, 45))
    steps = []
    for k in range(n):
        steps.append({"x": draw(st.integers(0, 6)), "y": draw(st.integers(0, 6)),
                      "nx": draw(st.integers(2, 12)), "ny": draw(st.integers(2, 12)),
                      "seed": draw(st.integers(0, 9999)),
                      "calm": draw(st.sampled_from([False] * 4 + [True])),
                      "peak": draw(st.sampled_from([50, 50, 50, 1]))})
    return {"res": res, "x0": x0, "y0": y0, "shp": shp, "stations": stations, "steps": steps,
            "key": draw(st.booleans()), "dt": draw(st.sampled_from([1, 3, 0.5]))}


def number(text):
    return float(text)


@prop.facet(series_cases, quick=220, rule="a station inside some but not all step grids")
def series(c, ctx):
    import numpy as np
    import shapefile
    from Utilities.config import reset
    from Utilities.timeseries import Timeseries
    reset()
    path = scratch()
    os.makedirs(os.path.join(path, "process", "timeseries"))
    if c["shp"]:
        loc = os.path.join(path, "stations.shp")
        with shapefile.Writer(loc, shapeType=shapefile.POINT) as w:
            w.field("WMO", "C", size=20)
            w.field("OTHER", "C", size=5)
            for s in c["stations"]:
                w.point(s["lon"], s["lat"])
                w.record(s["id"], "x")
        ids = [s["id"] for s in c["stations"]]
    else:
        loc = os.path.join(path, "stations.csv")
        with open(loc, "w") as f:
            for s in c["stations"]:
                f.write("%s,%.3f,%.3f\n" % (s["id"], s["lon"], s["lat"]))
        ids = [s["id"] for s in c["stations"]]
    cfg = os.path.join(path, "c.ini")
    with open(cfg, "w") as f:
        f.write("[Output]\nPath=%s\n[Timeseries]\nExtract=True\nLocationFile=%s\nStationID=WMO\n"
                % (path, loc))
    ts = Timeseries(cfg)
    check(len(ts.stations) == len(ids), "%d stations loaded of %d" % (len(ts.stations), len(ids)))
    t0 = datetime(2001, 2, 27, 22)
    want = {i: [] for i in ids}
    ever = {i: 0 for i in ids}
    for k, s in enumerate(c["steps"]):
        gx = np.round(c["x0"] + c["res"] * np.arange(s["x"], s["x"] + s["nx"]), 6)
        gy = np.round(c["y0"] + c["res"] * np.arange(s["y"], s["y"] + s["ny"]), 6)
        rng = np.random.RandomState(s["seed"])
        u = rng.uniform(-1, 1, (s["ny"], s["nx"])) * s["peak"] * (not s["calm"])
        v = rng.uniform(-1, 1, (s["ny"], s["nx"])) * s["peak"] * (not s["calm"])
        p = rng.uniform(90000, 101000, (s["ny"], s["nx"]))
        sp = np.hypot(u, v)
        when = t0 + timedelta(hours=c["dt"] * k)
        arrays = [a.copy() for a in (sp, u, v, p, gx, gy)]
        ts.extract(when, *arrays)
        check(all((a == b).all() for a, b in zip(arrays, (sp, u, v, p, gx, gy))),
              "extraction changed the wind field")
        for st_ in c["stations"]:
            x, y = st_["lon"], st_["lat"]
            inside = gx[0] <= x <= gx[-1] and gy[0] <= y <= gy[-1]
            if inside:
                ever[st_["id"]] += 1
                ix = [i for i in range(len(gx)) if abs(gx[i] - x) <= abs(gx - x).min() + 1e-7]
                iy = [i for i in range(len(gy)) if abs(gy[i] - y) <= abs(gy - y).min() + 1e-7]
                opts = [(sp[j, i], u[j, i], v[j, i],
                         np.degrees(np.arctan2(-u[j, i], -v[j, i])) % 360, p[j, i])
                        for j in iy for i in ix]
            else:
                opts = [(0.0, 0.0, 0.0, None, None)]
            want[st_["id"]].append((when, opts))
    ts.shutdown()
    ctx.nontrivial(any(0 < n < len(c["steps"]) for n in ever.values()))
    ctx.klass("shp" if c["shp"] else "csv", "steps>10" if len(c["steps"]) > 10 else "steps<=10")
    out = os.path.join(path, "process", "timeseries")
    felt = {}
    for i, s in zip(ids, c["stations"]):
        name = os.path.join(out, "ts.%s.csv" % i)
        wind = any(max(o[0] for o in opts) > 0 for _, opts in want[i])
        if not wind:
            check(not os.path.exists(name), "station %s felt no wind but has a series" % i)
            continue
        check(os.path.exists(name), "station %s felt wind but has no series" % i)
        with open(name) as f:
            rows = list(csv.DictReader(f))
        check(len(rows) == len(want[i]), "station %s: %d records for %d steps"
              % (i, len(rows), len(want[i])))
        for k, (row, (when, opts)) in enumerate(zip(rows, want[i])):
            check(row["Station"].strip() == i, "station name %r in the series of %s"
                  % (row["Station"], i))
            check(row["Time"].strip()[:16] == when.strftime("%Y-%m-%d %H:%M"),
                  "step %d has time %r, expected %s" % (k, row["Time"], when))
            close([number(row["Longitude"]), number(row["Latitude"])], [s["lon"], s["lat"]],
                  "position of the station", atol=2e-5)
            got = [number(row[n]) for n in ("Speed", "UU", "VV", "Bearing", "Pressure")]
            fits = any(all(w is None or abs(g - w) <= (0.011 if n != 3 else 0.011) or
                           (n == 3 and (abs(abs(g - w) - 360) <= 0.011 or o[0] == 0))
                           for n, (g, w) in enumerate(zip(got, o))) for o in opts)
            check(fits, "station %s step %d: got %s, nearest grid point has %s"
                  % (i, k, got, opts))
        felt[i] = rows
    for fn, col, pick in (("maxima.csv", "Speed", max), ("minima.csv", "Pressure", min)):
        with open(os.path.join(path, "process", fn)) as f:
            rows = {r["Station"].strip(): r for r in csv.DictReader(f)}
        check(sorted(rows) == sorted(felt), "%s lists %s, stations with wind are %s"
              % (fn, sorted(rows), sorted(felt)))
        for i, r in rows.items():
            best = pick(number(q[col]) for q in felt[i])
            check(abs(number(r[col]) - best) < 0.011, "%s: station %s has %s, series gives %s"
                  % (fn, i, r[col], best))
            check(any(all(q[n].strip() == r[n].strip() for n in r) for q in felt[i]
                      if abs(number(q[col]) - best) < 0.011),
                  "%s: record of station %s is not one of its series" % (fn, i))


@prop.facet(lambda: st.fixed_dictionaries({
        "n": st.integers(0, 120), "chunks": st.lists(st.integers(0, 40), max_size=5)}),
    quick=120, rule="more records than the initial capacity")
def growing(c, ctx):
    """The record array keeps every record in order while it grows."""
    import numpy as np
    from Utilities.dynarray import DynamicRecArray
    a = DynamicRecArray(dtype={"names": ("a", "b"), "formats": ("i8", "U8")})
    want = []
    for k in range(c["n"]):
        a.append((k, "r%d" % k))
        want.append((k, "r%d" % k))
        if k % 17 == 0:
            check(len(a) == len(want), "length %d after %d appends" % (len(a), len(want)))
    for m in c["chunks"]:
        recs = [(len(want) + i, "x%d" % i) for i in range(m)]
        a.extend(recs)
        want += recs
    ctx.nontrivial(len(want) > 10)
    check([tuple(r) for r in a.data.tolist()] == want, "records lost or reordered")
