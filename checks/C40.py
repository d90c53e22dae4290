"""Station series are turned into local winds with the multiplier of their direction."""
import math
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import Property, check, scratch
from vf.gen import dec, edge

TECHNIQUE = ("generated station lists with eight multipliers, station series with winds from "
             "all directions; the local series recomputed value by value")
NOTE = "up to 14 stations, 2 to 8 times each; multipliers between 0.3 and 2.5"

prop = Property("C40", assumptions=[
    "station names and times have at most 16 characters",
    "a series has at least two times"])

POINTS = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]


@st.composite
def wind(draw):
    """Eastward and northward parts of a wind, to two decimals."""
    kind = draw(st.integers(0, 4))
    if kind == 0:
        a = draw(dec(0.01, 70, 2))
        return draw(st.sampled_from([(a, 0.0), (-a, 0.0), (0.0, a), (0.0, -a), (a, a), (a, -a),
                                     (-a, a), (-a, -a)]))
    if kind == 1:
        # next to a direction that has a multiplier
        a, b = draw(dec(10, 70, 2)), draw(st.sampled_from([0.01, -0.01]))
        return draw(st.sampled_from([(a, b), (-a, b), (b, a), (b, -a), (a, round(a + b, 2)),
                                     (-a, round(a + b, 2)), (a, -round(a + b, 2)),
                                     (-a, -round(a + b, 2))]))
    if kind == 2 and draw(st.booleans()):
        return 0.0, 0.0
    return draw(dec(-70, 70, 2)), draw(dec(-70, 70, 2))


@st.composite
def stations(draw):
    out = []
    n = draw(edge(st.integers(1, 5), 11, 14))
    ids = draw(st.lists(st.integers(1, 999), min_size=n, max_size=n, unique=True))
    for i in ids:
        m = draw(st.lists(dec(0.3, 2.5, 3), min_size=8, max_size=8))
        rows = []
        for _ in range(draw(st.integers(2, 8 if n < 6 else 3))):
            u, v = draw(wind())
            speed = 0.0 if u == v == 0.0 else round(math.hypot(u, v), 2)
            rows.append((speed, u, v, draw(dec(900, 1012, 2))))
        out.append({"id": i, "m": m, "rows": rows, "series": draw(st.integers(0, 4)) > 0,
                    "lon": draw(dec(110, 160, 3)), "lat": draw(dec(-30, -8, 3))})
    return {"stations": out, "number": draw(st.booleans()),
            "fields": draw(st.permutations(range(8))), "first": draw(st.booleans())}


def factor(u, v, m):
    """Linear between the two directions next to the one the wind comes from."""
    t = math.degrees(math.atan2(-u, -v)) % 360.0
    k = int(t // 45.0) % 8
    w = t / 45.0 - k if t < 360.0 else 0.0
    return (1 - w) * m[k] + w * m[(k + 1) % 8], t


def apart(a, b):
    """Difference of two directions."""
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


def read(name):
    with open(name) as f:
        lines = [x.rstrip("\n") for x in f]
    check(lines and lines[0] == "Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure",
          "%s: columns %r" % (os.path.basename(name), lines[:1]))
    return [[x.strip() for x in row.split(",")] for row in lines[1:]]


@prop.facet(stations, quick=300, thorough=5000,
            rule="station list and series; non-trivial with two or more series that hold winds "
                 "from different directions")
def local_series(d, ctx):
    import shapefile
    from Utilities import config
    from Utilities.tsmultipliers import process_timeseries
    path = scratch()
    series = os.path.join(path, "process", "timeseries")
    os.makedirs(series)
    loc = os.path.join(path, "stations.shp")
    with shapefile.Writer(loc, shapeType=shapefile.POINT) as w:
        key = ("N", {"size": 8, "decimal": 0}) if d["number"] else ("C", {"size": 16})
        if d["first"]:
            w.field("STATION", key[0], **key[1])
        for k in d["fields"]:
            w.field("m4_" + POINTS[k], "N", size=10, decimal=4)
        w.field("NAME", "C", size=12)
        if not d["first"]:
            w.field("STATION", key[0], **key[1])
        for s in d["stations"]:
            w.point(s["lon"], s["lat"])
            i = s["id"] if d["number"] else "S%03d" % s["id"]
            m = [s["m"][k] for k in d["fields"]]
            w.record(*([i] + m + ["x"] if d["first"] else m + ["x", i]))
    t0 = datetime(2001, 2, 27, 22)
    times = {}
    for s in d["stations"]:
        s = dict(s, id=str(s["id"]) if d["number"] else "S%03d" % s["id"])
        if not s["series"]:
            continue
        with open(os.path.join(series, "ts.%s.csv" % s["id"]), "w") as f:
            f.write("Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure\n")
            for k, (speed, u, v, p) in enumerate(s["rows"]):
                t = (t0 + timedelta(minutes=5 * k)).strftime("%Y-%m-%d %H:%M")
                f.write("%s,%s,%9.5f,%9.5f,%6.2f,%6.2f,%6.2f,%6.2f,%7.2f\n" % (
                    s["id"], t, s["lon"], s["lat"], speed, u, v, 0.0, p))
                times[s["id"], k] = t
    ini = os.path.join(path, "c.ini")
    with open(ini, "w") as f:
        f.write("[Output]\nPath=%s\n[Input]\nLocationFile=%s\n[Timeseries]\nStationID=STATION\n"
                % (path, loc))
    config.reset()
    try:
        process_timeseries(ini)
    finally:
        config.reset()
    out = os.path.join(series, "local")
    names = ["S%03d" % s["id"] if not d["number"] else str(s["id"])
             for s in d["stations"] if s["series"]]
    left = sorted(n for n in os.listdir(out) if n.startswith("ts."))
    check(left == sorted("ts.%s.csv" % n for n in names), "local series %r" % left)
    top, low = (read(os.path.join(out, n)) for n in ("local_maxima.csv", "local_minima.csv"))
    for rows in (top, low):
        check([r[0] for r in rows] == names, "stations %r, expected %r" % ([r[0] for r in rows], names))
    k = -1
    seen = set()
    for s in d["stations"]:
        if not s["series"]:
            continue
        k += 1
        n = names[k]
        got = read(os.path.join(out, "ts.%s.csv" % n))
        check(len(got) == len(s["rows"]), "%s: %d times, expected %d" % (n, len(got), len(s["rows"])))
        speeds = []
        for j, (row, (speed, u, v, p)) in enumerate(zip(got, s["rows"])):
            check(row[:2] == [n, times[n, j]], "%s: row of %r" % (n, row[:2]))
            x = [float(c) for c in row[2:]]
            check(all(abs(a - b) < 1e-6 for a, b in zip(
                x[:2] + x[3:5] + x[6:], [s["lon"], s["lat"], u, v, p])),
                "%s: row %r of wind %r, pressure %r" % (n, row, (u, v), p))
            m, t = factor(u, v, s["m"])
            speeds.append(speed * m)
            check(abs(x[2] - speed * m) <= 1e-6 * (1 + speed * m),
                  "%s: wind %r from %.3f becomes %r, expected %r (multipliers %r)" % (
                      n, speed, t, x[2], speed * m, s["m"]))
            check(x[5] == 0 if speed == 0 else apart(x[5], t) < 1e-6,
                  "%s: bearing %r of a wind from %r" % (n, x[5], t))
            seen.add(int(t // 45))
            ctx.klass("calm" if speed == 0 else "towards a point" if t % 45 == 0 else "between")
        for rows, column, want, what in (
                (top, 4, max(speeds), "highest wind"),
                (low, 8, min(r[3] for r in s["rows"]), "lowest pressure")):
            check(abs(float(rows[k][column]) - want) < 0.0051, "%s: %s %r, expected %r" % (
                n, what, rows[k][column], want))
            # the rest of the row belongs to the same time
            same = [r for r in got if r[1] == rows[k][1]]
            check(len(same) == 1 and all(abs(float(a) - float(b)) < 0.0051
                                         for a, b in zip(same[0][2:], rows[k][2:])),
                  "%s: row of the %s %r is not one of the series" % (n, what, rows[k]))
    ctx.klass("%d stations" % (len(names) if len(names) < 3 else 3 if len(names) < 11 else 11))
    ctx.nontrivial(len(names) > 1 and len(seen) > 2)
