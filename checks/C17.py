"""Track files: what is saved is what is read back."""
import math
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import Property, check, scratch
from vf import tracks as tk
from vf.gen import dec, edge

TECHNIQUE = ("property-based round trips of generated track collections through the netCDF and "
             "csv track files, and selection helpers against brute force")
NOTE = ("collections of up to 6 tracks of up to 40 points, all fields, four calendars, several "
        "time units, steps down to one second; repeated saves of the same tracks")

prop = Property("C17", preload=("numpy", "Utilities.track", "wind"), assumptions=[
    "times are whole seconds and dates are valid in the calendar chosen"])

COLS = ("CycloneNumber", "Datetime", "TimeElapsed", "Longitude", "Latitude", "Speed", "Bearing",
        "CentralPressure", "EnvPressure", "rMax")


@st.composite
def one_track(draw, maxlen=12):
    n = draw(edge(st.integers(1, maxlen), 1, 2))
    start = draw(st.sampled_from([(1900, 1, 1), (1981, 12, 31), (2000, 2, 28), (2004, 2, 29),
                                  (2100, 2, 28), (3456, 7, 9), (9997, 12, 30), (1950, 3, 1)]))
    step = draw(st.sampled_from([3600, 1800, 600, 21600, 1, 1200, 360, 7]))
    vals = st.one_of(dec(-180, 360, 3), st.floats(-1e3, 1e4, width=32), st.sampled_from(
        [0.0, -0.0, 1e-3, 123.456789012345]))
    rows = []
    for k in range(n):
        rows.append([draw(vals) for _ in range(7)])
    return {"start": start, "hour": draw(st.integers(0, 23)), "step": step, "rows": rows,
            "num": draw(st.integers(0, 9999)),
            "tid": (draw(st.integers(0, 999)), draw(st.integers(0, 99999)))}


@st.composite
def collections(draw):
    return {"tracks": draw(st.lists(one_track(), min_size=0, max_size=6)),
            "gap": draw(st.sampled_from([None, None, 0, 1])),
            "units": draw(st.sampled_from([None, None, "hours since 1900-01-01 00:00",
                                           "days since 1850-01-01 00:00",
                                           "minutes since 1970-01-01 00:00",
                                           "seconds since 2000-01-01 12:00"])),
            "calendar": draw(st.sampled_from([None, "standard", "julian", "gregorian",
                                              "proleptic_gregorian"])),
            "atts": draw(st.sampled_from([None, {}, {"title": "made up", "n": 3}])),
            "noid": draw(st.booleans())}


def build(spec):
    import numpy as np
    from Utilities.track import Track, TCRM_COLS, TCRM_FMTS
    dt = np.dtype({"names": TCRM_COLS, "formats": TCRM_FMTS})
    data = np.zeros(len(spec["rows"]), dtype=dt)
    t0 = datetime(*spec["start"], spec["hour"])
    for k, row in enumerate(spec["rows"]):
        vals = dict(zip(COLS[3:], row))
        vals.update(CycloneNumber=spec["num"], TimeElapsed=k * spec["step"] / 3600.0,
                    Datetime=t0 + timedelta(seconds=k * spec["step"]))
        data[k] = tuple(vals[c] for c in TCRM_COLS)
    t = Track(data)
    t.trackId = spec["tid"]
    return t


def equal(a, b, what):
    import numpy as np
    check(len(a.Longitude) == len(b.Longitude), "%s: %d points instead of %d"
          % (what, len(b.Longitude), len(a.Longitude)))
    for c in COLS:
        x, y = np.asarray(a.data[c]), np.asarray(b.data[c])
        check(x.dtype == y.dtype, "%s: %s has type %s" % (what, c, y.dtype))
        check(list(x) == list(y), "%s: %s reads %r, saved %r" % (what, c, list(y)[:5], list(x)[:5]))
    for d in b.Datetime:
        check(type(d) is datetime, "%s: date is a %s" % (what, type(d).__name__))


@prop.facet(lambda: st.fixed_dictionaries({
    "n": st.sampled_from([1003, 1050]), "t": one_track()}), quick=1, thorough=8,
    rule="a file of more than a thousand tracks is read back complete and in order")
def many_tracks(case, ctx):
    from Utilities.track import ncReadTrackData, ncSaveTracks
    tracks = []
    for k in range(case["n"]):
        s = dict(case["t"], rows=case["t"]["rows"][:2], num=k, tid=(k, 7))
        tracks.append(build(s))
    path = os.path.join(scratch(), "tracks.00001.nc")
    ncSaveTracks(path, tracks)
    got = ncReadTrackData(path)
    check(len(got) == case["n"], "%d tracks read, %d saved" % (len(got), case["n"]))
    for k in range(case["n"]):
        equal(tracks[k], got[k], "track %d" % k)
        check(tuple(got[k].trackId) == (k, 7), "track %d is identified as %r" % (k, got[k].trackId))
    ctx.nontrivial(True)


@prop.facet(collections, quick=260, rule="saved tracks are read back equal, in order, and unchanged")
def roundtrip(case, ctx):
    import copy
    from Utilities.track import Track, loadTracks, ncReadTrackData, ncSaveTracks
    tracks = [build(s) for s in case["tracks"]]
    want = [build(s) for s in case["tracks"]]
    if case["gap"] is not None and tracks:
        import numpy as np
        empty = Track(np.zeros(0, dtype=tracks[0].data.dtype))
        empty.trackId = (0, 0)
        tracks.insert(min(case["gap"], len(tracks)), empty)
    path = os.path.join(scratch(), "tracks.00001.nc")
    kw = {}
    if case["units"]:
        kw["timeunits"] = case["units"]
    if case["calendar"]:
        kw["calendar"] = case["calendar"]
    atts = copy.deepcopy(case["atts"])
    if atts is not None:
        kw["attributes"] = atts
    ncSaveTracks(path, tracks, **kw)
    ctx.klass(case["units"] or "default-units", case["calendar"] or "default-calendar",
              "n%d" % min(len(want), 3))
    if not tracks:
        check(not os.path.exists(path), "an empty collection leaves a file")
        return
    check(atts == case["atts"], "the caller's attributes are changed: %r" % atts)
    nonempty = [t for t in tracks if len(t.data)]
    for s, t in zip(want, nonempty):
        equal(s, t, "after saving, the caller's track")
        check(t.trackId == s.trackId, "saving changes the identity of a track")
    got = ncReadTrackData(path)
    check(len(got) == len(want), "%d tracks read, %d saved" % (len(got), len(want)))
    for k, (s, t) in enumerate(zip(want, got)):
        equal(s, t, "track %d" % k)
        check(tuple(t.trackId) == tuple(s.trackId), "track %d is identified as %r, saved as %r"
              % (k, t.trackId, s.trackId))
        check(t.trackfile == path, "track %d is said to be from %r" % (k, t.trackfile))
        check(t.trackMinPressure == min(s.CentralPressure), "minimum pressure of track %d" % k)
    # again, over the old file, with the tracks as read
    ncSaveTracks(path, got, **kw)
    for k, (s, t) in enumerate(zip(want, loadTracks(path))):
        equal(s, t, "track %d after a second save" % k)
    from netCDF4 import Dataset
    with Dataset(path) as nc:
        for key, v in (case["atts"] or {}).items():
            check(getattr(nc, key, None) == v, "file attribute %s is lost" % key)
        extra = set(nc.ncattrs()) - set(case["atts"] or {}) - {"created_on", "created_by"}
        check(not extra, "file attributes from elsewhere: %r" % extra)
    ctx.nontrivial(len(want) > 0 and any(len(s["rows"]) > 1 for s in case["tracks"]))


@prop.facet(lambda: st.lists(st.tuples(st.integers(0, 99999),
                                       st.lists(one_track(maxlen=4), min_size=1, max_size=3)),
                             min_size=0, max_size=4, unique_by=lambda t: t[0]),
            quick=60, rule="loading several files yields every track once, files in name order")
def directory(case, ctx):
    import wind
    from Utilities.parallel import attemptParallel
    from Utilities.track import loadTracksFromFiles, loadTracksFromPath, ncSaveTracks
    wind.MPI = attemptParallel()        # as wind.run() does
    d = scratch()
    want = []
    for num, specs in sorted(case):
        ncSaveTracks(os.path.join(d, "tracks.%05d.nc" % num), [build(s) for s in specs])
        want += [build(s) for s in specs]
    with open(os.path.join(d, "readme.txt"), "w") as f:
        f.write("not a track file")
    files = [os.path.join(d, "tracks.%05d.nc" % num) for num, _ in case]
    order = [build(s) for _, specs in case for s in specs]
    lim = {"xMin": -1e6, "xMax": 1e6, "yMin": -1e6, "yMax": 1e6}
    for what, got, exp in (("path", list(loadTracksFromPath(d)), want),
                           ("files", list(loadTracksFromFiles(files)), order),
                           ("wind path", list(wind.loadTracksFromPath(d, lim, 0.0)) if files else [],
                            want)):
        check(len(got) == len(exp), "%s: %d tracks instead of %d" % (what, len(got), len(exp)))
        for k, (s, t) in enumerate(zip(exp, got)):
            equal(s, t, "%s: track %d" % (what, k))
            check(tuple(t.trackId) == tuple(s.trackId), "%s: track %d identified as %r"
                  % (what, k, t.trackId))
    ctx.nontrivial(len(case) > 1)


@st.composite
def csv_cases(draw):
    out, num = [], 0
    for _ in range(draw(st.integers(1, 4))):
        num += draw(st.sampled_from([1, 1, 1, 2]))
        t = draw(one_track(maxlen=4))
        t["rows"] = [[draw(dec(90, 180, 2)), draw(dec(-40, 0, 2)), draw(dec(0, 80, 1)),
                      draw(dec(0, 359.9, 1)), draw(dec(900, 1000, 1)), draw(dec(1000, 1015, 1)),
                      draw(dec(5, 100, 1))] for _ in t["rows"]]
        t["num"] = num
        out.append(t)
    return out


@prop.facet(csv_cases, quick=100, rule="csv track files give every record once, in standard units")
def csv(case, ctx):
    import numpy as np
    from Utilities.track import readMultipleTrackData, readTrackData
    path = os.path.join(scratch(), "tracks.csv")
    with open(path, "w") as f:
        f.write("% CycloneNumber,Datetime,TimeElapsed(hr),Longitude(degree),Latitude(degree),"
                "Speed(km/hr),Bearing(degrees),CentralPressure(hPa),EnvPressure(hPa),rMax(km)\n")
        rows = []
        for t in case:
            t0 = datetime(*t["start"], t["hour"])
            for k, r in enumerate(t["rows"]):
                when = t0 + timedelta(seconds=k * t["step"])
                age = k * t["step"] / 3600.0
                f.write("%d,%s,%r,%s\n" % (t["num"], when.strftime("%Y-%m-%d %H:%M:%S")
                                           if when.year > 999 else when.isoformat(" "), age,
                                           ",".join("%r" % v for v in r)))
                rows.append((t["num"], when, age) + tuple(r))
    got = readTrackData(path)
    check(len(got) == len(rows), "%d records read of %d" % (len(got), len(rows)))
    for g, r in zip(got, rows):
        check(int(g["CycloneNumber"]) == r[0] and g["Datetime"] == r[1],
              "record %r reads as %r" % (r[:2], g))
        theta = (math.pi / 2 - math.radians(r[6])) % (2 * math.pi)
        for c, v, tol in (("TimeElapsed", r[2], 1e-5 * max(1, abs(r[2]))), ("Longitude", r[3], 0),
                          ("Latitude", r[4], 0), ("Speed", r[5] / 3.6, 1e-4),
                          ("CentralPressure", r[7] * 100, 1e-6), ("EnvPressure", r[8] * 100, 1e-6),
                          ("rMax", r[9], 0)):
            check(abs(float(g[c]) - v) <= tol, "%s reads %r, expected %r" % (c, float(g[c]), v))
        gap = (float(g["Bearing"]) - theta + math.pi) % (2 * math.pi) - math.pi
        check(abs(gap) < 1e-9, "direction reads %r, expected %r" % (float(g["Bearing"]), theta))
    parts = [p for p in readMultipleTrackData(path) if len(p)]
    check([int(p["CycloneNumber"][0]) for p in parts] == [t["num"] for t in case] and
          [len(p) for p in parts] == [len(t["rows"]) for t in case],
          "tracks separated into %r" % [(p["CycloneNumber"][0], len(p)) for p in parts])
    ctx.nontrivial(len(rows) > 1)


@prop.facet(lambda: st.fixed_dictionaries({
    "t": one_track(), "calendar": st.sampled_from(["standard", "julian", "proleptic_gregorian"]),
    "units": st.sampled_from(["hours since 1900-01-01 00:00", "minutes since 1990-01-01 00:00",
                              "days since 1950-01-01 00:00"])}),
    quick=60, rule="a file holding one track in plain variables is read")
def plain_file(case, ctx):
    import numpy as np
    from netCDF4 import Dataset, date2num
    from Utilities.track import ncReadTrackData
    t = build(case["t"])
    path = os.path.join(scratch(), "tracks.nc")
    with Dataset(path, "w") as nc:
        nc.createDimension("time", len(t.Longitude))
        for c in COLS:
            v = nc.createVariable(c, "i4" if c == "CycloneNumber" else "f8", ("time",))
            v[:] = (date2num(list(t.Datetime), case["units"], case["calendar"])
                    if c == "Datetime" else t.data[c])
        nc.time_units, nc.calendar = case["units"], case["calendar"]
        nc.trackId = repr(t.trackId)
    got = ncReadTrackData(path)
    check(len(got) == 1, "%d tracks read" % len(got))
    equal(t, got[0], "track")
    check(tuple(got[0].trackId) == tuple(t.trackId), "identity %r" % (got[0].trackId,))
    ctx.nontrivial(len(t.Longitude) > 1)


@st.composite
def place_cases(draw):
    pts = draw(st.lists(st.tuples(dec(-3, 3, 1), dec(-3, 3, 1)), min_size=1, max_size=6))
    x, y = draw(st.sampled_from([(0.0, 0.0), (150.0, -20.0), (178.0, 12.0)]))
    lim = sorted([draw(dec(-3, 3, 1)), draw(dec(-3, 3, 1))]), sorted([draw(dec(-3, 3, 1)),
                                                                       draw(dec(-3, 3, 1))])
    return {"pts": [(round(x + a, 1), round(y + b, 1)) for a, b in pts],
            "lim": {"xMin": round(x + lim[0][0], 1), "xMax": round(x + lim[0][1], 1),
                    "yMin": round(y + lim[1][0], 1), "yMax": round(y + lim[1][1], 1)},
            "margin": draw(st.sampled_from([0.0, 0.5, 2.0])),
            "at": [(round(x + draw(dec(-4, 4, 1)), 1), round(y + draw(dec(-4, 4, 1)), 1))
                   for _ in range(draw(st.integers(1, 4)))]}


@prop.facet(place_cases, quick=300, rule="selection helpers agree with the positions of the track")
def places(case, ctx):
    import numpy as np
    import wind
    from shapely.geometry import Point
    pts = case["pts"]
    t = tk.make([{"lon": a, "lat": b, "cp": 990.0, "ep": 1010.0, "rm": 30.0, "sp": 10.0, "be": 0.0}
                 for a, b in pts])
    lim, m = case["lim"], case["margin"]
    start = (lim["xMin"] <= pts[0][0] <= lim["xMax"]) and (lim["yMin"] <= pts[0][1] <= lim["yMax"])
    check(bool(t.inRegion(lim)) == start, "track starting at %r counts as %s the region"
          % (pts[0], "outside" if start else "inside"))
    inside = any(lim["xMin"] - m <= a <= lim["xMax"] + m and
                 lim["yMin"] - m <= b <= lim["yMax"] + m for a, b in pts)
    kept = wind.filterTracks([t], lim, m)
    if inside:
        check(len(kept) == 1 and kept[0] is t, "a track with a position near the domain is dropped")
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    clear = (max(xs) < lim["xMin"] - m or min(xs) > lim["xMax"] + m or
             max(ys) < lim["yMin"] - m or min(ys) > lim["yMax"] + m)
    if clear:
        check(kept == [], "a track wholly to one side of the domain is kept")
    check(wind.filterTracks([t], None, m) == [t], "without a domain tracks are dropped")

    def to_segment(p, a, b):
        ax, ay, bx, by = a[0], a[1], b[0], b[1]
        dx, dy = bx - ax, by - ay
        if dx == dy == 0:
            return math.hypot(p[0] - ax, p[1] - ay)
        s = max(0.0, min(1.0, ((p[0] - ax) * dx + (p[1] - ay) * dy) / (dx * dx + dy * dy)))
        return math.hypot(p[0] - ax - s * dx, p[1] - ay - s * dy)
    got = np.asarray(t.minimumDistance([Point(*p) for p in case["at"]]), float)
    check(got.shape == (len(case["at"]),), "distances have shape %r" % (got.shape,))
    for p, g in zip(case["at"], got):
        d = min([math.hypot(p[0] - q[0], p[1] - q[1]) for q in pts] +
                [to_segment(p, a, b) for a, b in zip(pts, pts[1:])])
        check(abs(g - d * 111.19) <= 0.005 * d * 111.19 + 1e-6,
              "distance of %r is %.3f km, expected about %.3f" % (p, g, d * 111.19))
    ctx.klass("inside" if inside else "clear" if clear else "between", "n%d" % min(len(pts), 3))
    ctx.nontrivial(len(pts) > 1)
