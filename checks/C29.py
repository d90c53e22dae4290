"""The hazard database agrees with the model output."""
import math
import os

from hypothesis import strategies as st

from vf import Property, check, close, Violation, scratch
from vf import gust, mpi, tracks
from vf.gen import dec, edge

TECHNIQUE = ("generated locations, event wind fields, hazard grids and tracks turned into a "
             "database, whose tables and queries are compared with answers worked out from "
             "the generated data, for several worker counts and message orders")
NOTE = ("up to 6 locations, 8 events, 5 return periods and 4 track files; grids up to 7 x 6; "
        "1 to 6 ranks with scheduled message orders; building twice over the same file "
        "is a known finding")

prop = Property("C29", preload=("numpy", "netCDF4", "database"), assumptions=[
    "event files carry the attributes the wind-field stage writes",
    "longitudes of the domain are between 0 and 360"])

VERSION = "3.1.x"


@st.composite
def worlds(draw):
    nx, ny = draw(st.integers(2, 7)), draw(st.integers(2, 6))
    x0, y0 = draw(st.sampled_from([0, 100, 150, 340])), draw(st.sampled_from([-30, -12, 10]))
    step = draw(st.sampled_from([0.25, 0.5]))
    x1, y1 = x0 + step * (nx - 1), y0 + step * (ny - 1)
    locs = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 3, 4, 5, 6]))):
        # Most inside the domain, some on its edge, some outside.
        x = draw(edge(dec(x0, x1, 2), x0, x1))
        y = draw(edge(dec(y0, y1, 2), y0, y1))
        x, y = draw(st.sampled_from([(x, y)] * 5 + [(x0 - 0.01, y), (x1 + 0.01, y), (x, y0 - 0.01), (x, y1 + 0.01)]))
        locs.append([x, y, draw(st.sampled_from(["Town", "Pt O'Hara", "Same", "Same", "é"])),
                     draw(st.booleans())])
    events = draw(st.lists(st.tuples(edge(st.integers(0, 2), 999, 1000), edge(st.integers(0, 2), 11),
                                     st.integers(0, 10 ** 6)),
                           min_size=draw(st.sampled_from([0, 2, 2, 4, 5])), max_size=8, unique_by=lambda t: t[:2]))
    years = draw(st.lists(st.sampled_from([2, 5, 10, 20, 50, 100, 500]), min_size=1, max_size=5, unique=True))
    files = []
    tid = 0
    for _ in range(draw(st.integers(0, 3))):
        trk = []
        for _ in range(draw(st.integers(1, 3))):
            tid += 1
            trk.append(draw(tracks.points((x0 - 0.5, x1 + 0.5), (y0 - 0.5, y1 + 0.5), n=(1, 4))))
        files.append(trk)
    if files and draw(st.integers(0, 11)) == 0:
        # A long year, in which the same few paths recur.
        files[0] = (files[0] * 250)[:draw(st.integers(150, 250))]
    return {"nx": nx, "ny": ny, "x0": x0, "y0": y0, "step": step, "locs": locs,
            "events": [list(e) for e in events], "years": sorted(years), "tracks": files,
            "hseed": draw(st.integers(0, 10 ** 6)), "dates": draw(st.booleans()),
            "ranks": draw(st.sampled_from([1, 1, 2, 3, 4, 6])),
            "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=8)),
            "order": draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            "extras": draw(st.lists(st.sampled_from(["evolution", "folder", "note"]), unique=True, max_size=2)),
            "speed": draw(dec(0, 90, 1)), "distance": draw(dec(0, 300, 1))}


def axes(c):
    import numpy as np
    return c["x0"] + c["step"] * np.arange(c["nx"]), (c["y0"] + c["step"] * np.arange(c["ny"]))[::-1]


def fields(seed, ny, nx):
    import numpy as np
    r = np.random.RandomState(seed % (2 ** 31))
    v = np.round(r.uniform(0, 90, (ny, nx)), 1) * r.choice([0, 1, 1, 1], (ny, nx))
    a = r.uniform(0, 2 * math.pi, (ny, nx))
    p = np.round(r.uniform(88000, 101000, (ny, nx)), 0)
    return [x.astype("f4") for x in (v, v * np.cos(a), v * np.sin(a), p)]


def hazard_grid(c):
    import numpy as np
    r = np.random.RandomState(c["hseed"])
    ny, nx, n = c["ny"], c["nx"], len(c["years"])
    # Where there are too few events the level of a longer period may be lower.
    w = np.cumsum(r.uniform(1, 20, (n, ny, nx)), axis=0) if c["hseed"] % 3 else r.uniform(20, 80, (n, ny, nx))
    return {"wspd": w, "wspdupper": w + 3, "wspdlower": w - 2, "loc": r.uniform(20, 40, (ny, nx)),
            "scale": r.uniform(1, 9, (ny, nx)), "shp": r.uniform(-0.3, 0.3, (ny, nx))}


def build(c, root):
    """Model output of one simulation under `root`; returns the configuration file."""
    import numpy as np
    import netCDF4
    import shapefile
    from Utilities.track import ncSaveTracks
    out = os.path.join(root, "output")
    for d in ("windfield", "tracks", "hazard"):
        os.makedirs(os.path.join(out, d))
    lon, lat = axes(c)
    for sim, num, seed in c["events"]:
        f = os.path.join(out, "windfield", gust.NAME % (sim, num))
        data = fields(seed, c["ny"], c["nx"])
        gust.write(f, lon, lat, data[0])
        with netCDF4.Dataset(f, "a") as nc:
            for n, v in zip(("vmax", "ua", "va", "slp"), data):
                nc.variables[n][:] = v
                nc.variables[n].actual_range = np.array([v.min(), v.max()])
            nc.track_file = "/a/path/tracks.%05d.csv" % num
            nc.track_file_date = "2015-03-%02d 04:05:06" % (num + 1)
            nc.tcrm_version = VERSION
    gust.extras(os.path.join(out, "windfield"), c["extras"], lon, lat)
    h = hazard_grid(c)
    with netCDF4.Dataset(os.path.join(out, "hazard", "hazard.nc"), "w") as nc:
        for n, v in (("ari", c["years"]), ("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        for n, v in h.items():
            nc.createVariable(n, "f8", ("ari", "lat", "lon")[-v.ndim:])[:] = v
        nc.tcrm_version = VERSION
    tid = 0
    for k, trk in enumerate(c["tracks"]):
        made = []
        for n, pts in enumerate(trk):
            made.append(tracks.make(pts, tid=(n, k)))
        ncSaveTracks(os.path.join(out, "tracks", "tracks.%05d.nc" % k), made,
                     calendar="standard", timeunits="hours since 1900-01-01 00:00")
    with open(os.path.join(out, "tracks", "notes.txt"), "w") as f:
        f.write("x\n")
    shp = os.path.join(root, "places")
    with shapefile.Writer(shp, shapefile.POINT) as w:
        for n in ("WMO", "ICAO", "Place", "State", "Country", "Lat", "Lon"):
            w.field(n, "C", 20)
        w.field("Elevation", "N", 8, 1)
        for i, (x, y, name, wrap) in enumerate(c["locs"]):
            w.point(x - 360 if wrap else x, y)
            w.record("W%d" % i, "I%d" % i, name, "S", "AU", str(y), str(x), 10.5 * i)
    ini = os.path.join(root, "db.ini")
    with open(ini, "w") as f:
        f.write("[Region]\ngridLimit={'xMin':%r,'xMax':%r,'yMin':%r,'yMax':%r}\n"
                "[Output]\nPath=%s\n[Input]\nLocationFile=%s.shp\n"
                "[Process]\nDatFile=%s\nExcludePastProcessed=False\n" %
                (float(lon[0]), float(lon[-1]), float(lat[-1]), float(lat[0]), out, shp,
                 os.path.join(out, "db.dat")))
    return ini


def forget(close=()):
    """Drop the connections the module keeps; close those of the given files."""
    import sqlite3
    import database as D
    for v in list(vars(D).values()):
        if isinstance(v, dict):
            for k in [k for k in v if isinstance(v[k], sqlite3.Connection)]:
                if not close:
                    v.pop(k)
                elif k in close:
                    v.pop(k).close()
        elif hasattr(v, "cache_clear"):
            v.cache_clear()


class database:
    """Build the database on `ranks` ranks and open it."""

    def __init__(self, c, ini, ranks):
        self.c, self.ini, self.ranks = c, ini, ranks

    def __enter__(self):
        from Utilities import config
        import database as D
        config.reset()
        config.ConfigParser().read(self.ini)
        forget()

        def target(rank):
            from Utilities.parallel import attemptParallel
            attemptParallel()       # as the main program does first
            # Each rank is a process of its own, with its own connection.
            mine = self.ini + ("" if rank == 0 else ".%d" % rank)
            D.run(mine)
            forget([mine])
        with gust.shuffled(self.c["order"]):
            mpi.run_ranks(self.ranks, self.c["schedule"], target)
        forget()
        self.db = D.HazardDatabase(self.ini)
        return self.db

    def __exit__(self, *exc):
        self.db.close()


def nearest(axis, v):
    import numpy as np
    d = np.abs(np.asarray(axis) - v)
    m = d.min()
    return [i for i in range(len(axis)) if d[i] <= m + 1e-9]


def f32(x):
    return float(x)


def expected(c):
    """What the database should hold, by location (those in the domain)."""
    import numpy as np
    lon, lat = axes(c)
    places = {}
    for i, (x, y, name, wrap) in enumerate(c["locs"]):
        x = x % 360.0
        if lon[0] <= x <= lon[-1] and lat[-1] <= y <= lat[0]:
            places[i + 1] = (name, x, y)
    events = {"%03d-%05d" % (s, n): fields(seed, c["ny"], c["nx"]) for s, n, seed in c["events"]}
    return lon, lat, places, events


def near(a, b, tol=1e-4):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def one_of(grid, jj, ii, value, tol=1e-5):
    return any(near(grid[j][i], value, tol) for j in jj for i in ii)


def segment_km(p, pts):
    """Distance in km from a point to a line of points, in the plane of degrees."""
    best = None
    for k in range(max(1, len(pts) - 1)):
        ax, ay = pts[k]
        bx, by = pts[min(k + 1, len(pts) - 1)]
        dx, dy = bx - ax, by - ay
        t = 0.0 if dx == dy == 0 else ((p[0] - ax) * dx + (p[1] - ay) * dy) / (dx * dx + dy * dy)
        t = min(1.0, max(0.0, t))
        d = math.hypot(p[0] - ax - t * dx, p[1] - ay - t * dy)
        best = d if best is None else min(best, d)
    return best * 6367.0 * math.pi / 180


def compare(c, db, ctx=None):
    import database.queries as Q
    import numpy as np
    lon, lat, places, events = expected(c)
    h = hazard_grid(c)
    got = db.execute("SELECT locId, locName, locLon, locLat, locCode FROM tblLocations ORDER BY locId").fetchall()
    check([g[0] for g in got] == sorted(places), "locations %r, those in the domain are %r" %
          ([g[0] for g in got], sorted(places)))
    for i, name, x, y, code in got:
        check((name, code) == (places[i][0], "W%d" % (i - 1)) and near(x, places[i][1], 1e-9) and
              near(y, places[i][2], 1e-9), "location %r" % ((i, name, x, y),))
    loc = db.getLocations()
    check(len(loc) == len(places), "locations listed")

    rows = Q.selectEvents(db)
    check(sorted(str(r.eventId) for r in rows) == sorted(events) if len(rows) else not events,
          "events %r, files %r" % ([str(r[1]) for r in rows], sorted(events)))
    last = -1
    for r in (rows if len(rows) else []):
        v, u, w, p = events[r.eventId]
        num = int(r.eventId.split("-")[1])
        check(r.eventFile == "gust.%s.nc" % r.eventId and r.eventTrackFile == "tracks.%05d.csv" % num,
              "files of event %r" % (r,))
        check(near(r.eventMaxWind, v.max()) and near(r.eventMinPressure, p.min()), "extremes of event %r" % (r,))
        check(r.tcrmVer == VERSION and str(r.dtTrackFile) == "2015-03-%02d 04:05:06" % (num + 1), "origin of %r" % (r,))
        check(r.eventMaxWind >= last, "events not ordered by wind")
        last = r.eventMaxWind
    check(len({int(r.eventNum) for r in rows} if len(rows) else ()) == len(rows), "event numbers repeat")

    check(db.execute("SELECT count(*) FROM tblWindSpeed").fetchone()[0] == len(places) * len(events),
          "number of wind speed records")
    check(db.execute("SELECT count(*) FROM tblHazard").fetchone()[0] == len(places) * len(c["years"]),
          "number of return level records")
    all_tracks = {"%03d-%05d" % (n, k): [(p["lon"], p["lat"]) for p in pts]
                  for k, trk in enumerate(c["tracks"]) for n, pts in enumerate(trk)}
    check(db.execute("SELECT count(*) FROM tblTracks").fetchone()[0] == len(places) * len(all_tracks),
          "number of track records")

    for i, (name, x, y) in places.items():
        ii, jj = nearest(lon, x), nearest(lat, y)
        recs = Q.locationRecords(db, i)
        ids = [str(r.eventId) for r in recs] if len(recs) else []
        check(sorted(ids) == sorted(events), "wind records of location %d are for %r" % (i, ids))
        speed = {}
        for r in recs if len(recs) else []:
            v, u, w, p = events[r.eventId]
            ok = [(j, k) for j in jj for k in ii if near(v[j][k], r.wspd) and near(u[j][k], r.umax) and
                  near(w[j][k], r.vmax)]
            check(ok, "wind of %s at %s is %r, nearest grid points %r" %
                  (r.eventId, name, (r.wspd, r.umax, r.vmax), [(v[j][k], u[j][k], w[j][k]) for j in jj for k in ii]))
            check(r.locId == i and r.locName == name, "location of a wind record")
            pr = db.execute("SELECT pmin FROM tblWindSpeed WHERE locId=? AND eventId=?", (i, r.eventId)).fetchall()
            check(len(pr) == 1 and any(near(p[j][k], pr[0][0]) for j, k in ok), "pressure of %s" % r.eventId)
            speed[r.eventId] = r.wspd
        check(list(speed.values()) == sorted(speed.values()), "wind records not in order of wind")
        limit = c["speed"]
        for limit in [c["speed"]] + sorted(speed.values())[:1]:
            ex = Q.locationRecordsExceeding(db, i, float(limit))
            check(sorted((str(r.eventId), float(r.wspd)) for r in (ex if len(ex) else [])) ==
                  sorted((e, v) for e, v in speed.items() if v > limit), "events above %r at %s" % (limit, name))
            check(all(r.locId == i and r.locName == name for r in (ex if len(ex) else [])), "location of a record")
        levels = Q.locationAllReturnLevels(db, i)
        check([int(r.returnPeriod) for r in levels] == c["years"], "return periods %r" % (levels,))
        for k, r in enumerate(levels):
            check(any(near(h["wspd"][k][j][m], r.wspd) and near(h["wspdupper"][k][j][m], r.wspdUpper) and
                      near(h["wspdlower"][k][j][m], r.wspdLower) for j in jj for m in ii),
                  "return level of %d years at %s" % (r.returnPeriod, name))
            row = db.execute("SELECT loc, scale, shape FROM tblHazard WHERE locId=? AND returnPeriod=?",
                             (i, c["years"][k])).fetchall()
            check(len(row) == 1 and any(near(h["loc"][j][m], row[0][0]) and near(h["scale"][j][m], row[0][1]) and
                                        near(h["shp"][j][m], row[0][2]) for j in jj for m in ii), "parameters")
            ex = Q.locationReturnPeriodEvents(db, i, c["years"][k])
            check(sorted(str(e.eventId) for e in (ex if len(ex) else [])) ==
                  sorted(e for e, v in speed.items() if v > r.wspd), "events above the %d year level" % c["years"][k])
        dist = {}
        for e, d in db.execute("SELECT eventId, distClosest FROM tblTracks WHERE locId=?", (i,)).fetchall():
            check(e in all_tracks and e not in dist, "track record for %r" % e)
            want = segment_km((x, y), all_tracks[e])
            check(abs(d - want) <= 2e-3 * want + 1e-3, "closest approach of %s to %s is %r, not %r" % (e, name, d, want))
            dist[e] = d
        check(sorted(dist) == sorted(all_tracks), "tracks recorded for %s" % name)
        passed = Q.locationPassage(db, i, c["distance"])
        want = sorted(e for e, d in dist.items() if d < c["distance"] and e in events)
        check(sorted(str(r.eventId) for r in (passed if len(passed) else [])) == want,
              "passages within %r km of %s: %r, expected %r" % (c["distance"], name, passed, want))
        for r in passed if len(passed) else []:
            check(near(r.wspd, speed[r.eventId]) and near(r.distClosest, dist[r.eventId]) and
                  r.eventFile == "gust.%s.nc" % r.eventId and r.locId == i and r.locName == name, "passage %r" % (r,))
        both = Q.locationPassageWindSpeed(db, i, c["speed"], c["distance"])
        want2 = sorted(e for e in events if e in dist and speed[e] > c["speed"] and dist[e] <= c["distance"])
        check(sorted(str(r.eventId) for r in (both if len(both) else [])) == want2,
              "passages with wind: %r, expected %r" % (both, want2))
        for r in both if len(both) else []:
            v, u, w, p = events[r.eventId]
            check(near(r.wspd, speed[r.eventId]) and near(r.distClosest, dist[r.eventId]) and
                  near(r.maxwind, v.max()) and near(r.pmin, p.min()) and r.locName == name, "passage %r" % (r,))
        if ctx and want:
            ctx.klass("passages")
    for i in set(range(1, len(c["locs"]) + 2)) - set(places):
        for f, a in ((Q.locationRecords, ()), (Q.locationAllReturnLevels, ()), (Q.locationPassage, (1e5,)),
                     (Q.locationRecordsExceeding, (-1.0,)), (Q.locationPassageWindSpeed, (-1.0, 1e5))):
            check(len(f(db, i, *a)) == 0, "records for location %d, which is not in the domain" % i)


TABLES = {"tblLocations": "locId, locCode, locName, locLon, locLat, locElev, locCountry",
          "tblEvents": "eventNumber, eventId, eventFile, eventTrackFile, eventMaxWind, eventMinPressure",
          "tblWindSpeed": "locId, eventId, wspd, umax, vmax, pmin",
          "tblHazard": "locId, returnPeriod, wspd, wspdUpper, wspdLower, loc, scale, shape",
          "tblTracks": "locId, eventId, distClosest"}


def contents(db):
    return {t: sorted(db.execute("SELECT %s FROM %s" % (cols, t)).fetchall()) for t, cols in TABLES.items()}


@prop.facet(worlds, quick=190, thorough=3500,
            rule="a simulated output; non-trivial when a location in the domain has several "
                 "events and another location shares them")
def queries(c, ctx):
    lon, lat, places, events = expected(c)
    ctx.nontrivial(len(places) > 1 and len(events) > 1)
    ctx.klass("ranks %d" % c["ranks"], "locations %d" % min(len(places), 3), "events %d" % min(3, len(events)))
    with database(c, build(c, scratch()), c["ranks"]) as db:
        compare(c, db, ctx)


@prop.facet(worlds, quick=40, thorough=700,
            rule="an output built twice with different worker counts, message orders and "
                 "listing orders; non-trivial when several ranks share several events")
def rebuild(c, ctx):
    lon, lat, places, events = expected(c)
    ctx.nontrivial(len(events) > 1 and len(places) > 0)
    with database(c, build(c, scratch()), 1) as db:
        one = contents(db)
    other = dict(c, order=[1 + x for x in c["order"]], schedule=c["schedule"][::-1])
    ini = build(other, scratch())
    with database(other, ini, max(2, c["ranks"])) as db:
        two = contents(db)
    for t in TABLES:
        check(one[t] == two[t], "%s differs between one rank and %d" % (t, max(2, c["ranks"])))
    if places and (events or c["tracks"] or c["years"]):
        with database(other, ini, 1) as db:
            three = contents(db)
        for t in TABLES:
            check(one[t] == three[t], "%s changes when the database is built again over itself: %d records, then %d" %
                  (t, len(one[t]), len(three[t])), finding="rebuild-duplicates")
