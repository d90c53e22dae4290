"""Derived parameters: every number belongs to the observation it is listed with."""
import math
import os

from hypothesis import strategies as st

from vf import Property, check, scratch
from vf import records as rec

TECHNIQUE = ("property-based processing of generated observation files; every list written is "
             "compared entry by entry with the observations")
NOTE = ("records of up to 8 storms of up to 9 observations with repeated times, jumps, missing "
        "pressures, single-observation storms; all lists the statistics stage reads")

prop = Property("C19", preload=("numpy", "DataProcess.DataProcess"), assumptions=[
    "dates lie after 1900", "pressures flagged missing are blank, 0, -999 or 9999",
    "the record is processed to text files, the format the later stages read"])

GONE = 1e18


@st.composite
def files(draw, **kw):
    rows = draw(rec.records(max_storms=8, **kw))
    lay = draw(rec.layouts())
    for r in rows:
        if draw(st.integers(0, 15)) == 0:
            # not a wind
            r["v"] = draw(st.sampled_from([999.0, 250.0, 202.0]))
    if lay["dates"] == "columns":
        for r in rows:
            r["t"][4] = 0
    if lay["dates"] == "hhmm" and all(r["t"][3] == 0 for r in rows):
        lay["dates"] = "minute"
    start = 1900
    if lay["ids"] in ("serial", "season") and lay["dates"] != "age" and draw(st.booleans()):
        start = draw(st.sampled_from(sorted(set(rec.season(r) for r in rows))))
    return {"rows": rows, "layout": lay, "start": start, "across": 15.0,
            "bands": draw(st.sampled_from([7, 20, 45, 400])),
            "region": around(draw, draw(st.sampled_from(rows)))}


def around(draw, row):
    w, h = draw(st.integers(2, 20)), draw(st.integers(2, 12))
    west = round(row["lon"]) - draw(st.integers(0, w + 2))
    south = round(row["lat"]) - draw(st.integers(0, h + 2))
    return {"xMin": west, "xMax": west + w, "yMin": south, "yMax": south + h}


def island(case, lon):
    """Land in every other band of longitude; None too close to a coast."""
    w = case["bands"]
    if min(lon % w, w - lon % w) < 1.0 or not 1.0 < lon < 359.0:
        return None
    return int(lon // w) % 2


def run(case, restrict=False):
    import numpy as np
    from netCDF4 import Dataset
    from Utilities import config
    from DataProcess.DataProcess import DataProcess
    path = scratch()
    mask = os.path.join(path, "mask.nc")
    x, y = np.arange(0, 360.5, 0.5), np.arange(-90, 90.5, 5.0)
    with Dataset(mask, "w") as nc:
        for n, v in (("lat", y), ("lon", x)):
            nc.createDimension(n, len(v))
            nc.createVariable(n, "f8", (n,))[:] = v
        v = nc.createVariable("landmask", "f4", ("lat", "lon"))
        v[:] = np.tile((x // case["bands"]) % 2, (len(y), 1))
    region = case["region"]
    extra = ("[Input]\nLandMask=%s\n\n[Output]\nPath=%s\nFormat=txt\n\n[Region]\ngridLimit=%r\n"
             % (mask, path, region))
    rec.write(case, path, extra=extra, start=case["start"])
    config.reset()
    dp = DataProcess(os.path.join(path, "tc.ini"))
    dp.processData(restrictToWindfieldDomain=restrict)
    return path


def table(path, name, cols=None):
    import numpy as np
    f = os.path.join(path, "process", name)
    check(os.path.exists(f), "no list %s" % name)
    rows = []
    with open(f) as fh:
        for line in fh:
            if not line.startswith("%") and line.strip():
                rows.append([float(v) for v in line.replace(",", " ").split()])
    if cols:
        check(all(len(r) == cols for r in rows), "%s does not have %d columns" % (name, cols))
        return np.array(rows).reshape(-1, cols)
    return np.array(rows).reshape(-1)


def wrap(d):
    return (d + 180.0) % 360.0 - 180.0


def near(got, want, tol, what):
    check(abs(got - want) <= tol, "%s is %r, should be %r" % (what, got, want))


def missing(got, what):
    check(got > GONE, "%s is %r, should be missing" % (what, got))


def blank(got, what):
    """Left blank in the file: not a number, or flagged as missing."""
    check(got != got or got > GONE or got < 0, "%s is %r, should be missing" % (what, got))


def same(a, b, name):
    """Lists of numbers written separately from the same values."""
    check(len(a) == len(b), "%s has %d entries, should have %d" % (name, len(a), len(b)))
    for i, (u, v) in enumerate(zip(a, b)):
        if v > GONE:
            missing(u, "%s entry %d" % (name, i))
        elif v != v:
            blank(u, "%s entry %d" % (name, i))
        else:
            near(u, v, 0.0051 + 1e-6 * abs(v), "%s entry %d" % (name, i))


def processed(case, path, rows, ctx):
    """Compare everything written with the observations."""
    lay = case["layout"]
    n = len(rows)
    first = rec.splits(case, rows, 15.0)
    second = [i > 0 and first[i - 1] and not first[i] for i in range(n)]
    lonely = [first[i] and (i == n - 1 or first[i + 1]) for i in range(n)]
    hours = [None if first[i] else
             (rec.when(rows[i]) - rec.when(rows[i - 1])).total_seconds() / 3600.0
             for i in range(n)]
    starts = [i for i in range(n) if first[i]]
    multi = [i for i in starts if not lonely[i]]

    allpos = table(path, "all_lon_lat", 3)
    tracks = table(path, "cyclone_tracks", 4)
    check(len(allpos) == n, "%d positions from %d observations" % (len(allpos), n))
    check(len(tracks) == n, "%d track positions from %d observations" % (len(tracks), n))
    for i, r in enumerate(rows):
        near(allpos[i][0], r["lon"], 0.0051, "longitude %d" % i)
        near(allpos[i][1], r["lat"], 0.0051, "latitude %d" % i)
        land = island(case, r["lon"])
        if land is not None:
            check(allpos[i][2] == land, "position %d is flagged %r, should be %r"
                  % (i, allpos[i][2], land))
        check(tracks[i][0] == first[i], "position %d of the tracks starts a storm: %r"
              % (i, tracks[i][0]))
        check(list(tracks[i][1:]) == list(allpos[i]), "position %d differs between the lists" % i)
    for name, idx in (("origin_lon_lat", starts), ("init_lon_lat", multi)):
        got = table(path, name, 3)
        check(len(got) == len(idx), "%s has %d entries for %d storms" % (name, len(got), len(idx)))
        for g, i in zip(got, idx):
            check(list(g) == list(allpos[i]), "%s holds %r for the storm starting at %r"
                  % (name, list(g), list(allpos[i])))

    speed, bear = table(path, "all_speed"), table(path, "all_bearing")
    pres, prate = table(path, "all_pressure"), table(path, "pressure_rate")
    srate, brate = table(path, "speed_rate"), table(path, "bearing_rate")
    wind = table(path, "wind_speed")
    for name, v in (("all_speed", speed), ("all_bearing", bear), ("all_pressure", pres),
                    ("pressure_rate", prate), ("speed_rate", srate), ("bearing_rate", brate),
                    ("wind_speed", wind)):
        check(len(v) == n, "%s has %d entries for %d observations" % (name, len(v), n))
    for i, r in enumerate(rows):
        at = "observation %d: " % i
        if r["gone"]:
            missing(pres[i], at + "pressure")
        else:
            near(pres[i], r["p"], 0.006 + 3e-4 * r["p"], at + "pressure")
        if not lay["vmax"]:
            missing(wind[i], at + "wind speed")
        elif not (lay["blanks"] and r["vgone"]) and r["v"] > 200.5:
            missing(wind[i], at + "wind speed")
        elif lay["blanks"] and r["vgone"]:
            blank(wind[i], at + "wind speed")
        else:
            near(wind[i], r["v"], 0.011 + 4e-4 * r["v"] + (
                0.51 * rec.SPEED[lay["speed"]] if lay["whole"] else 0.0), at + "wind speed")
        if first[i]:
            for name, v in (("speed", speed), ("bearing", bear), ("pressure rate", prate),
                            ("speed rate", srate), ("bearing rate", brate)):
                missing(v[i], at + name)
            continue
        b, h = rows[i - 1], hours[i]
        far = rec.distance(b, r)
        if h < 0 and far < 0.01:
            pass
        elif h <= 0 or far / h > 206:
            missing(speed[i], at + "speed")
        elif far / h < 194:
            near(speed[i], far / h, 0.006 + (0.02 + 0.02 * abs(b["lat"] - r["lat"])) * far / h
                 + 0.02 / h, at + "speed")
        if far > 1:
            d = abs(wrap(bear[i] - rec.heading(b, r)))
            check(d < 0.5 + 1.5 * abs(b["lat"] - r["lat"]), at + "bearing %r, should be %r"
                  % (bear[i], rec.heading(b, r)))
        if r["gone"] or b["gone"] or h == 0:
            missing(prate[i], at + "pressure rate")
        elif h > 0:
            rate = (r["p"] - b["p"]) / h
            tol = 0.006 + 0.005 / h + 3e-4 * abs(rate)
            if abs(rate) > 10 + tol:
                missing(prate[i], at + "pressure rate")
            elif abs(rate) < 10 - tol:
                near(prate[i], rate, tol, at + "pressure rate")
        if second[i]:
            missing(srate[i], at + "speed rate")
            missing(brate[i], at + "bearing rate")
            continue
        if speed[i] > GONE or speed[i - 1] > GONE:
            missing(srate[i], at + "speed rate")
        elif h > 0:
            near(srate[i], (speed[i] - speed[i - 1]) / h, 0.006 + 0.011 / h, at + "speed rate")
        if h == 0:
            missing(brate[i], at + "bearing rate")
        elif h > 0:
            d = wrap(bear[i] - bear[i - 1])
            tol = 0.006 + 0.011 / h + 1e-6 * abs(d / h)
            if abs(abs(d) - 180.0) > 0.03:
                near(brate[i], d / h, tol, at + "bearing rate")
            else:
                near(abs(brate[i]), abs(d) / h, tol, at + "bearing rate")

    same(table(path, "init_speed"), [speed[i + 1] for i in multi], "init_speed")
    same(table(path, "init_bearing"), [bear[i + 1] for i in multi], "init_bearing")
    same(table(path, "init_pressure"), [pres[i] for i in starts], "init_pressure")
    later = [i for i in range(n) if not first[i] and not second[i]]
    same(table(path, "speed_no_init"), [speed[i] for i in later], "speed_no_init")
    same(table(path, "bearing_no_init"), [bear[i] for i in later], "bearing_no_init")
    same(table(path, "pressure_no_init"), [pres[i] for i in range(n) if not first[i]
                                           and not rows[i]["gone"]], "pressure_no_init")
    if lay["rmax"]:
        size, rate = table(path, "all_rmax"), table(path, "rmax_rate")
        check(len(size) == n and len(rate) == n, "sizes of %d, rates of %d of %d observations"
              % (len(size), len(rate), n))
        for i, r in enumerate(rows):
            if lay["blanks"] and r["rgone"]:
                blank(size[i], "size %d" % i)
            else:
                near(size[i], r["r"], 0.006 + 4e-4 * r["r"] + 0.001, "size %d" % i)
            if (first[i] or hours[i] == 0 or lay["blanks"] and
                    (r["rgone"] or rows[i - 1]["rgone"])):
                missing(rate[i], "size rate %d" % i)
            elif hours[i] > 0:
                want = (r["r"] - rows[i - 1]["r"]) / hours[i]
                near(rate[i], want, 0.006 + 4e-4 * abs(want) + 0.004 / hours[i], "size rate %d" % i)
        same(table(path, "init_rmax"), [size[i] for i in starts], "init_rmax")
        same(table(path, "rmax_no_init"), [size[i] for i in range(n) if not first[i]
                                           and not (lay["blanks"] and rows[i]["rgone"])],
             "rmax_no_init")
    return first, starts


def dates(case, path, rows, starts):
    lay = case["layout"]
    season = lay["ids"] in ("serial", "season")
    if season:
        want = [rec.season(rows[i]) for i in starts]
    elif lay["dates"] == "age":
        want = None
    else:
        want = [rows[i]["t"][0] for i in starts]
    if want is not None:
        got = [int(v) for v in table(path, "origin_year")]
        check(got == want, "genesis years %r, should be %r" % (got, want))
    if lay["dates"] == "age":
        return
    years = [r["t"][0] for r in rows]
    if min(years) != max(years):
        import collections
        # this list is separated by commas
        freq = table(path, "frequency", 2)
        count = collections.Counter(years[i] for i in starts)
        got = {int(a): int(b) for a, b in freq}
        check(got == {y: count.get(y, 0) for y in range(min(years), max(years) + 1)},
              "storms by year %r, should be %r" % (got, dict(count)))

    def day(r):
        t = rec.when(r)
        d = t.timetuple().tm_yday
        leap = t.year % 4 == 0
        return d - 1 if leap and d >= 60 else d
    got = [int(v) for v in table(path, "jdays")]
    check(got == [day(rows[i]) for i in starts], "genesis days %r, should be %r"
          % (got, [day(rows[i]) for i in starts]))
    for name, idx in (("jday_genesis", starts), ("jday_obs", range(len(rows)))):
        import collections
        hist = table(path, name, 2)
        want = collections.Counter(day(rows[i]) for i in idx)
        check([int(a) for a, _ in hist] == list(range(1, 366)), "%s covers %d days"
              % (name, len(hist)))
        check({int(a): int(b) for a, b in hist if b} == dict(want),
              "%s: %r, should be %r" % (name, {int(a): int(b) for a, b in hist if b}, dict(want)))


def kept(case):
    if case["layout"]["ids"] in ("serial", "season") and case["layout"]["dates"] != "age":
        return [r for r in case["rows"] if rec.season(r) >= case["start"]]
    return case["rows"]


def label(case, ctx, rows, first):
    lay = case["layout"]
    ctx.klass("ids-" + lay["ids"], "dates-" + lay["dates"])
    if len(rows) < len(case["rows"]):
        ctx.klass("seasons-dropped")
    if any(r["gone"] for r in rows):
        ctx.klass("missing-pressure")
    if any(f and i and rows[i]["sid"] == rows[i - 1]["sid"] for i, f in enumerate(first)):
        ctx.klass("jump")
    ctx.nontrivial(sum(first) > 1 and len(rows) > sum(first) + 2)


@prop.facet(lambda: files(), quick=700,
            rule="each derived quantity is listed with the observation or storm it belongs to")
def lists(case, ctx):
    rows = kept(case)
    if rec.borderline(rows, 15.0):
        return
    path = run(case)
    first, starts = processed(case, path, rows, ctx)
    dates(case, path, rows, starts)
    label(case, ctx, rows, first)


@prop.facet(lambda: files(min_storms=3), quick=250,
            rule="restricted to a region, whole storms that start in the domain are kept")
def restricted(case, ctx):
    if rec.borderline(case["rows"], 15.0) or case["layout"]["dates"] == "age":
        return
    box = case["region"]
    storms = []
    for o in case["rows"]:
        if not storms or storms[-1][-1]["sid"] != o["sid"]:
            storms.append([])
        storms[-1].append(o)
    dom = dict(box)
    for s in storms:
        inside = [i for i, o in enumerate(s) if box["xMin"] <= o["lon"] <= box["xMax"]
                  and box["yMin"] <= o["lat"] <= box["yMax"]]
        if inside:
            part = s[:inside[-1] + 1]
            for lo, hi, k in (("xMin", "xMax", "lon"), ("yMin", "yMax", "lat")):
                dom[lo] = min([dom[lo]] + [math.floor(o[k] + 1e-6) for o in part])
                dom[hi] = max([dom[hi]] + [math.ceil(o[k] - 1e-6) for o in part])
    keep = []
    for s in storms:
        o = s[0]
        if dom["xMin"] <= o["lon"] <= dom["xMax"] and dom["yMin"] <= o["lat"] <= dom["yMax"]:
            keep += s
    keep = [o for o in keep if o in kept(case)]
    if not keep or rec.borderline(keep, 15.0) or case["layout"]["dates"] == "hhmm":
        return
    path = run(case, restrict=True)
    # joining two storms with the same name across a dropped one
    first, starts = processed(dict(case), path, relabel(keep, storms), ctx)
    dates(case, path, keep, starts)
    ctx.nontrivial(len(keep) < len(case["rows"]))


def relabel(keep, storms):
    """Storms stay separate even when those between them were dropped."""
    out = []
    for k, s in enumerate(storms):
        out += [dict(o, sid=k) for o in s if o in keep]
    return out
