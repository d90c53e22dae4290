"""A complete simulation: each stage hands the right data to the next."""
import hashlib
import math
import os
import re
import shutil
import sqlite3

import numpy as np
from hypothesis import strategies as st

from checks import C20, C22
from vf.core import TIER
from vf import Property, Violation, check, close, scratch
from vf import plots, world

TECHNIQUE = ("generated storm records and configurations run through the program as from the "
             "command line; results of each stage compared with what the stage before left, "
             "and whole runs with the same run taken stage by stage on other worker counts; "
             "calibration tables compared with the sample each should be made from")
NOTE = ("records of 40 to 70 storms in one basin, up to 3 simulations of 6 years, 1 degree "
        "grid, up to 3 stand-in workers; figures are recorded, not drawn")

prop = Property("C36", assumptions=[
    "workers are stand-ins scheduled one at a time",
    "figures are recorded when they are saved and never rendered",
    "confidence intervals of hazard are off, as they resample at random"],
    preload=("numpy", "scipy.stats", "statsmodels.api", "matplotlib.pyplot", "netCDF4", "pandas",
             "cartopy.crs", "seaborn"))


@st.composite
def worlds(draw):
    x0 = draw(st.sampled_from([113.0, 115.0, 60.0, 160.0]))
    y0 = draw(st.sampled_from([-22.0, -21.0, -19.0]))
    w, h = draw(st.sampled_from([(6, 12), (6, 8), (5, 10), (8, 9)]))
    storms = draw(st.integers(42, 66))
    w = {"seed": draw(st.integers(0, 2 ** 32 - 1)), "x0": x0, "y0": y0,
         "limit": {"xMin": x0, "xMax": x0 + w, "yMin": y0, "yMax": y0 + h},
         "space": {"x": draw(st.sampled_from([4.0, 5.0])), "y": draw(st.sampled_from([4.0, 5.0]))},
         "inc": {"x": draw(st.sampled_from([1.0, 2.0])), "y": draw(st.sampled_from([0.5, 1.0]))},
         "storms": storms, "years": draw(st.sampled_from([10, 16, 20])),
         "kde": "gau", "step": draw(st.sampled_from([0.5, 1.0])),
         "min": draw(st.sampled_from([10, 15])),
         "sims": draw(st.integers(2, 3)), "yrs": draw(st.sampled_from([4, 5, 6])),
         "sseed": draw(st.integers(1, 9999)), "tseed": draw(st.integers(1, 9999)),
         "res": draw(st.sampled_from([1.0, 0.8])),
         "profile": draw(st.sampled_from(["powell", "holland", "schloemer", "willoughby"])),
         "field": draw(st.sampled_from(["kepert", "hubbert", "mcconochie"])),
         "returns": sorted(draw(st.sets(st.sampled_from([2, 3, 5, 10, 20, 50]), min_size=2,
                                        max_size=4))),
         "evd": draw(st.sampled_from(["GEV", "GPD", "power", "emp"])),
         "stations": draw(st.integers(1, 3)), "exclude": draw(st.booleans())}
    if w["evd"] == "emp":
        # levels are read off the simulated years
        w["returns"] = sorted({min(y, 5) for y in w["returns"]})
    return w


@st.composite
def runs(draw):
    stages = world.STAGES[:]
    # The record has to be plotted or evaluated in some cases only; figures are slow.
    heavy = [s for s in ("PlotData", "ExecuteEvaluate") if draw(st.integers(0, 2)) == 0]
    rounds = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        rounds.append({"stages": draw(st.lists(st.sampled_from(stages[:5] + ["CreateDatabase",
                                                                            "PlotHazard"]),
                                               min_size=1, max_size=3, unique=True)) +
                       [s for s in heavy if draw(st.integers(0, 2)) == 0],
                       "ranks": draw(st.integers(1, 3)),
                       "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))})
    w = draw(worlds())
    if "ExecuteEvaluate" in heavy:
        # a density of genesis needs a number of storms in every simulation
        w["yrs"], w["years"] = 14, 10
    return {"world": w, "heavy": heavy, "rounds": rounds,
            "ranks": draw(st.integers(1, 3)),
            "schedule": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


# What belongs to each stage.
PROCESSED = ["all_bearing", "all_lon_lat", "all_pressure", "all_speed", "bearing_rate",
             "cyclone_tracks", "frequency", "init_bearing", "init_lon_lat", "init_pressure",
             "init_speed", "jdays", "origin_lon_lat", "origin_year", "pressure_rate",
             "speed_rate", "jday_obs", "jday_genesis"]
CALIBRATED = (["all_cell_cdf_init_" + k + e for k in ("bearing", "day", "pressure", "speed")
               for e in ("", ".nc")] +
              [k + "_stats.nc" for k in ("bearing", "bearing_rate", "pressure", "pressure_rate",
                                         "speed", "speed_rate")] + ["originPDF.nc"])
EVALUATED = ["density.nc", "genesis_density.nc", "lonCrossings.nc", "pressureDistribution.nc",
             "histCP.csv", "synCP.csv"]
STATS_PLOTS = ["pressure", "pressure_rate", "min_pressure_hist", "bearing", "bearing_rate", "speed",
               "speed_rate", "frequency", "julian_day"]


def files(out):
    found = {}
    for base, _, names in os.walk(out):
        for n in names:
            p = os.path.join(base, n)
            found[os.path.relpath(p, out)] = p
    return found


def owner(name):
    """Stage a file of the output folder belongs to."""
    top = name.split(os.sep)[0]
    base = os.path.basename(name)
    if top == "tracks":
        return "ExecuteTrackGenerator"
    if top == "windfield":
        return "ExecuteWindfield"
    if top == "hazard":
        return "ExecuteHazard"
    if name in ("hazard.db", "locations.db"):
        return "CreateDatabase"
    if name.startswith("plots" + os.sep + "hazard"):
        return "PlotHazard"
    if top == "plots" and os.path.splitext(base)[0] in STATS_PLOTS:
        return "PlotData"
    if top == "process" and base in PROCESSED:
        return "DataProcess"
    if top == "process" and base in CALIBRATED:
        return "ExecuteStat"
    if top == "process" and base in EVALUATED:
        return "ExecuteEvaluate"
    return None


def nc_values(path):
    from netCDF4 import Dataset
    out = {}
    with Dataset(path) as nc:
        groups = [nc]
        while groups:
            g = groups.pop()
            groups += list(g.groups.values())
            for k, v in g.variables.items():
                v.set_auto_maskandscale(False)
                v = v[:]
                if getattr(v.dtype, "fields", None):
                    for f in v.dtype.fields:
                        out[g.path + k + "/" + f] = np.asarray(v[f])
                else:
                    out[g.path + k] = np.asarray(v)
    return out


def rows(path):
    """Tables of a database, without the times at which rows were made."""
    con = sqlite3.connect(path)
    try:
        out = {}
        names = [r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")]
        for n in names:
            cols = [r[1] for r in con.execute("PRAGMA table_info(%s)" % n)]
            keep = [i for i, c in enumerate(cols)
                    if not re.search("date|version|comments|source|^dt|file", c.lower())]
            out[n] = sorted((tuple(r[i] for i in keep)
                             for r in con.execute("SELECT * FROM %s" % n)), key=repr)
        return out
    finally:
        con.close()


def contents(path):
    if path.endswith(".nc"):
        return nc_values(path)
    if path.endswith(".db"):
        return rows(path)
    with open(path, "rb") as fh:
        text = fh.read()
    if path.endswith("synCP.csv"):
        # one row per synthetic storm, in the order the workers came to them
        text = b"\n".join(sorted(text.split(b"\n")))
    return text


def snapshot(out):
    return {n: contents(p) for n, p in files(out).items()
            if owner(n) and not n.endswith(".xml")}


def same(a, b, what):
    """The same values, up to the order in which sums were taken."""
    if isinstance(a, bytes) and isinstance(b, bytes):
        check(a == b, "%s differs" % what)
        return
    check(type(a) is type(b) and sorted(a) == sorted(b), "%s differs in form" % what)
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, list):
            check(len(x) == len(y), "%s: %s has %d rows, then %d" % (what, k, len(x), len(y)))
            for r, s in zip(x, y):
                ok = len(r) == len(s) and all(
                    u == v or (isinstance(u, float) and isinstance(v, float) and
                               abs(u - v) <= 1e-5 * max(1, abs(u))) for u, v in zip(r, s))
                check(ok, "%s: %s row %r, then %r" % (what, k, r, s))
            continue
        check(x.shape == y.shape, "%s: %s differs in shape" % (what, k))
        if x.dtype.kind in "fc":
            check(np.allclose(x, y, rtol=1e-4, atol=1e-6, equal_nan=True),
                  "%s: %s differs" % (what, k))
        else:
            check(np.array_equal(x, y), "%s: %s differs" % (what, k))


def fingerprint(path):
    with open(path, "rb") as fh:
        return hashlib.sha1(fh.read()).hexdigest(), os.stat(path).st_mtime_ns


def agree(out, w, actions, ctx):
    """Results of the stages fit together."""
    lim = w["limit"]
    # Tracks to wind fields.
    from Utilities.track import ncReadTrackData
    inside, near, number = set(), set(), 0
    for s in range(w["sims"]):
        path = os.path.join(out, "tracks", "tracks.%05d.nc" % s)
        check(os.path.isfile(path), "no tracks of simulation %d" % s)
        for t in ncReadTrackData(path):
            number += 1
            key = (int(t.trackId[0]), int(t.trackId[1]))
            x, y = np.asarray(t.Longitude, float), np.asarray(t.Latitude, float)
            if ((x > lim["xMin"]) & (x < lim["xMax"]) & (y > lim["yMin"]) & (y < lim["yMax"])).any():
                inside.add(key)
            if ((x >= lim["xMin"] - 2) & (x <= lim["xMax"] + 2) &
                    (y >= lim["yMin"] - 2) & (y <= lim["yMax"] + 2)).any():
                near.add(key)
    extra = [f for f in os.listdir(os.path.join(out, "tracks"))
             if not re.match(r"tracks\.\d{5}\.nc$", f)]
    check(not extra and len(os.listdir(os.path.join(out, "tracks"))) == w["sims"],
          "files %s beside the %d track files" % (extra, w["sims"]))
    gusts = {}
    for f in os.listdir(os.path.join(out, "windfield")):
        m = re.match(r"gust\.(\d+)-(\d+)\.nc$", f)
        if m:
            gusts[(int(m.group(1)), int(m.group(2)))] = f
    check(len(inside) > 0, "no storm of %d enters the region" % number)
    missing = {(a, b) for a, b in inside} - set(gusts)
    check(not missing, "no wind field for storms %s, which enter the region" % sorted(missing)[:3])
    stray = set(gusts) - near
    check(not stray, "wind fields for storms %s, which stay away or do not exist" %
          sorted(stray)[:3])
    # Wind fields to hazard.
    from netCDF4 import Dataset
    cube = {}
    for k, f in gusts.items():
        with Dataset(os.path.join(out, "windfield", f)) as nc:
            lon, lat = np.asarray(nc.variables["lon"][:]), np.asarray(nc.variables["lat"][:])
            cube[k] = np.asarray(nc.variables["vmax"][:], float)
        check(lon.min() <= lim["xMin"] + w["res"] and lon.max() >= lim["xMax"] - w["res"] and
              lat.min() <= lim["yMin"] + w["res"] and lat.max() >= lim["yMax"] - w["res"],
              "wind field of storm %s does not cover the region" % (k,))
    top = np.max(list(cube.values()), axis=0)
    with Dataset(os.path.join(out, "hazard", "hazard.nc")) as nc:
        hlon, hlat = np.asarray(nc.variables["lon"][:]), np.asarray(nc.variables["lat"][:])
        yrs = np.asarray(nc.variables["ari"][:] if "ari" in nc.variables else
                         nc.variables["years"][:], float)
        ws = np.ma.masked_values(np.ma.filled(nc.variables["wspd"][:], -9999.), -9999.)
    check(sorted(yrs.tolist()) == [float(v) for v in w["returns"]],
          "hazard for return periods %s, asked for %s" % (yrs.tolist(), w["returns"]))
    check(ws.shape == (len(yrs), len(hlat), len(hlon)), "hazard has shape %s" % (ws.shape,))
    # A return level is positive only where winds were simulated.
    dry = np.ones((len(hlat), len(hlon)), bool)
    for j, a in enumerate(hlat):
        for i, b in enumerate(hlon):
            p, q = int(np.abs(lat - a).argmin()), int(np.abs(lon - b).argmin())
            check(abs(lat[p] - a) < 1e-3 and abs(lon[q] - b) < 1e-3,
                  "hazard at %r, %r, between the points of the wind fields" % (b, a))
            dry[j, i] = top[p, q] <= 0
    check(np.all(ws[:, dry].filled(0) <= 0), "hazard where no storm brings wind")
    if w["evd"] == "emp":
        for k, y in enumerate(yrs):
            level = ws[k].filled(-1)
            for j, a in enumerate(hlat):
                for i, b in enumerate(hlon):
                    p, q = int(np.abs(lat - a).argmin()), int(np.abs(lon - b).argmin())
                    check(level[j, i] <= top[p, q] * (1 + 1e-4) + 1e-4,
                          "return level %r above the strongest simulated wind %r" %
                          (level[j, i], top[p, q]))
    # To the database.
    db = os.path.join(out, "hazard.db")
    con = sqlite3.connect(db)
    try:
        def count(q, *a):
            return con.execute(q, a).fetchall()
        events = {r[0] for r in count("SELECT eventId FROM tblEvents")}
        check(events == {"%03d-%05d" % k for k in gusts},
              "events %s in the database, wind fields %s" % (sorted(events)[:4], sorted(gusts)[:4]))
        places = [s for s in world.stations(w) if s[1] != "Elsewhere"]
        locs = {int(r[0]) for r in count("SELECT locId FROM tblLocations")}
        check(locs == {s[0] for s in places}, "locations %s in the database, stations %s in the "
              "region" % (sorted(locs), sorted(s[0] for s in places)))
        speeds = {(int(a), b): c for a, b, c in
                  count("SELECT locId, eventId, wspd FROM tblWindSpeed")}
        for num, _, x, y in places:
            p, q = int(np.abs(lat - y).argmin()), int(np.abs(lon - x).argmin())
            close_call = min(abs(abs(lat[p] - y) - w["res"] / 2),
                             abs(abs(lon[q] - x) - w["res"] / 2)) < 1e-3
            for k in gusts:
                e = "%03d-%05d" % k
                got = speeds.get((num, e))
                if close_call:
                    continue
                want = cube[k][p, q]
                check(got is not None and abs(got - want) <= 0.02 + 1e-4 * want,
                      "wind speed %r of event %s at station %s, the wind field has %r" %
                      (got, e, num, want))
    finally:
        con.close()
    ctx.klass("%d storms" % (len(gusts) // 10 * 10), w["evd"])


def remove_owned(out, stages):
    for n, p in files(out).items():
        if owner(n) in stages:
            os.remove(p)


def calibration_domain(w):
    return C20.smallest({"region": w["limit"], "storms": [[[p[1], p[2]] for p in s]
                                                         for s in world.record(w)]})[0]


def complete(case, ctx):
    w = case["world"]
    where = scratch()
    try:
        ins, out = os.path.join(where, "in"), os.path.join(where, "out")
        world.build(w, ins)
        ini = os.path.join(where, "run.ini")
        actions = [s for s in world.STAGES if s not in ("PlotData", "ExecuteEvaluate")] + \
            case["heavy"]
        world.config(w, ins, out, actions, ini)
        figures = world.simulate(ini, case["ranks"], case["schedule"])
        for d in ("tracks", "hazard", "windfield", "plots/hazard", "plots/stats", "log",
                  "process/timeseries", "process/dat"):
            check(os.path.isdir(os.path.join(out, d)), "no output folder %s" % d)
        have = files(out)
        for n in PROCESSED + CALIBRATED:
            check(os.path.join("process", n) in have, "no file %s after a complete run" % n)
        for n in EVALUATED:
            check((os.path.join("process", n) in have) == ("ExecuteEvaluate" in actions),
                  "%s: evaluation %s" % (n, "ExecuteEvaluate" in actions))
        for n in STATS_PLOTS:
            check((os.path.join("plots", "stats", n + ".png") in have) == ("PlotData" in actions),
                  "%s.png: plots of the record %s" % (n, "PlotData" in actions))
        from netCDF4 import Dataset
        dom = calibration_domain(w)
        with Dataset(have[os.path.join("process", "originPDF.nc")]) as nc:
            x, y = np.asarray(nc.variables["lon"][:]), np.asarray(nc.variables["lat"][:])
        check(abs(x.min() - dom["xMin"]) < 1e-3 and abs(x.max() + 0.1 - dom["xMax"]) < 0.11 and
              abs(y.max() - dom["yMax"]) < 1e-3 and abs(y.min() - 0.1 - dom["yMin"]) < 0.11,
              "genesis density over %r..%r, %r..%r, the domain is %r" %
              (x.min(), x.max(), y.min(), y.max(), dom))
        agree(out, w, actions, ctx)
        # The same again, in parts.
        base = snapshot(out)
        for r in case["rounds"]:
            stages = [s for s in world.STAGES if s in r["stages"]]
            again = set(stages)
            if "DataProcess" in again and w["exclude"]:
                shutil.rmtree(os.path.join(out, "process", "dat"))
            before = {n: fingerprint(p) for n, p in files(out).items()
                      if owner(n) and owner(n) not in again}
            remove_owned(out, again)
            world.config(w, ins, out, stages, ini)
            world.simulate(ini, r["ranks"], r["schedule"])
            now = files(out)
            what = "%s alone on %d workers" % ("+".join(stages), r["ranks"])
            for n in before:
                check(n in now, "%s: %s is gone" % (what, n))
                if owner(n) == "CreateDatabase" and base is not None:
                    # opened, not changed, by stages that look up locations
                    same(base[n], contents(now[n]), "%s: %s" % (what, n))
                    continue
                check(fingerprint(now[n]) == before[n], "%s: %s was written again" % (what, n))
            for n in base:
                check(n in now, "%s: %s is not made" % (what, n))
            for n in now:
                check(owner(n) is None or n in base or n.endswith(".xml"),
                      "%s: %s is new" % (what, n))
            for n in base:
                if owner(n) in again:
                    same(base[n], contents(now[n]), "%s: %s" % (what, n))
            ctx.klass(*["again " + s for s in stages])
        ctx.nontrivial(case["ranks"] > 1 or any(r["ranks"] > 1 for r in case["rounds"]))
        ctx.klass("%d workers" % case["ranks"])
    finally:
        shutil.rmtree(where, ignore_errors=True)


for k in range(4):
    prop.facet(runs, quick=8, thorough=45, name="complete-%d" % (k + 1), case_limit=300,
               budget=75 if TIER == "quick" else 600,
               rule="a complete run, then selected stages again; non-trivial when some part "
                    "runs on several workers")(complete)


# ------------------------------------------------------------- calibration

@st.composite
def calibrations(draw):
    # The genesis density has a point every tenth of a degree, so the domain is small.
    x0, y0 = draw(st.sampled_from([0, 70, 110, 175, 145])), draw(st.sampled_from([-20, -10, 0, 5]))
    gx, gy = draw(st.sampled_from([1, 1.5, 2])), draw(st.sampled_from([1, 1.5, 2]))
    nx, ny = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    d = {"limit": {"xMin": x0, "xMax": x0 + nx * gx, "yMin": y0, "yMax": y0 + ny * gy},
         "space": {"x": gx, "y": gy},
         "inc": {"x": draw(st.sampled_from([0.5, 1])), "y": draw(st.sampled_from([0.5, 1]))}}
    d["seed"] = draw(st.integers(0, 2 ** 32 - 1))
    d["n"] = draw(st.integers(150, 500))
    d["storms"] = draw(st.integers(25, 70))
    d["min"] = draw(st.integers(5, 15))
    d["minstat"] = draw(st.integers(5, 60))
    d["land"] = draw(st.sampled_from([0.0, 0.1, 0.4]))
    d["kde"] = draw(st.sampled_from(["gau", "gau", "gau", "biw"]))
    d["step"] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    d["size"] = draw(st.booleans())
    d["given"] = draw(st.booleans())
    d["single"] = draw(st.sampled_from([0, 0.05, 0.2]))
    return d


ALL = {"all_speed": ("speed_stats.nc", False), "speed_rate": ("speed_rate_stats.nc", False),
       "all_pressure": ("pressure_stats.nc", False),
       "pressure_rate": ("pressure_rate_stats.nc", False),
       "all_bearing": ("bearing_stats.nc", True), "bearing_rate": ("bearing_rate_stats.nc", True)}


def calibration_data(d):
    rs = np.random.RandomState(d["seed"])
    lim = d["limit"]
    w, h = lim["xMax"] - lim["xMin"], lim["yMax"] - lim["yMin"]

    def places(n):
        xy = np.column_stack([lim["xMin"] + rs.rand(n) * w, lim["yMin"] + rs.rand(n) * h])
        return np.column_stack([xy.round(2), (rs.rand(n) < d["land"]).astype(float)])
    n, m = d["n"], d["storms"]
    out = {"all_lon_lat": places(n), "origin_lon_lat": places(m)}
    # Storms seen only once have no first bearing and speed.
    more = rs.rand(m) >= d["single"]
    out["init_lon_lat"] = out["origin_lon_lat"][more]
    for k, v in (("all_speed", rs.gamma(4, 5, n)), ("speed_rate", rs.normal(0, 2, n)),
                 ("all_pressure", rs.normal(980, 12, n)), ("pressure_rate", rs.normal(0, 1.5, n)),
                 ("all_bearing", rs.normal(240, 70, n) % 360),
                 ("bearing_rate", rs.normal(0, 4, n)),
                 ("init_speed", rs.gamma(3, 4, m)), ("init_pressure", rs.normal(1000, 3, m)),
                 ("init_bearing", rs.normal(150, 60, m) % 360), ("init_rmax", rs.gamma(9, 5, m)),
                 ("jdays", np.floor((rs.normal(20, 40, m)) % 365) + 1)):
        out[k] = v.round(2)
    for k in ("init_speed", "init_bearing"):
        out[k] = out[k][more]
    for k in ALL:
        out[k] = np.where(rs.rand(n) < 0.05, float(2 ** 63), out[k])
    return out


@prop.facet(calibrations, quick=45, thorough=900, case_limit=300,
            budget=100 if TIER == "quick" else 600,
            rule="processed observations over a grid of cells; non-trivial when there is more "
                 "than one cell")
def calibrate(d, ctx):
    from StatInterface.KDEParameters import KDEParameters
    from StatInterface import StatInterface
    from StatInterface.generateStats import GenerateStats
    from Utilities import config
    from Utilities.files import flLoadFile
    data = calibration_data(d)
    miss = float(2 ** 63)
    n = C22.ncells(d)
    init = data["init_lon_lat"]
    stat, tables = {}, {}
    for k in ALL:
        cells = []
        for c in range(n):
            dd = dict(d, min=d["minstat"])
            sea = C22.pick(dd, c, data["all_lon_lat"], data[k], miss, lambda f: f == 0)
            if sea is None:
                ctx.klass("too few observations")
                return
            cells.append(sea[0])
        stat[k] = cells
    kinds = ["bearing", "speed", "pressure"] + (["rmax"] if d["size"] else [])
    for k in kinds + ["day"]:
        v = data["jdays" if k == "day" else "init_" + k]
        at = init if k in ("bearing", "speed") else data["origin_lon_lat"]
        cells = [C22.pick(d, c, at, v, miss, lambda f: True) for c in range(n)]
        if None in cells:
            ctx.klass("too few storms")
            return
        tables[k] = [c[0] for c in cells]
    where = scratch()
    try:
        for s in ("process", "plots/stats"):
            os.makedirs(os.path.join(where, s))
        for k, v in data.items():
            np.savetxt(os.path.join(where, "process", k), v, delimiter=",", fmt="%.2f",
                       header=k, comments="%")
        ini = os.path.join(where, "c.ini")
        with open(ini, "w") as fh:
            fh.write("[Output]\nPath=%s\n[Region]\ngridLimit={'xMin':0,'xMax':1,'yMin':0,'yMax':1}\n"
                     "gridSpace=%r\ngridInc=%r\n[StatInterface]\nkdeType=%s\nkdeStep=%s\n"
                     "minSamplesCell=%d\n" % (where, d["space"], d["inc"], d["kde"], d["step"],
                                              d["min"]))
            if d["given"]:
                fh.write("gridLimit=%r\n" % d["limit"])
        config.reset()
        lim = {"xMin": -5, "xMax": -1, "yMin": -5, "yMax": -1} if d["given"] else d["limit"]
        with plots.recorded() as figures, world.quiet():
            s = StatInterface.StatInterface(ini, autoCalc_gridLimit=lim)
            s.kdeGenesisDate()
            s.kdeOrigin()
            s.cdfCellBearing()
            s.cdfCellSpeed()
            s.cdfCellPressure()
            s.calcCellStatistics(d["minstat"])
            if d["size"]:
                s.cdfCellSize()
        ctx.nontrivial(n > 1)
        ctx.klass("storms seen once" if d["single"] else "all storms seen twice",
                  "limit given" if d["given"] else "limit worked out", "%d cells" % min(n, 6))
        proc = os.path.join(where, "process")
        for k, cells in tables.items():
            got = flLoadFile(os.path.join(proc, "all_cell_cdf_init_" + k), "%", ",")
            want = []
            for c, p in enumerate(cells):
                t = KDEParameters(d["kde"]).generateKDE(
                    np.array(p), {"day": 0.25, "bearing": 1}.get(k, d["step"]),
                    angular=k == "bearing", periodic=365 if k == "day" else False)
                want.append(np.column_stack([np.full(len(t), c), t[:, 0], t[:, 2]]))
            want = np.vstack(want)
            check(got.shape == want.shape and np.abs(got - want).max() <= 1e-5,
                  "distribution of %s is not that of the cells' samples" % k)
        # The genesis density belongs to the genesis points.
        from netCDF4 import Dataset
        with Dataset(os.path.join(proc, "originPDF.nc")) as nc:
            x, y, p = [np.asarray(nc.variables[v][:], float) for v in ("lon", "lat", "gpdf")]
        full = d["limit"]
        check(abs(x.min() - full["xMin"]) < 1e-3 and abs(x.max() + .1 - full["xMax"]) < 0.11 and
              abs(y.max() - full["yMax"]) < 1e-3 and abs(y.min() - .1 - full["yMin"]) < 0.11,
              "genesis density over %r..%r, %r..%r" % (x.min(), x.max(), y.min(), y.max()))
        px, py = p.sum(0), p.sum(1)
        check(p.min() >= 0 and p.max() > 0, "genesis density is not positive")
        mx, my = (x * px).sum() / px.sum(), (y * py).sum() / py.sum()
        for got, v, side in ((mx, init[:, 0], full["xMax"] - full["xMin"]),
                             (my, init[:, 1], full["yMax"] - full["yMin"])):
            check(abs(got - v.mean()) <= 0.15 * side, "genesis density centred on %r, the genesis "
                  "points on %r" % (got, v.mean()))
        for k, (name, angular) in ALL.items():
            g = GenerateStats(None, None, d["limit"], d["space"], d["inc"], d["minstat"],
                              angular, miss, calculateLater=True)
            g.load(os.path.join(proc, name))
            for c in range(n):
                want = C22.summary(stat[k][c], angular)
                C22.compare([getattr(g.coeffs, f)[c] for f in C22.FIELDS], want,
                            "%s, cell %d" % (name, c), tol=1e-5)
        names = {os.path.basename(f) for f, _ in figures}
        for k in list(ALL.values()):
            check(os.path.splitext(k[0])[0] + ".png" in names, "no figure of %s" % k[0])
        check("originPDF.png" in names, "no figure of the genesis density")
    finally:
        shutil.rmtree(where, ignore_errors=True)
