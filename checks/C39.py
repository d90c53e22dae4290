"""Landfalls and their intensity are counted per gate and per place."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import Property, Skip, check, scratch
from vf import tracks as tk
from vf.gen import dec, edge
from vf.geom import crossing, edge_distance, inside, lean, parallel, sign

TECHNIQUE = ("generated simulation files, coastal gates and outlines of places; landfalls "
             "found with exact plane geometry and summarised independently")
NOTE = ("one to four files of one to five tracks, one to five gates or places; paths keep a "
        "small distance from ends of gates and corners of outlines")

prop = Property("C39", assumptions=[
    "gates are straight lines and have distinct numbers",
    "outlines of places are simple polygons and have distinct codes",
    "central pressures are at most 1020 hPa"])

LIMITS = [930.0, 955.0, 970.0, 985.0, 990.0]
GAP = 1e-4


def category(p):
    """The scale of the modules: the upper limit belongs to the stronger category."""
    for k, limit in enumerate(LIMITS):
        if p <= limit:
            return 5 - k
    return 0


@st.composite
def files(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        f = []
        for _ in range(draw(st.integers(1, 5))):
            x, y = draw(dec(119, 123, 2)), draw(dec(-21, -17, 2))
            pts = []
            for _ in range(draw(edge(st.integers(2, 12), 1, 2))):
                p = draw(edge(dec(880, 1015, 1), *LIMITS))
                if draw(st.integers(0, 3)) == 0:
                    p = round(draw(st.sampled_from(LIMITS)) + draw(st.sampled_from([.1, -.1, .5])), 1)
                pts.append((x, y, p))
                x = round(x + draw(dec(-2.5, 2.5, 2)), 2)
                y = round(y + draw(dec(-2.5, 2.5, 2)), 2)
            f.append(pts)
        out.append(f)
    return out


@st.composite
def with_gates(draw):
    n = draw(st.integers(1, 5))
    numbers = draw(st.lists(st.integers(0, 30), min_size=n, max_size=n, unique=True))
    gates = []
    for _ in range(n):
        a = (draw(dec(119, 123, 2)), draw(dec(-21, -17, 2)))
        b = (round(a[0] + draw(dec(-3, 3, 2)), 2), round(a[1] + draw(dec(-3, 3, 2)), 2))
        if a == b:
            b = (round(a[0] + 1.0, 2), b[1])
        gates.append((a, b))
    return {"files": draw(files()), "numbers": numbers, "gates": gates,
            "other": draw(st.booleans()), "names": draw(st.permutations(range(4)))}


@st.composite
def with_places(draw):
    n = draw(st.integers(1, 4))
    codes = draw(st.lists(st.integers(10000, 10040), min_size=n, max_size=n, unique=True))
    rings = []
    for _ in range(n):
        x, y = draw(dec(119, 123, 2)), draw(dec(-21, -17, 2))
        k = draw(st.integers(3, 7))
        ring = []
        for i in range(k):
            # star shaped about (x, y), notches included
            r = draw(dec(0.3, 2.5, 2))
            t = 2 * np.pi * (i + draw(dec(-0.3, 0.3, 2))) / k
            ring.append((round(float(x + r * np.cos(t)), 3), round(float(y + r * np.sin(t)), 3)))
        rings.append(ring + ring[:1])
    return {"files": draw(files()), "codes": ["%05d" % c for c in codes], "rings": rings,
            "other": draw(st.booleans()), "names": draw(st.permutations(range(4)))}


def segments(f):
    for pts in f:
        for p, q in zip(pts, pts[1:]):
            if p[:2] != q[:2]:
                yield p[:2], q[:2], p[2]


def near(p, q, a, b):
    """Whether rounding could decide if p q meets a b."""
    return (min(edge_distance(p, a, b), edge_distance(q, a, b), edge_distance(a, p, q),
                edge_distance(b, p, q)) < GAP
            or not parallel(p, q, a, b) and lean((p, q), (a, b)) < GAP)


def meets(p, q, a, b):
    if parallel(p, q, a, b):
        return False
    s, u, _ = crossing(p, q, a, b)
    return 0 < s < 1 and 0 < u < 1


def gate_landfalls(f, gate):
    a, b = gate
    out = []
    for p, q, cp in segments(f):
        if near(p, q, a, b):
            return None
        if meets(p, q, a, b) and sign(a, b, p) > 0:
            out.append(cp)
    return out


def place_landfalls(f, ring):
    out = []
    for p, q, cp in segments(f):
        hit = False
        for a, b in zip(ring, ring[1:]):
            if near(p, q, a, b):
                return None
            hit = hit or meets(p, q, a, b)
        if hit and not inside(p, ring):
            out.append(cp)
    return out


def summary(per_file):
    """Statistics over the simulation files of the landfalls at one gate or place."""
    count = np.array([len(x) for x in per_file], float)
    out = {"count_sum": count.sum(), "count_mean": count.mean(), "count_min": count.min(),
           "count_max": count.max(), "count_q10": np.percentile(count, 10),
           "count_q90": np.percentile(count, 90), "count_std": count}
    for k in range(1, 6):
        c = np.array([sum(category(p) == k for p in x) for x in per_file], float)
        out["cat%d_sum" % k], out["cat%d_mean" % k] = c.sum(), c.mean()
        out["cat%d_std" % k] = c
    mean = np.array([np.mean(x) for x in per_file if x])
    low = np.array([np.min(x) for x in per_file if x])
    some = len(mean) > 0
    out["mean"] = mean.mean() if some else np.nan
    for q in (10, 25, 75, 90):
        out["mean_q%d" % q] = np.percentile(mean, q) if some else np.nan
    out["low"] = low.mean() if some else np.nan
    out["low_min"] = low.min() if some else np.nan
    out["low_std"] = low
    return out


GATE = dict([("count_sum", "count_sum"), ("count_nanmean", "count_mean"),
             ("count_nanstd", "count_std"), ("meanlfintensity_nanmean", "mean"),
             ("minlfintensity_nanmean", "low"), ("minlfintensity_min", "low_min"),
             ("minlfintensity_nanstd", "low_std")]
            + [("count_" + k, "count_" + k) for k in ("min", "max", "q10", "q90")]
            + [("meanlfintensity_q%d" % q, "mean_q%d" % q) for q in (10, 25, 75, 90)]
            + [("cat%d_%s" % (k, s), "cat%d_%s" % (k, t)) for k in range(1, 6)
               for s, t in (("sum", "sum"), ("nanmean", "mean"), ("nanstd", "std"))])
PLACE = dict([("sum", "count_sum"), ("count_mean", "count_mean"), ("count_std", "count_std"),
              ("mlfimean", "mean"), ("minlfi", "low"), ("minlfim", "low_min"),
              ("minlfintensity_nanstd", "low_std")]
             + [("count_" + k, "count_" + k) for k in ("min", "max", "q10", "q90")]
             + [("mlfiq%d" % q, "mean_q%d" % q) for q in (10, 25, 75, 90)]
             + [("cat%d_%s" % (k, s), "cat%d_%s" % (k, t)) for k in range(1, 6)
                for s, t in (("sum", "sum"), ("mean", "mean"), ("nanstd", "std"))])


def compare(row, want, columns, what):
    for col, key in columns.items():
        got = float(row[col])
        if key.endswith("std"):
            x = want[key]
            # population or sample deviation; one value has no sample deviation
            ok = [np.std(x)] if len(x) else [np.nan]
            ok.append(np.std(x, ddof=1) if len(x) > 1 else np.nan)
            check(any(np.isclose(got, v, rtol=1e-6, atol=1e-6, equal_nan=True) for v in ok),
                  "%s: %s is %r, the files give %r" % (what, col, got, ok))
            continue
        v = want[key]
        check(np.isclose(got, v, rtol=1e-6, atol=1e-4, equal_nan=True),
              "%s: %s is %r, the files give %r" % (what, col, got, float(v)))


def write(d):
    from Utilities.track import ncSaveTracks
    path = scratch()
    folder = os.path.join(path, "tracks")
    os.mkdir(folder)
    for k, f in enumerate(d["files"]):
        made = [tk.make([dict(lon=x, lat=y, cp=p, sp=10.0, be=90.0, rm=30.0, ep=1010.0)
                         for x, y, p in pts], tid=(i, 1)) for i, pts in enumerate(f)]
        ncSaveTracks(os.path.join(folder, "tracks.%05d.nc" % d["names"][k]), made)
    if d["other"]:
        with open(os.path.join(folder, "tracks.00000.csv"), "w") as g:
            g.write("other\n")
    return path, folder


def reach(ctx, per):
    n = sum(len(x) for where in per for x in where)
    ctx.klass("landfalls" if n else "none")
    for where in per:
        for x in where:
            for p in x:
                ctx.klass("category %d" % category(p))
    if any(sum(map(bool, where)) > 1 for where in per):
        ctx.klass("in several files")
    return n


@prop.facet(with_gates, quick=160, thorough=2500, budget=90,
            rule="simulation files and numbered gates; non-trivial with landfalls at a gate and "
                 "crossings in the other direction")
def gates(d, ctx):
    import geopandas as gpd
    from shapely.geometry import LineString
    from Evaluate import landfallIntensity as module
    per = [[gate_landfalls(f, g) for f in d["files"]] for g in d["gates"]]
    if any(x is None for where in per for x in where):
        raise Skip()
    path, folder = write(d)
    table = gpd.GeoDataFrame({
        "gate": d["numbers"], "longitude": [g[0][0] for g in d["gates"]],
        "latitude": [g[0][1] for g in d["gates"]],
        "label": ["G%d" % n for n in d["numbers"]],
        "geometry": [LineString(g) for g in d["gates"]]})
    name = os.path.join(path, "gates.shp")
    table.to_file(name)
    out = module.loadLandfallRates(folder, module.loadGateFile(name))
    check(sorted(int(g) for g in out["gate"]) == sorted(d["numbers"]),
          "gates %s in the result, %s in the file" % (list(out["gate"]), d["numbers"]))
    for i, number in enumerate(d["numbers"]):
        row = out[out["gate"] == number].iloc[0]
        check(row["label"] == "G%d" % number, "gate %d is labelled %r" % (number, row["label"]))
        compare(row, summary(per[i]), GATE, "gate %d" % number)
    n = reach(ctx, per)
    back = sum(len(gate_landfalls(f, g[::-1])) for f in d["files"] for g in d["gates"])
    if back:
        ctx.klass("crossings to sea")
    if n and back:
        ctx.nontrivial()


@prop.facet(with_places, quick=140, thorough=2000, budget=90,
            rule="simulation files and outlines of places; non-trivial with storms that enter a "
                 "place and storms that start in one")
def places(d, ctx):
    import geopandas as gpd
    from shapely.geometry import Polygon
    from Evaluate import locationLandfallIntensity as module
    if any(not Polygon(r).is_valid for r in d["rings"]):
        raise Skip()
    per = [[place_landfalls(f, r) for f in d["files"]] for r in d["rings"]]
    if any(x is None for where in per for x in where):
        raise Skip()
    path, folder = write(d)
    table = gpd.GeoDataFrame({
        "LGA_CODE19": d["codes"], "LGA_NAME19": ["P" + c for c in d["codes"]],
        "geometry": [Polygon(r) for r in d["rings"]]})
    name = os.path.join(path, "places.shp")
    table.to_file(name)
    out = module.loadLandfallRates(folder, module.loadGateFile(name))
    check(sorted(out["LGA_CODE19"]) == sorted(d["codes"]),
          "places %s in the result, %s in the file" % (list(out["LGA_CODE19"]), d["codes"]))
    for i, code in enumerate(d["codes"]):
        row = out[out["LGA_CODE19"] == code].iloc[0]
        check(row["LGA_NAME19"] == "P" + code, "place %s is named %r" % (code, row["LGA_NAME19"]))
        compare(row, summary(per[i]), PLACE, "place %s" % code)
    n = reach(ctx, per)
    start = any(inside(p, r) for f in d["files"] for p, _, _ in segments(f) for r in d["rings"])
    if start:
        ctx.klass("segments from inside")
    if n and start:
        ctx.nontrivial()
