"""Exported track shapefiles contain every observation."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, scratch
from vf import tracks as tk
from vf.gen import dec, edge

TECHNIQUE = ("generated track sets exported in every form, the files read back with an "
             "independent reader and compared with the observations")
NOTE = ("one to five tracks of one to eight observations; attribute values fit the field "
        "widths of the file")

prop = Property("C32", assumptions=[
    "pressures, winds, sizes and speeds are within physical ranges",
    "steps of more than 180 degrees of longitude are crossings of Greenwich"])

NC = ("CycloneNumber", "TimeElapsed", "Longitude", "Latitude", "Speed", "Bearing",
      "CentralPressure", "EnvPressure", "rMax")
OBS = ("Indicator", "CycloneNumber", "Year", "Month", "Day", "Hour", "Minute", "TimeElapsed",
       "Longitude", "Latitude", "Speed", "Bearing", "CentralPressure", "WindSpeed", "rMax",
       "EnvPressure")
PRECISION = {"TimeElapsed": 0.0051, "Longitude": 0.0051, "Latitude": 0.0051}
LIMITS = [930.0, 955.0, 970.0, 985.0, 999.0]


@st.composite
def tracks(draw, low=1):
    out = []
    for _ in range(draw(st.integers(low, 5))):
        n = draw(edge(st.integers(2, 8), 1, 2))
        lon = draw(edge(dec(0, 360, 2), 359.5, 0.5, 358.0, 180.0))
        lat = draw(dec(-40, 40, 2))
        pts = []
        for _ in range(n):
            pts.append({"lon": round(lon % 360.0, 2), "lat": round(lat, 2),
                        "cp": draw(edge(dec(900, 1010, 1), *LIMITS)),
                        "ep": draw(dec(1000, 1015, 1)), "rm": draw(dec(8, 120, 1)),
                        "sp": draw(dec(0, 90, 1)), "be": draw(dec(0, 359.9, 1)),
                        "ws": draw(dec(0, 90, 1))})
            lon += draw(dec(-1.5, 1.5, 2))
            lat += draw(dec(-1, 1, 2))
        out.append({"pts": pts, "num": draw(st.integers(1, 9999)),
                    "start": draw(st.sampled_from([[1975, 12, 31, 18], [2000, 2, 28, 23],
                                                   [2011, 1, 1, 0]])),
                    "step": draw(st.sampled_from([1, 3, 6])),
                    "elapsed": draw(st.sampled_from([None, [0.0, 0.25], [6.0, 6.0], [1.5, 0.1]])),
                    "minp": draw(dec(880, 1000, 1)), "maxw": draw(dec(10, 99, 1))})
    return out


@st.composite
def exports(draw):
    return {"tracks": draw(tracks()), "module": draw(st.sampled_from(["tracks2shp", "tracks2shp",
                                                                      "shptools"])),
            "form": draw(st.sampled_from(["points", "segments", "lines"])),
            "nc": draw(st.booleans()), "dated": draw(st.booleans()),
            "twice": draw(st.booleans()), "ext": draw(st.sampled_from(["", ".shp"])),
            "direct": draw(st.booleans())}


def build(spec, names, dated):
    from Utilities.track import Track
    out = []
    for k, s in enumerate(spec):
        src = tk.make(s["pts"], tid=(k + 1, s["num"]), start=tuple(s["start"]), step=s["step"])
        if s["elapsed"]:
            a, b = s["elapsed"]
            src.data["TimeElapsed"] = a + b * np.arange(len(s["pts"]))
        keep = list(names)
        if dated:
            keep.insert(1 if names is NC else 8, "Datetime")
        data = np.zeros(len(s["pts"]), dtype=[(n, src.data.dtype[n]) for n in keep])
        for n in keep:
            data[n] = src.data[n]
        t = Track(data)
        t.trackId, t.trackfile = src.trackId, "f"
        t.trackMinPressure, t.trackMaxWind = s["minp"], s["maxw"]
        out.append(t)
    return out


def category(p):
    return 5 - sum(p >= v for v in LIMITS)


def pieces(shape):
    cut = list(shape.parts) + [len(shape.points)]
    return [[tuple(p) for p in shape.points[a:b]] for a, b in zip(cut[:-1], cut[1:])]


def compare(got, want, what):
    check(len(got) == len(want), "%s: %d values for %d fields" % (what, len(got), len(want)))
    for (name, w), v in zip(want, got):
        tol = PRECISION.get(name, 0.051)
        check(v is not None and abs(float(v) - float(w)) <= tol,
              "%s: %s is %r, the track has %r" % (what, name, v, float(w)))


@prop.facet(exports, quick=400, thorough=6000,
            rule="track set, form of export and field set; non-trivial with two or more tracks "
                 "one of which has several observations")
def export(d, ctx):
    import shapefile
    from Utilities import shptools, tracks2shp
    old = d["module"] == "shptools"
    nc = d["nc"] and not old
    names = NC if nc else OBS
    tr = build(d["tracks"], names, d["dated"])
    if not old:
        tracks2shp.add_category(tr)
        for t, s in zip(tr, d["tracks"]):
            for k, p in enumerate(s["pts"]):
                check(int(t.Category[k]) == category(p["cp"]), "category %d for a central pressure "
                      "of %r hPa" % (t.Category[k], p["cp"]))
    before = [t.data.copy() for t in tr]
    form = d["form"]
    ctx.klass(form, d["module"], "TCRM fields" if nc else "all fields")
    ctx.nontrivial(len(tr) > 1 and max(len(t.data) for t in tr) > 1)
    path = os.path.join(scratch(), "out")

    def run(name):
        name += d["ext"]
        if old and not d["direct"]:
            args = (name, tr) + (() if form == "points" and d["dated"] else (form,))
            shptools.shpSaveTrackFile(*args)
        elif old:
            if form == "points":
                shptools.tracks2point(tr, name)
            else:
                shptools.tracks2line(tr, name, dissolve=form == "lines")
        elif form == "points":
            tracks2shp.tracks2point(tr, name, netcdf_format=nc)
        else:
            tracks2shp.tracks2line(tr, name, dissolve=form == "lines", netcdf_format=nc)

    if d["twice"]:
        run(path + "1")
    run(path)
    for t, b in zip(tr, before):
        check(t.data.dtype == b.dtype and (t.data == b).all(), "exporting alters the track: "
              "fields %r, before %r" % (t.data.dtype.names, b.dtype.names))
    check(os.path.exists(path + ".shp"), "no shapefile written")
    rd = shapefile.Reader(path)
    shapes, records = rd.shapes(), rd.records()
    fields = [f[0] for f in rd.fields[1:]]
    rd.close()
    check(len(set(fields)) == len(fields), "fields %r" % (fields,))
    check(len(shapes) == len(records), "%d shapes, %d records" % (len(shapes), len(records)))

    def rec(t, k):
        out = [(n, t.data[n][k]) for n in t.data.dtype.names if n != "Datetime"]
        return out

    if form == "lines":
        check(len(shapes) == len(tr), "%d tracks, %d lines" % (len(tr), len(shapes)))
        for i, t in enumerate(tr):
            s = d["tracks"][i]
            want, cur = [], []
            for p in s["pts"]:
                if cur and abs(p["lon"] - cur[-1][0]) > 180:
                    want.append(cur)
                    cur = []
                cur.append((p["lon"], p["lat"]))
            want.append(cur)
            if len(want) > 1:
                ctx.klass("across Greenwich")
            got = pieces(shapes[i])
            check([len(g) for g in got] == [len(w) for w in want]
                  and np.allclose(np.vstack(got), np.vstack(want)),
                  "track %d is drawn as %r, its observations are %r" % (i, got, want))
            if nc:
                compare(list(records[i]), rec(t, 0), "track %d" % i)
            else:
                want = [("CycloneNumber", t.CycloneNumber[0]), ("Year", t.Year[0]),
                        ("Month", t.Month[0]), ("Day", t.Day[0]), ("Hour", t.Hour[0]),
                        ("Minute", t.Minute[0]), ("TimeElapsed", t.TimeElapsed.max()),
                        ("minimum pressure", s["minp"]), ("maximum wind", s["maxw"])]
                compare(list(records[i]), want, "track %d" % i)
        return
    total = sum(len(t.data) for t in tr)
    check(len(shapes) == total, "%d observations, %d shapes" % (total, len(shapes)))
    i = 0
    for j, t in enumerate(tr):
        pts = d["tracks"][j]["pts"]
        for k, p in enumerate(pts):
            here = (p["lon"], p["lat"])
            if form == "points":
                want = [here]
            elif k + 1 < len(pts):
                q = pts[k + 1]
                if abs(q["lon"] - p["lon"]) > 180:
                    ctx.klass("across Greenwich")
                    want = [here, here]
                else:
                    want = [here, (q["lon"], q["lat"])]
            else:
                want = [here, here]
            got = [tuple(v) for v in shapes[i].points]
            check(len(got) == len(want) and np.allclose(got, want),
                  "observation %d of track %d is drawn as %r, expected %r" % (k, j, got, want))
            compare(list(records[i]), rec(t, k), "observation %d of track %d" % (k, j))
            i += 1
    # Reading through the package.
    verts, recs = shptools.shpReadShapeFile(path)
    check(list(verts) == list(range(total)), "shapes read back are numbered %r" % (list(verts),))
    for k in range(total):
        check(np.allclose(np.array(verts[k]), np.array(shapes[k].points)), "vertices differ")
        check(list(recs[k]) == list(records[k]), "records differ")
    for f in ("Longitude", "rMax"):
        got = shptools.shpGetField(path, f)
        want = np.concatenate([t.data[f] for t in tr])
        check(got.shape == want.shape and np.abs(got - want).max() <= 0.051,
              "field %s read as %r, written %r" % (f, got, want))


@st.composite
def shape_sets(draw):
    kind = draw(st.sampled_from(["polygon", "polyline"]))
    n = draw(st.integers(1, 6))
    shapes = []
    for _ in range(n):
        parts = []
        for _ in range(draw(st.integers(1, 4))):
            x, y = draw(dec(-170, 170, 1)), draw(dec(-60, 60, 1))
            if kind == "polygon":
                w, h = draw(dec(0.5, 5, 1)), draw(dec(0.5, 5, 1))
                ring = [[x, y], [x, y + h], [x + w, y + h], [x + w, y]]
                ring = ring[:draw(st.integers(3, 4))]
                parts.append(ring + [ring[0]])
            else:
                parts.append([[round(x + draw(dec(-2, 2, 1)), 1), round(y + draw(dec(-2, 2, 1)), 1)]
                              for _ in range(draw(st.integers(2, 5)))])
        shapes.append(parts)
    text = st.text("abcdefgXYZ 09", min_size=1, max_size=10).map(str.strip)
    return {"kind": kind, "shapes": shapes,
            "count": [draw(st.integers(-999, 9999)) for _ in range(n)],
            "value": [draw(dec(-999, 999, 3)) for _ in range(n)],
            "name": [draw(text) for _ in range(n)],
            "fields": draw(st.permutations(["count", "value", "name"])),
            "how": draw(st.sampled_from(["create", "write"]))}


@prop.facet(shape_sets, quick=300, thorough=4000,
            rule="lines or polygons of several parts with attributes; non-trivial with two or "
                 "more shapes, one of several parts")
def shape_files(d, ctx):
    import shapefile
    from Utilities import shptools
    code = shapefile.POLYGON if d["kind"] == "polygon" else shapefile.POLYLINE
    shapes = []
    for parts in d["shapes"]:
        s = shapefile.Shape(code)
        s.points = [tuple(p) for part in parts for p in part]
        s.parts = [sum(len(q) for q in parts[:k]) for k in range(len(parts))]
        shapes.append(s)
    ctx.klass(d["kind"], d["how"])
    ctx.nontrivial(len(shapes) > 1 and max(len(p) for p in d["shapes"]) > 1)
    path = os.path.join(scratch(), "out")
    types = {"count": 1, "value": 2, "name": 0}
    if d["how"] == "create":
        data = {f: {"Type": types[f], "Length": 10, "Precision": 3, "Data": d[f]}
                for f in d["fields"]}
        shptools.shpCreateFile(path, shapes, data, code)
    else:
        fields = [[f, "C" if f == "name" else "N", 10, 3 if f == "value" else 0]
                  for f in d["fields"]]
        shptools.shpWriteShapeFile(path, code, fields, shapes,
                                   [[d[f][k] for f in d["fields"]] for k in range(len(shapes))])
    rd = shapefile.Reader(path)
    got, recs = rd.shapes(), rd.records()
    names = [f[0] for f in rd.fields[1:]]
    rd.close()
    check(names == list(d["fields"]), "fields %r written as %r" % (d["fields"], names))
    check(len(got) == len(shapes) and len(recs) == len(shapes), "%d shapes given, %d shapes and %d "
          "records in the file" % (len(shapes), len(got), len(recs)))
    for k, parts in enumerate(d["shapes"]):
        p = pieces(got[k])
        want = [[tuple(v) for v in part] for part in parts]
        check([len(a) for a in p] == [len(a) for a in want]
              and np.allclose(np.vstack(p), np.vstack(want)),
              "shape %d has parts %r in the file, given %r" % (k, p, want))
        for f, v in zip(d["fields"], recs[k]):
            w = d[f][k]
            check(v == w if f == "name" else abs(v - w) < 1e-6, "%s of shape %d is %r in the "
                  "file, given %r" % (f, k, v, w))
    for f, t in (("count", int), ("value", float), ("name", str)):
        v = shptools.shpGetField(path, f, dtype=t)
        check(list(v) == d[f] or np.allclose(v, d[f]), "field %s read as %r, given %r" % (f, v, d[f]))
        check(t is str or np.asarray(v).dtype == np.dtype(t), "field %s asked for as %r is read as "
              "%r" % (f, t.__name__, np.asarray(v).dtype))
    check(isinstance(shptools.shpGetField(path, "count", dtype=int), np.ndarray), "not an array")
    by = shptools.shpGetVertices(path, key_name="count")
    check(set(by) == set(d["count"]), "vertices keyed by %r, the field has %r" % (
        sorted(by), sorted(d["count"])))
    for k, c in enumerate(d["count"]):
        if d["count"].count(c) == 1:
            check(np.allclose(by[c], np.vstack(d["shapes"][k])), "vertices of %r are those of "
                  "another shape" % c)
    try:
        shptools.shpGetField(path, "nothere")
    except ValueError:
        pass
    else:
        check(False, "a field that is not in the file is returned")
