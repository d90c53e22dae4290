"""Gridded and tabular data files return what was stored."""
import gzip
import hashlib
import io
import math
import os
from contextlib import redirect_stdout
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from vf import Property, Violation, check, scratch
from vf.gen import dec, edge

TECHNIQUE = ("generated grids, tables and time axes written by the package, read back both "
             "by the package and by an independent reader, repeatedly and over existing files")
NOTE = ("grids up to 9 by 9 by 4; sampling is compared along longitude, the mirrored latitude "
        "of sampled grids is a known finding")

prop = Property("C33", assumptions=[
    "longitudes within 0 to 360 for sampled grids",
    "values are compared to the precision of the number format written"])


def corner(lon, lat):
    """Easting and northing on WGS84, by the series in the third flattening."""
    f = 1 / 298.257223563
    n = f / (2 - f)
    rect = 6378137.0 / (1 + n) * (1 + n ** 2 / 4 + n ** 4 / 64)
    al = [n / 2 - 2 * n ** 2 / 3 + 5 * n ** 3 / 16, 13 * n ** 2 / 48 - 3 * n ** 3 / 5,
          61 * n ** 3 / 240]
    p = math.radians(lat)
    dl = math.radians(lon - (math.floor((lon + 180) / 6) * 6 - 177))
    k = 2 * math.sqrt(n) / (1 + n)
    t = math.sinh(math.atanh(math.sin(p)) - k * math.atanh(k * math.sin(p)))
    xi, eta = math.atan2(t, math.cos(dl)), math.atanh(math.sin(dl) / math.sqrt(1 + t * t))
    e = eta + sum(a * math.cos(2 * j * xi) * math.sinh(2 * j * eta) for j, a in enumerate(al, 1))
    v = xi + sum(a * math.sin(2 * j * xi) * math.cosh(2 * j * eta) for j, a in enumerate(al, 1))
    return 500000 + 0.9996 * rect * e, 0.9996 * rect * v + (1e7 if lat < 0 else 0)


@st.composite
def ascii_grids(draw):
    nx, ny = draw(st.integers(1, 9)), draw(st.integers(1, 9))
    delta = draw(st.sampled_from([0.05, 0.25, 1.0, 2.5, 0.1]))
    nodata = draw(st.sampled_from([-9999, -9999, -99.5, 0, 1e20]))
    cell = st.one_of(dec(-500, 2000, 3), dec(1, 9, 2), st.just(None))
    return {"nx": nx, "ny": ny, "delta": delta, "nodata": nodata,
            "x0": draw(st.one_of(edge(dec(-180, 350, 2), 0.0), dec(100, 160, 7))),
            "y0": draw(st.one_of(dec(-80, 40, 2), dec(-40, -5, 7))),
            "coords": draw(st.sampled_from([None, None, "latlon", "UTM"])),
            "data": [[draw(cell) for _ in range(nx)] for _ in range(ny)],
            "down": draw(st.booleans()), "delimiter": draw(st.sampled_from([" ", ",", "\t", ";"])),
            "fmt": draw(st.sampled_from(["%.10e", "%.4f", "%10.3f", "%g"])),
            "target": draw(st.sampled_from(["new", "old", "handle", "gz", "old gz"])),
            "default": draw(st.booleans())}


@prop.facet(ascii_grids, quick=600, thorough=10000,
            rule="grid with missing cells saved as text; non-trivial with at least two rows and "
                 "two columns and unequal values")
def ascii_grid(d, ctx):
    from Utilities import grid
    nx, ny = d["nx"], d["ny"]
    want = np.array([[np.nan if v is None or v == d["nodata"] else v for v in row]
                     for row in d["data"]])
    raw = np.where(np.isnan(want), d["nodata"], want)
    lon = d["x0"] + d["delta"] * np.arange(nx)
    lat = d["y0"] + d["delta"] * np.arange(ny)
    glat = lat[::-1] if d["down"] else lat
    ctx.klass(d["target"])
    ctx.nontrivial(nx > 1 and ny > 1 and len(np.unique(raw)) > 1)
    if np.isnan(want).any():
        ctx.klass("missing cells")
    path = os.path.join(scratch(), "g.txt")
    target = path
    if "gz" in d["target"]:
        path = target = path + ".gz"
    if "old" in d["target"]:
        with open(path, "w") as f:
            f.write("something longer than any header\n" * 400)
    if d["target"] == "handle":
        target = open(path, "w")
    before = raw.copy()
    kw = {} if d["default"] and d["nodata"] == -9999 else {
        "delimiter": d["delimiter"], "nodata": d["nodata"], "fmt": d["fmt"]}
    utm = d["coords"] == "UTM" and -180 <= lon[0] <= 180
    if d["coords"]:
        kw["coords"] = d["coords"] if utm else "latlon"
    grid.grdSave(target, raw, lon, glat, d["delta"], **kw)
    check((raw == before).all(), "saving changes the data")
    if "gz" in d["target"]:
        text = gzip.open(path, "rt").read()
        path = path[:-3]
        with open(path, "w") as f:
            f.write(text)
    delim = kw.get("delimiter", " ")
    with open(path) as f:
        lines = f.read().splitlines()
    check(len(lines) == 6 + ny, "%d lines for %d rows" % (len(lines), ny))
    args = {} if delim in (" ", "\t") else {"delimiter": delim}
    x, y, v = grid.grdRead(path, **args)
    tol = {"%.4f": 6e-5, "%10.3f": 6e-4, "%g": 6e-3}.get(kw.get("fmt"), 1e-6)
    if utm:
        ctx.klass("metres")
        east, north = corner(lon[0], lat[0])
        size = math.radians(d["delta"]) * 6367000.0
        for axis, got, low, count in (("eastings", x, east, nx), ("northings", np.sort(y), north, ny)):
            check(got.shape == (count,) and abs(got[0] - low) < 0.5, "%s begin at %r, the south-west "
                  "corner %r is at %r" % (axis, got[0], (lon[0], lat[0]), low))
            check(np.allclose(np.diff(got), size, rtol=2e-3), "cells of %r degrees are %r m" % (
                d["delta"], np.diff(got)))
        x, y = lon, lat[::-1]
    check(x.shape == (nx,) and np.allclose(x, lon, rtol=0, atol=1e-9), "longitudes %r read as %r" % (lon, x))
    check(y.shape == (ny,) and np.allclose(np.sort(y), lat, rtol=0, atol=1e-9),
          "latitudes %r read as %r" % (lat, y))
    check(ny == 1 or (np.diff(y) < 0).all(), "latitudes %r do not run from the north" % (y,))
    check(v.shape == (ny, nx), "data of %r read as %r" % ((ny, nx), v.shape))
    near = np.abs(want - d["nodata"]) <= tol * 2 if d["nodata"] < 1e10 else np.zeros(want.shape, bool)
    check(((np.isnan(v) == np.isnan(want)) | near).all(), "missing cells %r read as %r" % (
        np.isnan(want), np.isnan(v)))
    ok = ~np.isnan(want) & ~near
    check(np.allclose(v[ok], want[ok], rtol=1e-5 if kw.get("fmt") == "%g" else 1e-9, atol=tol),
          "values %r read as %r" % (want, v))


KINDS = {"f4": 1e-4, "f8": 1e-9, "i4": 0, "f": 1e-4, "d": 1e-9}


@st.composite
def datasets(draw):
    names = draw(st.permutations(["lat", "lon", "ari"]))[:draw(st.integers(2, 3))]
    if "lat" not in names or "lon" not in names:
        names = ["lat", "lon"]
    dims = []
    for n in names:
        size = draw(st.integers(1, 6))
        start, step = draw(dec(-80, 170, 2)), draw(st.sampled_from([0.05, 0.5, 1.0, -1.0]))
        dims.append({"name": n, "values": [round(start + step * k, 3) for k in range(size)],
                     "dtype": draw(st.sampled_from(["f", "f8"])),
                     "units": draw(st.sampled_from(["degrees", "years"]))})
    shape = {q["name"]: len(q["values"]) for q in dims}
    out = []
    for k in range(draw(st.integers(1, 3))):
        own = [n for n in names if draw(st.integers(0, 5))] or [names[0]]
        kind = draw(st.sampled_from(["f", "f8", "i4", "d"]))
        count = int(np.prod([shape[n] for n in own]))
        val = st.integers(-500, 500) if kind == "i4" else dec(-500, 900, 2)
        out.append({"name": "var%d" % k, "dims": own, "dtype": kind,
                    "values": None if draw(st.integers(0, 12)) == 0 else
                    [draw(st.one_of(val, val, val, st.just(None))) for _ in range(count)],
                    "units": draw(st.sampled_from(["m/s", "hPa", ""])),
                    "digits": None if kind == "i4" else draw(st.sampled_from([None, None, 0, 1, 5]))})
    return {"dims": dims, "vars": out, "nodata": draw(st.sampled_from([-9999, -9999.0, -99, 1e6])),
            "title": draw(st.sampled_from([None, "a title"])),
            "atts": draw(st.sampled_from([None, {}, {"source": "here"}, {"note": "n", "year": 3}])),
            "give": draw(st.booleans()), "masked": draw(st.booleans()), "zlib": draw(st.booleans()),
            "write": draw(st.sampled_from([True, True, True, False])),
            "open": draw(st.booleans()), "level": draw(st.integers(1, 9)),
            "lsd": None if any(v["dtype"] == "i4" for v in out) else draw(
                st.sampled_from([None, None, 1]))}


@st.composite
def saves(draw):
    return draw(st.lists(datasets(), min_size=1, max_size=3))


@prop.facet(saves, quick=250, thorough=4000,
            rule="datasets saved one after another over the same and other files; non-trivial "
                 "with two or more saves")
def netcdf(d, ctx):
    from netCDF4 import Dataset
    from Utilities import nctools
    path = scratch()
    ctx.nontrivial(len(d) > 1)
    saved = []
    for k, s in enumerate(d):
        name = os.path.join(path, "f%d.nc" % (k % 2))
        dims = {i: {"name": q["name"], "values": np.array(q["values"]), "dtype": q["dtype"],
                    "atts": {"units": q["units"], "long_name": q["name"] + " axis"}}
                for i, q in enumerate(s["dims"])}
        shape = {q["name"]: len(q["values"]) for q in s["dims"]}
        vs = {}
        for i, v in enumerate(s["vars"]):
            size = [shape[n] for n in v["dims"]]
            vals = None if v["values"] is None else np.array(
                [s["nodata"] if x is None else x for x in v["values"]], dtype=float).reshape(size)
            if vals is not None and s["masked"]:
                vals = np.ma.masked_where([[x is None for x in v["values"]]], [vals.ravel()],
                                          copy=True).reshape(size)
                vals.data[vals.mask] = 1.5
                ctx.klass("masked")
            vs[i] = {"name": v["name"], "dims": tuple(v["dims"]), "values": vals,
                     "dtype": v["dtype"], "atts": {"units": v["units"]}}
            if v["digits"] is not None:
                vs[i]["least_significant_digit"] = v["digits"]
                ctx.klass("rounded")
            if vals is None:
                ctx.klass("no values")
        atts = None if s["atts"] is None else dict(s["atts"])
        kw = {}
        if s["lsd"] is not None:
            kw["lsd"] = s["lsd"]
        if s["give"]:
            kw["gatts"] = atts
        else:
            atts = {}
        out = nctools.ncSaveGrid(name, dims, vs, nodata=s["nodata"], datatitle=s["title"],
                                 writedata=s["write"], keepfileopen=s["open"], zlib=s["zlib"],
                                 complevel=s["level"], **kw)
        if s["give"]:
            check(atts == s["atts"], "saving changes the attributes given, %r to %r" % (s["atts"], atts))
            ctx.klass("attributes")
        if s["open"]:
            check(out is not None, "no open file is returned")
            out.close()
        saved = [q for q in saved if q[0] != name] + [(name, s)]
    for name, s in saved:
        nc = Dataset(name)
        got = set(nc.ncattrs()) - {"created_on", "created_by", "Conventions"}
        want = dict(s["atts"] or {}) if s["give"] else {}
        if s["title"]:
            want["title"] = s["title"]
        check(got == set(want), "global attributes are %r, given %r" % (sorted(got), sorted(want)))
        for a, v in want.items():
            check(nc.getncattr(a) == v, "attribute %s is %r, given %r" % (a, nc.getncattr(a), v))
        check(set(nc.dimensions) == {q["name"] for q in s["dims"]}, "dimensions %r" % list(nc.dimensions))
        check(set(nc.variables) == {q["name"] for q in s["dims"]} | {v["name"] for v in s["vars"]},
              "variables %r" % list(nc.variables))
        nc.close()
        nc = nctools.ncLoadFile(name)
        for q in s["dims"]:
            x = nctools.ncGetDims(nc, q["name"])
            check(x.shape == (len(q["values"]),) and np.allclose(x, q["values"], atol=2e-5),
                  "axis %s is %r, given %r" % (q["name"], x, q["values"]))
            var = nctools.ncGetVar(nc, q["name"])
            check(var.units == q["units"] and var.long_name == q["name"] + " axis",
                  "attributes of axis %s" % q["name"])
        for v in s["vars"]:
            var = nctools.ncGetVar(nc, v["name"])
            check(var.dimensions == tuple(v["dims"]), "dimensions %r" % (var.dimensions,))
            check(var.units == v["units"], "units %r, given %r" % (var.units, v["units"]))
            check(float(var._FillValue) == float(s["nodata"]), "missing value %r" % var._FillValue)
            x = nctools.ncGetData(nc, v["name"])
            full = v["values"] is not None and s["write"]
            size = [len(q["values"]) for n in v["dims"] for q in s["dims"] if q["name"] == n]
            check(list(x.shape) == size, "shape %r, given %r" % (x.shape, size))
            vals = v["values"] if full else [None] * x.size
            w = np.array([s["nodata"] if q is None else q for q in vals], dtype=float).reshape(size)
            digits = v["digits"] if v["digits"] is not None else s["lsd"]
            check(np.allclose(x.astype(float), w, rtol=1e-6,
                              atol=1e-4 if digits is None else 1e-4 + 0.5 * 0.1 ** digits),
                  "values of %s are %r, given %r" % (v["name"], x, w))
            mask = np.ma.getmaskarray(var[:])
            lost = np.array([q is None or q == s["nodata"] for q in vals]).reshape(size)
            check((mask == lost).all(), "missing cells %r, given %r" % (mask, lost))
        nc.close()


@st.composite
def single(draw):
    nx, ny = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    return {"nx": nx, "ny": ny, "delta": draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])),
            "x0": draw(st.integers(0, 1200)) / 4, "y0": draw(dec(-60, 40, 1)),
            "data": [[draw(dec(0, 500, 1)) for _ in range(nx)] for _ in range(ny)],
            "records": draw(st.integers(0, 3)), "kind": draw(st.sampled_from(["nc", "txt"])),
            "pick": [draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))],
            "frac": draw(edge(dec(0.1, 0.9, 2), 0.5)), "turn": draw(st.sampled_from([0, 360, -360]))}


def write_single(d, path, rows=True):
    from Utilities import grid, nctools
    lon = d["x0"] + d["delta"] * np.arange(d["nx"])
    lat = d["y0"] + d["delta"] * np.arange(d["ny"])
    data = np.array(d["data"])
    if not rows:
        data = np.repeat(data[:1], d["ny"], axis=0)
    if d["kind"] == "txt":
        name = os.path.join(path, "g.txt")
        grid.grdSave(name, data[::-1], lon, lat, d["delta"])
    else:
        name = os.path.join(path, "g.nc")
        atts = {"units": "degrees"}
        nctools.ncSaveGrid(name, {0: {"name": "lat", "values": lat, "dtype": "f8", "atts": atts},
                                  1: {"name": "lon", "values": lon, "dtype": "f8", "atts": atts}},
                           {0: {"name": "field", "dims": ("lat", "lon"), "values": data,
                                "dtype": "f8", "atts": atts}})
    return name, lon, lat, data


@prop.facet(single, quick=300, thorough=4000,
            rule="grid of one field read as a grid and sampled along longitude; non-trivial when "
                 "columns differ")
def sampling(d, ctx):
    from Utilities import grid
    name, lon, lat, data = write_single(d, scratch())
    ctx.klass(d["kind"])
    x, y, v = grid.grdRead(name)
    up = v if y[0] < y[-1] else v[::-1]
    check(np.allclose(x, lon) and np.allclose(np.sort(y), lat) and np.allclose(up, data),
          "the grid read differs from the grid saved")
    if d["kind"] == "nc":
        x, y, v = grid.grdReadFromNetcdf(name)
        check(np.allclose(x, lon) and np.allclose(y, lat) and np.allclose(v, data),
              "the grid read from netCDF differs from the grid saved")
    name, lon, lat, data = write_single(d, scratch(), rows=False)
    ctx.nontrivial(len(set(data[0])) > 1)
    s = grid.SampleGrid(name)
    i, j = d["pick"]
    mid = lat[0] + 0.5 * d["delta"] * (d["ny"] - 1) - 0.25 * d["delta"]
    if d["kind"] == "nc":
        got = float(s.sampleGrid(lon[i] + d["turn"], mid))
        check(abs(got - data[0, i]) < 1e-6, "sampling at longitude %r gives %r, the column holds "
              "%r" % (lon[i] + d["turn"], got, data[0, i]))
    else:
        got = float(s.sampleGrid(lon[i], lat[0] - 5))
        check(abs(got - data[0, i]) < 1e-6, "sampling at longitude %r gives %r, the column holds "
              "%r" % (lon[i], got, data[0, i]))
    if i + 1 < d["nx"]:
        at = lon[i] + d["frac"] * d["delta"]
        got = float(s.sampleGrid(at, mid if d["kind"] == "nc" else lat[0] - 5))
        check(min(abs(got - data[0, i]), abs(got - data[0, i + 1])) < 1e-6,
              "sampling at longitude %r gives %r, the columns around hold %r and %r" % (
                  at, got, data[0, i], data[0, i + 1]))
        ctx.klass("between columns")


@prop.facet(single, quick=40, thorough=300,
            rule="grid sampled along latitude; non-trivial when rows differ")
def sampling_latitude(d, ctx):
    from Utilities import grid
    d = dict(d, kind="nc")
    name, lon, lat, data = write_single(d, scratch())
    i, j = d["pick"]
    ctx.nontrivial(d["data"][0] != d["data"][-1])
    got = float(grid.SampleGrid(name).sampleGrid(lon[i], lat[j]))
    if abs(got - data[j, i]) < 1e-6:
        return
    check(abs(got - data[d["ny"] - 1 - j, i]) < 1e-6, "sampling at %r gives %r, the grid holds %r "
          "there and %r at the mirrored latitude" % ((lon[i], lat[j]), got, data[j, i],
                                                      data[d["ny"] - 1 - j, i]))
    raise Violation("sampling a netCDF grid at latitude %r gives the value at the mirrored "
                    "latitude" % lat[j], finding="sample-latitude")


@prop.facet(single, quick=60, thorough=600,
            rule="netCDF field converted to text grids; non-trivial with several records")
def text_grids(d, ctx):
    from Utilities import grid, nc2txt, nctools
    path = scratch()
    lon = d["x0"] + d["delta"] * np.arange(d["nx"])
    lat = d["y0"] + d["delta"] * np.arange(d["ny"])
    base = np.array(d["data"])
    n = d["records"]
    ctx.nontrivial(n > 1)
    atts = {"units": "x"}
    dims = {0: {"name": "lat", "values": lat, "dtype": "f8", "atts": atts},
            1: {"name": "lon", "values": lon, "dtype": "f8", "atts": atts}}
    rec = [2.0, 5.0, 10.0][:n]
    data, names = base, ("lat", "lon")
    if n:
        dims[2] = {"name": "rec", "values": np.array(rec), "dtype": "f8", "atts": atts}
        data = np.array([base + 10 * k for k in range(n)])
        names = ("rec", "lat", "lon")
    data = data.copy()
    data[(0,) * data.ndim] = -9999
    nc = os.path.join(path, "in.nc")
    nctools.ncSaveGrid(nc, dims, {0: {"name": "field", "dims": names, "values": data, "dtype": "f8",
                                      "atts": atts}})
    with redirect_stdout(io.StringIO()):
        nc2txt.process(["-f", nc, "-v", "field"] + (["-r", "rec"] if n else []))
    made = sorted(f for f in os.listdir(path) if f.endswith(".txt"))
    want = sorted(["in.%r.txt" % float(r) for r in rec] if n else ["in.txt"])
    check(len(made) == len(want), "text grids %r for records %r" % (made, rec))
    for k in range(max(n, 1)):
        f = "in.%s.txt" % rec[k] if n else "in.txt"
        check(f in made, "text grids are %r, %r is missing" % (made, f))
        x, y, v = grid.grdRead(os.path.join(path, f))
        w = data[k] if n else data
        check(np.allclose(x, lon - d["delta"] / 2) and np.allclose(y, (lat - d["delta"] / 2)[::-1]),
              "corners of the cells are %r, %r" % (x, y))
        ww = np.where(w == -9999, np.nan, w)[::-1]
        check(np.allclose(v, ww, atol=6e-3, equal_nan=True), "values %r converted to %r" % (ww, v))


@st.composite
def tables(draw):
    cols, rows = draw(st.sampled_from([1, 2, 3, 4, 5])), draw(st.sampled_from([1, 2, 3, 4, 6, 9]))
    number = st.one_of(dec(-999, 9999, 2), dec(-999, 9999, 2), st.sampled_from([-9999.0, -999.0, 0.0]))
    return {"data": [[draw(number) for _ in range(cols)] for _ in range(rows)],
            "cols": cols, "rows": rows,
            "header": draw(st.sampled_from(["", "a,b,c", "first line\nsecond, line", "100% of 5"])),
            "delimiter": draw(st.sampled_from([",", ",", ";", " ", "\t"])),
            "fmt": draw(st.sampled_from([None, "%8.2f", "%.4f", "%g"])),
            "flat": draw(st.integers(0, 3)) == 3,
            "where": draw(st.sampled_from(["new", "old", "deep", "bare"]))}


@prop.facet(tables, quick=300, thorough=5000,
            rule="table of numbers with a header; non-trivial with two or more rows and columns")
def table(d, ctx):
    from Utilities import files
    path = scratch()
    data = np.array(d["data"])
    if d["flat"]:
        data = data[:, 0]
    name = os.path.join(path, "t.csv")
    if d["where"] == "deep":
        name = os.path.join(path, "one", "two", "t.csv")
    if d["where"] == "old":
        with open(name, "w") as f:
            f.write("1,2,3\n" * 200)
    ctx.klass(d["where"], "column" if d["flat"] else "table")
    ctx.nontrivial(data.ndim == 2 and min(data.shape) > 1)
    kw = {"header": d["header"], "delimiter": d["delimiter"]}
    if d["fmt"]:
        kw["fmt"] = d["fmt"]
    if d["where"] == "bare":
        here = os.getcwd()
        os.chdir(path)
        try:
            files.flSaveFile("t.csv", data, **kw)
        finally:
            os.chdir(here)
    else:
        files.flSaveFile(name, data, **kw)
    delim = None if d["delimiter"] == " " else d["delimiter"]
    got = files.flLoadFile(name, delimiter=delim)
    want = data
    if data.ndim == 2 and data.shape[1] == 1:
        want = data[:, 0]
    want = want.squeeze()
    tol = {"%g": 6e-2}.get(d["fmt"], 6e-3 if d["fmt"] else 1e-12)
    check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=tol),
          "table %r read as %r" % (want, got))
    again = files.flLoadFile(name, delimiter=delim, skiprows=d["header"].count("\n") + 1
                             if d["header"] else 0)
    check(again.shape == got.shape and (again == got).all(), "skipping the header changes the table")
    raw = open(name, "rb").read()
    size = files.flSize(name)
    check(size == len(raw), "size %r of a file of %d bytes" % (size, len(raw)))
    for chunk in (1, 7, 64, 2 ** 16):
        folder, base, md5, when = files.flGetStat(name, chunk)
        check((folder, base) == os.path.split(name), "name is given as %r, %r" % (folder, base))
        check(md5 == hashlib.md5(raw).hexdigest(), "digest read in pieces of %d differs" % chunk)
    stamp = 1000000000 + 7 * len(raw)
    os.utime(name, (stamp, stamp))
    mod = files.flModDate(name)
    check(mod == datetime.utcfromtimestamp(stamp).strftime("%Y-%m-%d %H:%M:%S"),
          "modification date %r" % mod)


@st.composite
def column_files(draw):
    n = draw(st.sampled_from([3, 4, 2, 5, 6, 1]))
    names = draw(st.permutations(["lon", "lat", "name", "pressure", "num", "date"]))[:n]
    skip = [draw(st.sampled_from([False, True, False])) for _ in names]
    if all(skip):
        skip[0] = False
    rows = []
    for _ in range(draw(st.sampled_from([2, 3, 1, 5, 8]))):
        rows.append({"lon": draw(dec(0, 360, 2)), "lat": draw(dec(-40, 40, 2)),
                     "name": draw(st.text("abcXYZ", min_size=1, max_size=6)),
                     "pressure": draw(dec(900, 1010, 1)), "num": draw(st.integers(0, 999)),
                     "date": draw(st.sampled_from(["2001-02-03 04:05", "1999-12-31 23:59"]))})
    return {"names": list(names), "skip": skip, "rows": rows,
            "delimiter": draw(st.sampled_from([",", ";", "|"])), "heading": draw(st.integers(0, 3)),
            "pad": draw(st.sampled_from(["", " "]))}


@prop.facet(column_files, quick=250, thorough=4000,
            rule="delimited file with chosen and skipped columns; non-trivial with two or more "
                 "rows and a skipped column")
def columns_file(d, ctx):
    from Utilities import columns, config
    path = scratch()
    ini, csv = os.path.join(path, "c.ini"), os.path.join(path, "c.csv")
    with open(ini, "w") as f:
        f.write("[SRC]\nFieldDelimiter=%s\nNumberOfHeadingLines=%d\nColumns=%s\n" % (
            d["delimiter"], d["heading"],
            d["delimiter"].join("skip" if s else n for n, s in zip(d["names"], d["skip"]))))
    with open(csv, "w") as f:
        for k in range(d["heading"]):
            f.write("heading %d\n" % k)
        for r in d["rows"]:
            f.write((d["pad"] + d["delimiter"] + d["pad"]).join(str(r[n]) for n in d["names"]) + "\n")
    config.reset()
    try:
        data = columns.colReadCSV(ini, csv, "SRC")
    finally:
        config.reset()
    keep = [n for n, s in zip(d["names"], d["skip"]) if not s]
    ctx.nontrivial(len(d["rows"]) > 1 and any(d["skip"]))
    check(list(data.dtype.names or [None]) == keep or (data.dtype.names is None and len(keep) == 1),
          "columns %r read as %r" % (keep, data.dtype.names))
    check(data.shape == (len(d["rows"]),), "%d rows read as %r" % (len(d["rows"]), data.shape))
    for n in keep:
        col = data[n] if data.dtype.names else data
        for k, r in enumerate(d["rows"]):
            same = str(col[k]) == r[n] if isinstance(r[n], str) else abs(float(col[k]) - r[n]) < 1e-9
            check(same, "column %s of row %d is %r, the file has %r" % (n, k, col[k], r[n]))


@st.composite
def time_axes(draw):
    return {"start": draw(st.sampled_from([[1900, 1, 1], [1970, 1, 1], [1800, 1, 1], [2000, 2, 28]])),
            "unit": draw(st.sampled_from(["hours", "days", "minutes", "seconds"])),
            "offsets": sorted(draw(st.lists(st.integers(0, 900000), min_size=1, max_size=8, unique=True))),
            "early": draw(st.integers(0, 5)) == 5,
            "calendar": draw(st.sampled_from([None, "standard", "gregorian", "proleptic_gregorian"])),
            "name": draw(st.sampled_from(["time", "time", "when"])),
            "convention": draw(st.sampled_from([None, None, "COARDS"])),
            "data": draw(st.lists(dec(-5, 5, 2), min_size=1, max_size=5))}


@prop.facet(time_axes, quick=200, thorough=3000,
            rule="time axis stored with its units; non-trivial with two or more times")
def times(d, ctx):
    from netCDF4 import Dataset
    from Utilities import nctools
    name = os.path.join(scratch(), "t.nc")
    axis = "time" if d["convention"] else d["name"]
    atts = {"units": "%s since %04d-%02d-%02d 00:00:00" % ((d["unit"],) + tuple(d["start"]))}
    if d["calendar"]:
        atts["calendar"] = d["calendar"]
    if d["early"] and d["calendar"] == "proleptic_gregorian":
        d = dict(d, start=[1500, 1, 1])
        atts["units"] = "%s since 1500-01-01 00:00:00" % d["unit"]
        ctx.klass("early reference date")
    vals = d["offsets"] if d["unit"] != "days" else [v // 24 for v in d["offsets"]]
    vals = sorted(set(vals))
    nc = Dataset(name, "w")
    nctools.ncCreateDim(nc, axis, np.array(vals), "f8", atts)
    nctools.ncCreateDim(nc, "x", np.arange(len(d["data"])), "f8")
    nctools.ncCreateVar(nc, "field", ("x",), "f8", data=np.array(d["data"]), atts={"units": "m"})
    if d["convention"]:
        nc.Convention = d["convention"]
    nc.close()
    ctx.nontrivial(len(vals) > 1)
    ctx.klass(d["unit"])
    nc = nctools.ncLoadFile(name)
    got = nctools.ncGetTimes(nc, name=axis)
    check(len(got) == len(vals), "%d times read as %d" % (len(vals), len(got)))
    for v, g in zip(vals, got):
        w = datetime(*d["start"]) + timedelta(**{d["unit"]: v})
        check(isinstance(g, datetime) and abs((g - w).total_seconds()) < 1e-3,
              "time %r read as %r" % (w, g))
    x = nctools.ncGetData(nc, "field")
    check(np.allclose(x, d["data"]) and nctools.ncGetVar(nc, "field").units == "m",
          "variable created with %r holds %r" % (d["data"], x))
    nc.close()


@st.composite
def cubes(draw):
    shape = [draw(st.integers(4, 8)) for _ in range(3)]
    return {"shape": shape, "seed": draw(st.integers(0, 10 ** 6)),
            "scale": [draw(st.sampled_from([360.0, 365.0, 10.0, -180.0])) for _ in range(3)],
            "offset": [draw(st.sampled_from([0.0, -90.0, 90.0, 5.0])) for _ in range(3)],
            "n": draw(st.integers(1, 8)), "u": draw(dec(-3, 3, 1))}


@prop.facet(cubes, quick=200, thorough=3000,
            rule="three-dimensional field sampled at its nodes; non-trivial with several points")
def field_sampling(d, ctx):
    from Utilities.interp3d import interp3d
    rng = np.random.RandomState(d["seed"])
    shape = d["shape"]
    data = rng.uniform(980, 1020, shape)
    idx = np.array([rng.randint(0, n - 1, d["n"]) for n in shape])
    co = np.array([d["offset"][k] + d["scale"][k] * idx[k] / shape[k] for k in range(3)], dtype=float)
    ctx.nontrivial(d["n"] > 1)
    keep = data.copy()
    got = interp3d(data, co, d["scale"], d["offset"])
    check((data == keep).all(), "sampling changes the field")
    want = data[tuple(idx)]
    check(got.shape == want.shape and np.abs(got - want).max() < 1e-6,
          "values at the nodes are %r, the field holds %r" % (got, want))
    one = np.array([interp3d(data, co[:, k:k + 1], d["scale"], d["offset"])[0] for k in range(d["n"])])
    check(np.abs(one - got).max() < 1e-9, "points sampled together and alone differ")
    flat = interp3d(np.full(shape, 7.0), co + 0.3 * np.abs(np.array(d["scale"]))[:, None] / 10,
                    d["scale"], d["offset"])
    check(np.abs(flat - 7.0).max() < 1e-9, "a constant field is sampled as %r" % (flat,))
    # Smooth field between nodes, away from the edges.
    if min(shape) >= 6:
        g = np.meshgrid(*[np.arange(n) for n in shape], indexing="ij")
        lin = 1000 + d["u"] * g[0] + 2 * g[1] - g[2]
        p = rng.uniform(2.2, np.array(shape)[:, None] - 3.2, (3, d["n"]))
        co = np.array([d["offset"][k] + d["scale"][k] * p[k] / shape[k] for k in range(3)])
        got = interp3d(lin, co, d["scale"], d["offset"])
        want = 1000 + d["u"] * p[0] + 2 * p[1] - p[2]
        check(np.abs(got - want).max() < 2.5, "a sloping field is sampled as %r, expected %r" % (got, want))
        ctx.klass("between nodes")
