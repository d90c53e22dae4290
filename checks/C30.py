"""Local winds follow from regional winds and site multipliers."""
import contextlib
import io
import logging
import math
import os
import sys

from hypothesis import strategies as st

from vf import Property, check, close, Violation, scratch, REPO
from vf.gen import dec, edge

TECHNIQUE = ("generated wind fields and multiplier rasters through both processing methods and "
             "the whole program, against the product of interpolated wind and the multiplier of "
             "the sector at each pixel; generated rasters written, combined, cut and reread")
NOTE = ("wind grids up to 6 x 5 cells, multipliers on the same or a 2 to 4 times finer grid "
        "over all or part of them; within 1e-4 degrees of a sector edge either neighbour counts")

prop = Property("C30", preload=("numpy", "netCDF4"), assumptions=[
    "latitudes of the wind field run from north to south, as in the files the model writes",
    "the multiplier rasters lie within the wind field"])

DIRNS = ["e", "n", "ne", "nw", "s", "se", "sw", "w"]         # order of the bands
ROSE = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]
EDGES = [22.5 + 45 * k for k in range(8)]
NODATA = [-9999.0, -9999.0, -1.0, 0.0, 255.0]


def sectors(bearing):
    """Sectors a bearing may belong to (two only where it is on an edge)."""
    b = bearing % 360.0
    return {ROSE[int(((b + e + 22.5) % 360) // 45) % 8] for e in (-1e-4, 0, 1e-4)}


def raster(path, data, x, y, d, nodata):
    """Bands of a raster whose top left corner is (x, y)."""
    from osgeo import gdal, osr
    ny, nx = data[0].shape
    ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, len(data), gdal.GDT_Float32)
    ds.SetGeoTransform((x, d, 0, y, 0, -d))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    ds.SetProjection(srs.ExportToWkt())
    for k, a in enumerate(data):
        b = ds.GetRasterBand(k + 1)
        if nodata is not None:
            b.SetNoDataValue(nodata)
        b.WriteArray(a)
    ds.FlushCache()
    ds = None


def read(path, band=1):
    from osgeo import gdal
    ds = gdal.Open(path)
    b = ds.GetRasterBand(band)
    out = b.ReadAsArray(), ds.GetGeoTransform(), b.GetNoDataValue(), ds.GetProjection()
    del b, ds
    return out


@st.composite
def sites(draw):
    nx, ny = draw(st.integers(2, 6)), draw(st.integers(2, 5))
    n = nx * ny
    bearing = draw(st.lists(edge(dec(0, 359.99, 2), 0.0, 359.9999999, 360 - 1e-6, 1e-7, *EDGES),
                            min_size=n, max_size=n))
    fine = draw(st.sampled_from([1, 1, 2, 3, 4]))
    i0, j0 = draw(st.integers(0, nx - 1)), draw(st.integers(0, ny - 1))
    return {"nx": nx, "ny": ny, "bearing": bearing,
            "wind": draw(st.lists(edge(dec(1, 90, 1), 0.0), min_size=n, max_size=n)),
            "x0": draw(st.sampled_from([100.0, 113.5, 150.25])), "y0": draw(st.sampled_from([-30.0, -12.5, 10.0])),
            "step": draw(st.sampled_from([0.5, 0.25, 0.125])), "fine": fine,
            "window": draw(st.sampled_from([None, [i0, draw(st.integers(i0 + 1, nx)), j0,
                                                   draw(st.integers(j0 + 1, ny))]])),
            "seed": draw(st.integers(0, 10 ** 6)), "nodata": draw(st.sampled_from(NODATA)),
            "gaps": draw(st.sampled_from([0.0, 0.1, 0.4])), "combined": draw(st.booleans()),
            "method": draw(st.sampled_from([1, 2, 2])), "threads": draw(st.integers(1, 6)),
            "segment": draw(st.sampled_from([1, 2, 3, 5, 7, 64])), "f4": draw(st.booleans())}


@st.composite
def wide_sites(draw):
    """Rasters longer or wider than the segments they are usually processed in."""
    d = draw(sites())
    n = draw(st.sampled_from([60, 90, 130]))
    if draw(st.booleans()):
        d["nx"], d["ny"] = n, 2
    else:
        d["nx"], d["ny"] = 2, n
    for k in ("bearing", "wind"):
        d[k] = (d[k] * n)[:2 * n]
    return dict(d, window=None, method=2, fine=draw(st.integers(3, 5)),
                segment=draw(st.sampled_from([64, 200, 256, 256, 300, 512])))


def fields(d):
    import numpy as np
    dt = "f4" if d["f4"] else "f8"
    shape = d["ny"], d["nx"]
    w = np.array(d["wind"]).reshape(shape)
    b = np.radians(np.array(d["bearing"]).reshape(shape))
    # A still cell has a direction too: that of its (zero) components.
    u, v = (-np.maximum(w, 1) * np.sin(b)).astype(dt), (-np.maximum(w, 1) * np.cos(b)).astype(dt)
    lon = d["x0"] + d["step"] * np.arange(d["nx"])
    lat = (d["y0"] + d["step"] * np.arange(d["ny"]))[::-1]
    return w.astype(dt), u, v, lon, lat


def multipliers(d):
    """Multiplier arrays by direction, with the corner and size of their cells."""
    import numpy as np
    i0, i1, j0, j1 = d["window"] or [0, d["nx"], 0, d["ny"]]
    k = d["fine"]
    r = np.random.RandomState(d["seed"])
    out = {}
    for n in DIRNS:
        a = np.round(r.uniform(0.3, 2.0, ((j1 - j0) * k, (i1 - i0) * k)), 2).astype("f4")
        a[r.uniform(size=a.shape) < d["gaps"]] = d["nodata"]
        out[n] = a
    x = d["x0"] - d["step"] / 2 + i0 * d["step"]
    y = d["y0"] + d["step"] * (d["ny"] - 0.5) - j0 * d["step"]
    return out, x, y, d["step"] / k


def winds_at(d, w, x, y):
    """Bilinear regional wind, and the cell the point is in."""
    fx = (x - d["x0"]) / d["step"]
    fy = d["ny"] - 1 - (y - d["y0"]) / d["step"]
    i, j = int(math.floor(fx + 0.5)), int(math.floor(fy + 0.5))
    fx, fy = min(max(fx, 0.0), d["nx"] - 1.0), min(max(fy, 0.0), d["ny"] - 1.0)
    a, b = min(int(fx), d["nx"] - 2), min(int(fy), d["ny"] - 2)
    p, q = fx - a, fy - b
    v = ((1 - p) * (1 - q) * w[b][a] + p * (1 - q) * w[b][a + 1] + (1 - p) * q * w[b + 1][a] +
         p * q * w[b + 1][a + 1])
    return v, i, j


def compare(d, path, region):
    w, u, v, lon, lat = fields(d)
    m, x, y, dx = multipliers(d)
    got, gt, nodata, proj = read(path)
    ny, nx = m["n"].shape
    check(got.shape == (ny, nx), "size of the local wind raster %r, multipliers %r" % (got.shape, (ny, nx)))
    check(max(abs(a - b) for a, b in zip(gt, (x, dx, 0, y, 0, -dx))) < 1e-9, "georeference %r" % (gt,))
    check("WGS 84" in proj and nodata == -9999, "reference system or missing value")
    for j in range(ny):
        for i in range(nx):
            wind, ci, cj = winds_at(d, w, x + (i + 0.5) * dx, y - (j + 0.5) * dx)
            want = []
            for s in sectors(d["bearing"][cj * d["nx"] + ci]):
                k = float(m[s][j][i])
                want.append(wind * (1.0 if k == d["nodata"] else k))
            check(any(abs(float(got[j][i]) - t) <= 2e-4 * max(1.0, abs(t)) for t in want),
                  "local wind at row %d column %d is %r; wind %r from %r, multiplied %r" %
                  (j, i, float(got[j][i]), wind, d["bearing"][cj * d["nx"] + ci], want))
    # The regional wind is kept too.
    r, gt, _, _ = read(region)
    south = gt[5] > 0
    edge_y = lat[-1] - d["step"] / 2 if south else lat[0] + d["step"] / 2
    check(abs(gt[0] - (lon[0] - d["step"] / 2)) < 1e-9 and abs(gt[3] - edge_y) < 1e-9, "place of the regional wind")
    close(r[::-1] if south else r, w, "regional wind raster", rtol=1e-6)


def prepare(d, root):
    m, x, y, dx = multipliers(d)
    if d["combined"]:
        f = os.path.join(root, "combined.tif")
        raster(f, [m[n] for n in DIRNS], x, y, dx, d["nodata"])
        return f, [f]
    files = []
    for n in DIRNS:
        files.append(os.path.join(root, "m4_%s.tif" % n))
        raster(files[-1], [m[n]], x, y, dx, d["nodata"])
    return None, files


def content(paths):
    out = {}
    for p in paths:
        with open(p, "rb") as f:
            out[p] = f.read()
        check(not os.path.exists(p + ".aux.xml"), "the description of %s is changed" % os.path.basename(p))
    return out


@prop.facet(sites, quick=350, thorough=6000, case_limit=60,
            rule="a wind field and multipliers; non-trivial when several sectors occur and "
                 "multipliers are finer than the wind, cut or partly missing")
def local_wind(d, ctx):
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    w, u, v, lon, lat = fields(d)
    h = d["step"] / 2
    ctx.nontrivial(len({tuple(sectors(b)) for b in d["bearing"]}) > 1 and
                   (d["fine"] > 1 or d["gaps"] > 0 or bool(d["window"])))
    ctx.klass("method %d" % d["method"], "fine %d" % d["fine"], "one file" if d["combined"] else "eight files")
    root = scratch()
    combined, files = prepare(d, root)
    before = content(files)
    keep = [a.copy() for a in (w, u, v)]
    with contextlib.redirect_stdout(io.StringIO()):
        if d["method"] == 1:
            out = P.processMult(w, u, v, lon - h, lat - h, root, combined_mulipliers_file=combined)
        else:
            out = P.processMultV2(w, u, v, lon - h, lat - h, root, list(DIRNS), d["threads"], d["segment"], 50,
                                  combined_mulipliers_file=combined)
    check(all((a == b).all() for a, b in zip(keep, (w, u, v))), "the wind field passed in is changed")
    check(content(files) == before, "the multiplier files are changed")
    compare(d, out, os.path.join(root, "region_wind.tif"))


@prop.facet(wide_sites, quick=40, thorough=150, case_limit=60,
            rule="a wind field and multipliers of several hundred pixels; non-trivial when there "
                 "is more than one segment")
def large(d, ctx):
    from ProcessMultipliers import processMultipliers as P
    w, u, v, lon, lat = fields(d)
    h = d["step"] / 2
    ctx.nontrivial(max(d["nx"], d["ny"]) * d["fine"] > d["segment"])
    root = scratch()
    combined, files = prepare(d, root)
    with contextlib.redirect_stdout(io.StringIO()):
        out = P.processMultV2(w, u, v, lon - h, lat - h, root, list(DIRNS), d["threads"], d["segment"], 50,
                              combined_mulipliers_file=combined)
    compare(d, out, os.path.join(root, "region_wind.tif"))


@st.composite
def bearings(draw):
    return [[draw(dec(0, 360, 3)), draw(dec(0.1, 90, 2))] for _ in range(draw(st.integers(1, 20)))]


@prop.facet(bearings, quick=500, thorough=10000,
            rule="winds by bearing and speed; non-trivial when there are several")
def direction(d, ctx):
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    ctx.nontrivial(len(d) > 1)
    b = np.array([x[0] for x in d])
    s = np.array([x[1] for x in d])
    got = P.calculateBearing(-s * np.sin(np.radians(b)), -s * np.cos(np.radians(b)))
    check(((got >= 0) & (got <= 360)).all(), "bearing outside 0 to 360")
    diff = np.abs((got - b + 180) % 360 - 180)
    check((diff < 1e-6).all(), "wind from %r reported from %r" % (b, got))
    check(len(P.syn_indices) >= 9 and sum(1 for x in P.syn_indices.values() if "min" in x) == 9, "sector table")
    for x in b:
        hit = [v["dir"] for v in P.syn_indices.values() if "min" in v and v["min"] <= x % 360.0 < v["max"]]
        check(len(hit) == 1 and hit[0] in sectors(x), "wind from %r is in sectors %r" % (x, hit))


@st.composite
def pictures(draw):
    nx, ny = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    return {"nx": nx, "ny": ny, "values": draw(st.lists(edge(dec(-500, 500, 2), -9999.0, 0.0, -1.0),
                                                        min_size=nx * ny, max_size=nx * ny)),
            "ext": draw(st.sampled_from([".tif", ".img", None])), "x": draw(dec(-180, 180, 2)),
            "y": draw(dec(-60, 60, 2)), "d": draw(st.sampled_from([0.05, 0.5, 1.0])),
            "up": draw(st.booleans()), "nodata": draw(st.sampled_from([-9999, -1, 0])),
            "fill": draw(st.sampled_from([1, -5, 0]))}


@prop.facet(pictures, quick=600, thorough=10000,
            rule="a raster written and read; non-trivial when some of it is missing")
def rasters(d, ctx):
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    a = np.array(d["values"]).reshape(d["ny"], d["nx"])
    x = d["x"] + d["d"] * np.arange(d["nx"])
    y = d["y"] + d["d"] * np.arange(d["ny"])
    dy = d["d"] if d["up"] else -d["d"]
    ctx.nontrivial(bool((a == d["nodata"]).any()))
    ctx.klass(d["ext"] or "memory")
    f = os.path.join(scratch(), "r" + d["ext"]) if d["ext"] else None
    ds = P.createRaster(a, x, y, d["d"], dy, filename=f, nodata=d["nodata"])
    # Rows are stored northwards up, the last latitude first, when the spacing is negative.
    want = (a if d["up"] else a[::-1]).astype("f4")
    check((ds.ReadAsArray() == want).all() and ds.GetRasterBand(1).GetNoDataValue() == d["nodata"], "values written")
    close(ds.GetGeoTransform(), (x[0], d["d"], 0, y[-1], 0, dy), "georeference", rtol=1e-9, atol=1e-9)
    check("4326" in ds.GetProjection(), "reference system")
    ds = None
    if f is None:
        return
    filled = np.where(want == d["nodata"], np.float32(d["fill"]), want)
    check((P.loadRasterFile(f, d["fill"]) == filled).all(), "values read back")
    check((P.loadRasterFile(f) == np.where(want == d["nodata"], np.float32(1), want)).all(), "values read with 1 for missing")
    x0, y0, x1, y1, data = P.loadRasterFileBandLonLat(f, d["fill"])
    check((data == filled).all(), "values read back with their place")
    if not d["up"]:
        close((x0, y0, x1, y1), (x[0], y[-1] - d["d"] * d["ny"], x[0] + d["d"] * d["nx"], y[-1]), "place",
              rtol=1e-9, atol=1e-9)


@st.composite
def parts(draw):
    nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    dirs = draw(st.lists(st.sampled_from(DIRNS), min_size=1, max_size=3, unique=True))
    return {"nx": nx, "ny": ny, "dirs": dirs, "seed": draw(st.integers(0, 10 ** 6)),
            "gaps": draw(st.sampled_from([0.0, 0.2, 0.5]))}


def blank_config(P, ini, text):
    from Utilities import config
    with open(ini, "w") as f:
        f.write(text)
    config.reset()
    return P.getMultipliers(ini)


@prop.facet(parts, quick=250, thorough=4000,
            rule="terrain, topographic and shielding rasters combined; non-trivial when one is "
                 "missing where another is not")
def combine(d, ctx):
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    root = scratch() + os.sep
    r = np.random.RandomState(d["seed"])
    want = {}
    mixed = False
    for n in d["dirs"]:
        prod, gone, all_gone = np.ones((d["ny"], d["nx"])), np.zeros((d["ny"], d["nx"]), bool), None
        for k in ("terrain", "topographic", "shielding"):
            os.makedirs(root + k, exist_ok=True)
            a = np.round(r.uniform(0.3, 2.0, prod.shape), 2).astype("f4")
            g = r.uniform(size=a.shape) < d["gaps"]
            prod, gone = prod * a, gone | g
            all_gone = g if all_gone is None else all_gone & g
            raster("%s%s/%s_%s.tif" % (root, k, n, k), [np.where(g, np.float32(-9999), a)], 113.0, -10.0, 0.25, -9999)
        mixed |= bool((gone & ~all_gone).any())
        want[n] = np.where(gone, -9999, prod)
    ctx.nontrivial(mixed)
    gm = blank_config(P, root + "a.ini", "[Input]\nRawMultipliers=%s\n[Output]\nPath=%s\n" % (root, root))
    gm.combineDirections(d["dirs"], root)
    for n in d["dirs"]:
        got, gt, nodata, proj = read(root + "m4_%s.tif" % n)
        close(got, want[n], "combined multiplier %s" % n, rtol=1e-5)
        check(nodata == -9999 and gt == (113.0, 0.25, 0, -10.0, 0, -0.25) and "WGS 84" in proj, "description of the result")


def run_program(P, ini):
    from Utilities import config
    config.reset()
    cwd, argv = os.getcwd(), sys.argv
    handlers = logging.getLogger().handlers[:]
    try:
        sys.argv = ["processMultipliers.py", "-c", ini]
        with contextlib.redirect_stdout(io.StringIO()):
            P.run()
    finally:
        os.chdir(cwd)
        sys.argv = argv
        logging.getLogger().handlers[:] = handlers


def gust_file(path, d):
    import netCDF4
    w, u, v, lon, lat = fields(d)
    with netCDF4.Dataset(path, "w") as nc:
        for n, a in (("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(a))
            nc.createVariable(n, "f8", (n,))[:] = a
        for n, a in (("vmax", w), ("ua", u), ("va", v)):
            nc.createVariable(n, "f4", ("lat", "lon"))[:] = a


class Store:
    """Objects kept by bucket and key, with the two calls the program makes."""

    def __init__(self):
        self.objects = {}

    def put(self, path, bucket, key):
        with open(path, "rb") as f:
            self.objects[(bucket, key)] = f.read()

    def download_file(self, Bucket, Key, Filename):
        from botocore.exceptions import ClientError
        if (Bucket, Key) not in self.objects:
            raise ClientError({"Error": {"Code": "404", "Message": "Not Found"}}, "HeadObject")
        with open(Filename, "wb") as f:
            f.write(self.objects[(Bucket, Key)])

    def upload_file(self, Filename, Bucket, Key):
        self.put(Filename, Bucket, Key)

    @contextlib.contextmanager
    def installed(self):
        import boto3
        keep = boto3.client
        boto3.client = lambda *a, **k: self
        try:
            yield self
        finally:
            boto3.client = keep


KEYS = st.lists(st.sampled_from(["a", "run 1", "2020", "x.y", "deep"]), min_size=0, max_size=4)


@st.composite
def stores(draw):
    d = draw(sites())
    return dict(d, combined=True, window=None, f4=True, remote=draw(st.lists(
        st.sampled_from(["gust", "multipliers", "output", "output"]), min_size=1, max_size=3, unique=True)),
        keys=[draw(KEYS) for _ in range(3)], slash=draw(st.booleans()), temporary=draw(st.integers(0, 2)),
        raw=draw(st.lists(st.sampled_from(["tile0", "e119.0000s19.0000", "t"]), min_size=1, max_size=3, unique=True)),
        dirs=draw(st.lists(st.sampled_from(DIRNS), min_size=1, max_size=4, unique=True)))


@prop.facet(stores, quick=100, thorough=600, case_limit=120,
            rule="the whole program with files in an object store; non-trivial when the output "
                 "goes there or keys have several parts")
def stored(d, ctx):
    from ProcessMultipliers import processMultipliers as P
    ctx.nontrivial("output" in d["remote"] or any(len(k) > 1 for k in d["keys"]))
    root = scratch()
    local = os.path.join(root, "gust.nc")
    gust_file(local, d)
    combined, files = prepare(d, root)
    m, x, y, dx = multipliers(d)
    ny, nx = m["n"].shape
    extent = {"xMin": x, "xMax": x + nx * dx, "yMin": y - ny * dx, "yMax": y}
    store = Store()
    at = ["".join(k + "/" for k in key) for key in d["keys"]]
    gust, mult, out = local, combined, os.path.join(root, "out") + os.sep
    if "gust" in d["remote"]:
        store.put(local, "bucket-a", at[0] + "gust.nc")
        os.unlink(local)
        gust = "/vsis3/bucket-a/" + at[0] + "gust.nc"
    if "multipliers" in d["remote"]:
        store.put(combined, "b", at[1] + "combined.tif")
        os.unlink(combined)
        mult = "/vsis3/b/" + at[1] + "combined.tif"
        files = []
    if "output" in d["remote"]:
        out = "/vsis3/results/" + at[2]
        if not d["slash"]:
            out = out.rstrip("/")
    elif d["slash"]:
        # left by an earlier run
        os.makedirs(out)
    before = dict(store.objects)
    there = content(files)
    temp = ""
    if d["temporary"]:
        temp = os.path.join(root, "tmp") + ("/" if d["temporary"] == 2 else "")
        if d["seed"] % 2:
            os.makedirs(temp)
        temp = "Temporary_working_dir=%s\n" % temp
    with open(os.path.join(root, "m.ini"), "w") as f:
        f.write("[Input]\nGust_file=%s\nMultipliers=%s\nExtent=%r\nExtentApplied=yes\n[Output]\nPath=%s\nWorking_dir=%s\n"
                "%s[ProcessMultipliers]\nProcessMultiVersion=%d\nMaxWorkingThreads=%d\nProcessingSegmentSize=%d\n"
                "[Logging]\nLogFile=%s\nLogLevel=CRITICAL\nVerbose=False\nDatestamp=False\n" %
                (gust, mult, extent, root, out, temp, d["method"], d["threads"], d["segment"],
                 os.path.join(root, "log.txt")))
    with store.installed():
        run_program(P, os.path.join(root, "m.ini"))
    check(content(files) == there, "the multiplier file is changed")
    for k, v in before.items():
        check(store.objects.get(k) == v, "an input in the store is changed")
    if "output" in d["remote"]:
        prefix = at[2]
        for n in ("local_wind.tif", "region_wind.tif"):
            check(("results", prefix + n) in store.objects, "%s is not stored under %r; there are %r" %
                  (n, prefix, sorted(set(store.objects) - set(before))))
        check(all(b == "results" and k.startswith(prefix) for b, k in set(store.objects) - set(before)),
              "stored elsewhere")
        out = os.path.join(root, "fetched") + os.sep
        os.makedirs(out)
        for b, k in set(store.objects) - set(before):
            with open(out + k[len(prefix):], "wb") as f:
                f.write(store.objects[(b, k)])
    else:
        check(store.objects == before, "something is stored that was not asked for")
    check(os.path.exists(out + "local_wind.tif"), "the program ends without a local wind raster")
    compare(d, out + "local_wind.tif", out + "region_wind.tif")
    # Tiles of the three multipliers are fetched as they are.
    kinds = {"shielding": "Ms", "terrain": "Mz", "topographic": "Mt"}
    want = {}
    for kind, var in kinds.items():
        for t in d["raw"]:
            for n in d["dirs"]:
                name = "%s/%s_%s_%s.nc" % (kind, t, var.lower(), n)
                want[name] = store.objects[("raw", at[0] + name)] = ("%s %d" % (name, d["seed"])).encode()
    gm = blank_config(P, os.path.join(root, "a.ini"), "[Input]\nRawMultipliers=/vsis3/raw/%s\n[Output]\nPath=%s\n" %
                      (at[0] if d["slash"] or not at[0] else at[0][:-1], root))
    with store.installed():
        gm.check_if_wm_source_from_s3(kinds, d["raw"], d["dirs"])
    base = gm.WMPath
    got = {}
    for kind in kinds:
        for n in os.listdir(base + kind):
            with open(base + kind + "/" + n, "rb") as f:
                got[kind + "/" + n] = f.read()
    check(got == want, "tiles fetched are %r, asked for %r" % (sorted(got), sorted(want)))
    # Directories of an earlier run are emptied before use.
    work = os.path.join(root, "work")
    for n in range(d["seed"] % 3):
        for kind in kinds:
            os.makedirs(os.path.join(work, kind), exist_ok=True)
            for e in (".nc", ".tif"):
                with open(os.path.join(work, kind, "old%d_n%s" % (n, e)), "w") as f:
                    f.write("x")
    gm.checkOutputFolders(work, kinds)
    for kind in kinds:
        check(os.listdir(os.path.join(work, kind)) == [], "left from an earlier run: %r" %
              os.listdir(os.path.join(work, kind)))


@prop.facet(sites, quick=60, thorough=600, case_limit=120,
            rule="the whole program on a wind field file and one multiplier file; non-trivial "
                 "as for the local wind")
def program(d, ctx):
    import netCDF4
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    from Utilities import config
    d = dict(d, combined=True, window=None, f4=True)
    ctx.nontrivial(d["fine"] > 1 or d["gaps"] > 0)
    root = scratch()
    w, u, v, lon, lat = fields(d)
    with netCDF4.Dataset(os.path.join(root, "gust.nc"), "w") as nc:
        for n, a in (("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(a))
            nc.createVariable(n, "f8", (n,))[:] = a
        for n, a in (("vmax", w), ("ua", u), ("va", v)):
            nc.createVariable(n, "f4", ("lat", "lon"))[:] = a
    combined, files = prepare(d, root)
    before = content(files)
    out = os.path.join(root, "out") + os.sep
    # The program cuts the multipliers to the centres of the outer wind cells
    # unless told where to cut: keep all of them.
    m, x, y, dx = multipliers(d)
    ny, nx = m["n"].shape
    extent = {"xMin": x, "xMax": x + nx * dx, "yMin": y - ny * dx, "yMax": y}
    with open(os.path.join(root, "m.ini"), "w") as f:
        f.write("[Input]\nGust_file=%s\nMultipliers=%s\nExtent=%r\nExtentApplied=%s\n[Output]\nPath=%s\nWorking_dir=%s\n"
                "[ProcessMultipliers]\nProcessMultiVersion=%d\nMaxWorkingThreads=%d\nProcessingSegmentSize=%d\n"
                "WarpMemoryLimit=50\n[Logging]\nLogFile=%s\nLogLevel=CRITICAL\nVerbose=False\nDatestamp=False\n" %
                (os.path.join(root, "gust.nc"), combined, extent, "yes" if d["seed"] % 2 else "no", out, out,
                 d["method"], d["threads"], d["segment"], os.path.join(root, "log.txt")))
    run_program(P, os.path.join(root, "m.ini"))
    check(os.path.exists(out + "local_wind.tif"), "the program ends without a local wind raster")
    check(content(files) == before, "the multiplier file is changed")
    compare(d, out + "local_wind.tif", out + "region_wind.tif")


@prop.facet(sites, quick=150, thorough=2500,
            rule="the area common to wind field and multipliers; non-trivial when neither covers "
                 "the other")
def extent(d, ctx):
    import netCDF4
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    root = scratch()
    w, u, v, lon, lat = fields(d)
    m, x, y, dx = multipliers(d)
    x += (d["seed"] % 5 - 2) * d["step"]
    y += (d["seed"] % 3 - 1) * d["step"]
    ny, nx = m["n"].shape
    gust = os.path.join(root, "g.nc")
    with netCDF4.Dataset(gust, "w") as nc:
        for n, a in (("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(a))
            nc.createVariable(n, "f8", (n,))[:] = a
    f = os.path.join(root, "c.tif")
    raster(f, [m[n] for n in DIRNS], x, y, dx, d["nodata"])
    want = (max(lon[0], x), min(lon[-1], x + nx * dx), max(lat[-1], y - ny * dx), min(lat[0], y))
    names = ("xMin", "xMax", "yMin", "yMax")
    ctx.nontrivial(len({k for k in want if k not in (lon[0], lon[-1], lat[0], lat[-1])}) in (1, 2, 3))
    for partial in ({}, {"xMin": 1.0}, {"xMin": 0.0, "xMax": 1.0, "yMin": 0.0}):
        got = P.computeOutputExtentIfInvalid(dict(partial), gust, f)
        close([float(got[k]) for k in names], want, "common area", rtol=1e-9)
    given = dict(zip(names, (1.0, 2.0, 3.0, 4.0)))
    check(P.computeOutputExtentIfInvalid(given, gust, f) == given, "an area given is not kept")
    # Cut to whole pixels.
    r = np.random.RandomState(d["seed"])
    a, b = sorted(r.randint(0, nx + 1, 2))
    c, e = sorted(r.randint(0, ny + 1, 2))
    if a == b or c == e:
        return
    cut = {"xMin": x + a * dx, "xMax": x + b * dx, "yMax": y - c * dx, "yMin": y - e * dx}
    gm = blank_config(P, os.path.join(root, "a.ini"), "[Input]\nMultipliers=%s\nExtent=%r\n[Output]\nPath=%s\n" %
                      (f, cut, root))
    check(gm.extent == cut, "area read from the configuration")
    made = gm.build_combined_multipliers_for_all_directions(root)
    for k, n in enumerate(DIRNS):
        got, gt, nodata, _ = read(made, k + 1)
        check(got.shape == (e - c, b - a) and (got == m[n][c:e, a:b]).all(), "band %d after cutting" % (k + 1))
        check(nodata == d["nodata"], "missing value after cutting")
        close(gt, (x + a * dx, dx, 0, y - c * dx, 0, -dx), "georeference after cutting", atol=1e-9)


@prop.facet(sites, quick=2, thorough=30, case_limit=300,
            rule="the whole program from tiles of the three multipliers; non-trivial as for "
                 "the local wind")
def tiles(d, ctx):
    import netCDF4
    import numpy as np
    from ProcessMultipliers import processMultipliers as P
    from Utilities import config
    d = dict(d, combined=False, window=None, f4=True, gaps=min(d["gaps"], 0.1), nodata=-9999.0)
    ctx.nontrivial(True)
    root = scratch() + os.sep
    w, u, v, lon, lat = fields(d)
    with netCDF4.Dataset(root + "gust.nc", "w") as nc:
        for n, a in (("lat", lat), ("lon", lon)):
            nc.createDimension(n, len(a))
            nc.createVariable(n, "f8", (n,))[:] = a
        for n, a in (("vmax", w), ("ua", u), ("va", v)):
            nc.createVariable(n, "f4", ("lat", "lon"))[:] = a
    m, x, y, dx = multipliers(d)
    ny, nx = m["n"].shape
    cut = max(2, nx // 2) if nx >= 4 else nx
    r = np.random.RandomState(d["seed"] + 1)
    for n in DIRNS:
        ms, mz = (r.choice([0.5, 1.0, 2.0], (ny, nx)) for _ in "ab")
        hole = m[n] == d["nodata"]
        for k, (kind, var, a) in enumerate((("shielding", "Ms", ms), ("terrain", "Mz", mz),
                                            ("topographic", "Mt", m[n] / ms / mz))):
            # A pixel is missing from one of the three.
            a = np.where(hole & (r.randint(0, 3, (ny, nx)) == k), -9999, a) if k < 2 else np.where(hole, -9999, a)
            os.makedirs(root + "raw/" + kind, exist_ok=True)
            for t, (i0, i1) in enumerate(((0, cut), (cut, nx))):
                if i0 == i1:
                    continue
                with netCDF4.Dataset("%sraw/%s/tile%d_%s_%s.nc" % (root, kind, t, var.lower(), n), "w") as nc:
                    nc.createDimension("lat", ny)
                    nc.createDimension("lon", i1 - i0)
                    la = nc.createVariable("lat", "f8", ("lat",))
                    lo = nc.createVariable("lon", "f8", ("lon",))
                    la.units, lo.units = "degrees_north", "degrees_east"
                    la.standard_name, lo.standard_name = "latitude", "longitude"
                    la[:] = y - dx * (np.arange(ny) + 0.5)
                    lo[:] = x + dx * (np.arange(i0, i1) + 0.5)
                    nc.createVariable(var, "f4", ("lat", "lon"), fill_value=-9999.0)[:] = a[:, i0:i1]
    out = root + "out" + os.sep
    with open(root + "m.ini", "w") as f:
        f.write("[Input]\nGust_file=%sgust.nc\nRawMultipliers=%sraw/\nTiles=tile0, tile1\n[Output]\nPath=%s\nWorking_dir=%s\n"
                "[ProcessMultipliers]\nProcessMultiVersion=%d\nMaxWorkingThreads=%d\nProcessingSegmentSize=%d\n"
                "[Logging]\nLogFile=%slog.txt\nLogLevel=CRITICAL\nVerbose=False\nDatestamp=False\n" %
                (root, root, out, out, d["method"], d["threads"], d["segment"], root))
    config.reset()
    cwd, argv = os.getcwd(), sys.argv
    handlers = logging.getLogger().handlers[:]
    quiet, fds = os.open(os.devnull, os.O_WRONLY), (os.dup(1), os.dup(2))
    try:
        sys.argv = ["processMultipliers.py", "-c", root + "m.ini"]
        sys.stdout.flush()
        os.dup2(quiet, 1)
        os.dup2(quiet, 2)
        with contextlib.redirect_stdout(io.StringIO()):
            P.run()
    finally:
        os.dup2(fds[0], 1)
        os.dup2(fds[1], 2)
        for fd in (quiet,) + fds:
            os.close(fd)
        os.chdir(cwd)
        sys.argv = argv
        logging.getLogger().handlers[:] = handlers
    check(os.path.exists(out + "local_wind.tif"), "the program ends without a local wind raster")
    compare(d, out + "local_wind.tif", out + "region_wind.tif")
