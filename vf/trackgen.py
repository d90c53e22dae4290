"""A made-up climate for the track generator: statistics, distributions, stand-ins."""
import math
import os

from hypothesis import strategies as st

from .core import Skip
from .gen import dec

PARAMS = ("speed", "pressure", "bearing", "pressure_rate")
FILES = {"v": "speed", "p": "pressure", "b": "bearing", "dp": "pressure_rate"}


def wobble(seed, *key):
    """A repeatable number in [-1, 1) for a key."""
    import zlib
    h = zlib.crc32(repr((seed,) + key).encode())
    return (h % 200003) / 100001.5 - 1.0


@st.composite
def climates(draw, noisy=True, lat=None, nmax=4):
    """Parameters from which every table is filled in."""
    nx, ny = draw(st.integers(2, nmax)), draw(st.integers(2, nmax))
    sp = draw(st.sampled_from([2.0, 5.0, 2.5, 4.0]))
    y0 = draw(st.sampled_from([-30.0, -25.0, -22.0, 5.0, 10.0])) if lat is None else lat
    c = {"x": draw(st.sampled_from([100.0, 140.0, 160.0, 155.5, 230.0])), "y": y0, "nx": nx,
         "ny": ny, "sp": sp, "seed": draw(st.integers(0, 9999)),
         "v": draw(dec(8, 30, 1)), "b": draw(dec(-3.1, 3.1, 2)),
         "dp": draw(dec(-0.4, 0.6, 2)), "p": draw(dec(950, 980, 1)),
         "spread": draw(st.sampled_from([0.0, 0.3, 1.0])),
         "noise": draw(st.sampled_from([0.2, 0.6, 1.0])) if noisy else 0.0,
         "alpha": draw(dec(-0.3, 0.9, 2)), "pinit": draw(dec(960, 995, 1)),
         "prange": draw(st.sampled_from([2.0, 10.0, 20.0])),
         "penv": draw(dec(1006, 1013, 1)), "pday": draw(st.sampled_from([0.0, 1.0, 3.0])),
         "plat": draw(st.sampled_from([0.0, 0.1, -0.2])),
         "plon": draw(st.sampled_from([0.0, 0.05, -0.1])),
         "day": draw(st.sampled_from([10, 180, 330, 352]))}
    return c


def limits(c):
    lim = {"xMin": c["x"], "xMax": c["x"] + c["nx"] * c["sp"],
           "yMin": c["y"], "yMax": c["y"] + c["ny"] * c["sp"]}
    return lim, {"x": c["sp"], "y": c["sp"]}, {"x": c["sp"] / 2, "y": c["sp"] / 2}


def cell_of(c, lon, lat):
    """Number of the cell holding a position (row 0 is the northernmost)."""
    import numpy as np
    lim = limits(c)[0]
    i = np.floor((np.float64(lon) - lim["xMin"]) / c["sp"])
    j = np.floor((lim["yMax"] - np.float64(lat)) / c["sp"])
    return int(j * c["nx"] + i)


def coeff(c, par, cell):
    """Cell coefficients of one parameter; keys as stored."""
    w = lambda *k: wobble(c["seed"], par, cell, *k)
    scale = {"v": 6.0, "b": 0.7, "dp": 0.5, "p": 8.0}[par]
    sig = {"v": 1.2, "b": 0.12, "dp": 0.5, "p": 5.0}[par]
    out = {}
    for pre in ("", "l"):
        mu = c[par] + c["spread"] * scale * w(pre, "mu")
        al = min(max((c.get("lalpha", c["alpha"]) if pre else c["alpha"]) + 0.2 * c["spread"] * w(pre, "al"), -0.95), 0.95)
        out[pre + "mu"] = mu
        out[pre + "alpha"] = al
        out[pre + "phi"] = math.sqrt(1 - al * al)
        out[pre + "sig"] = (sig * c["noise"] * (c.get("lnoise", 1.0) if pre else 1.0)
                            * (1 + 0.4 * w(pre, "sig")) if par != "p" else 3.0)
        out[pre + "min"] = 930.0 + 8 * w(pre, "min") if par == "p" else 0.0
    return out


def table(c, par):
    n = c["nx"] * c["ny"]
    rows = [coeff(c, par, k) for k in range(n)]
    return {k: [r[k] for r in rows] for k in rows[0]}


def cdf(c, par, cell):
    """Tabulated (value, cumulative probability) pairs of a genesis parameter."""
    w = lambda *k: wobble(c["seed"], "init", par, cell, *k)
    if par == "bearing":
        lo, step, n = math.degrees(c["b"]) % 360.0, 7.0, 6
        xs = sorted({round((lo + step * k) % 360.0, 3) for k in range(n)})
    elif par == "speed":
        xs = [round(c["v"] + 3 * w() + 1.5 * k, 3) for k in range(5)]
    elif par == "pressure":
        lo = c["pinit"] + 3 * w()
        xs = [round(lo + c["prange"] * k / 6.0, 3) for k in range(7)]
    else:
        xs = [float(c["day"] + 2 * k) for k in range(6)]
    mass = [1.0 + 0.9 * w("m", k) for k in range(len(xs))]
    tot, acc, out = sum(mass), 0.0, []
    for k, (x, m) in enumerate(zip(xs, mass)):
        acc += m
        out.append((x, 1.0 if k == len(xs) - 1 else acc / tot))
    return out


def origins(c):
    """Longitudes, latitudes and genesis density (rows are latitudes)."""
    lim = limits(c)[0]
    mx = 0.2 * (lim["xMax"] - lim["xMin"])
    my = 0.2 * (lim["yMax"] - lim["yMin"])
    n = 5
    xs = [round(lim["xMin"] + mx + k * (lim["xMax"] - lim["xMin"] - 2 * mx) / (n - 1), 3)
          for k in range(n)]
    ys = [round(lim["yMin"] + my + k * (lim["yMax"] - lim["yMin"] - 2 * my) / (n - 1), 3)
          for k in range(n)]
    z = [[1.0 + wobble(c["seed"], "o", i, j) for i in range(n)] for j in range(n)]
    return xs, ys, z


def write(c, path):
    """Fill a process directory."""
    import numpy as np
    from netCDF4 import Dataset
    os.makedirs(path, exist_ok=True)
    xs, ys, z = origins(c)
    with Dataset(os.path.join(path, "originPDF.nc"), "w") as nc:
        nc.createDimension("lat", len(ys))
        nc.createDimension("lon", len(xs))
        nc.createVariable("lon", "f8", ("lon",))[:] = xs
        nc.createVariable("lat", "f8", ("lat",))[:] = ys
        nc.createVariable("gpdf", "f8", ("lat", "lon"))[:] = np.array(z)
    n = c["nx"] * c["ny"]
    for par in ("bearing", "speed", "pressure", "day"):
        rows = [(k, x, p) for k in range(n) for x, p in cdf(c, par, k)]
        with Dataset(os.path.join(path, "all_cell_cdf_init_%s.nc" % par), "w") as nc:
            nc.createDimension("cell", len(rows))
            for name, col in (("cell", 0), ("x", 1), ("CDF", 2)):
                nc.createVariable(name, "f8", ("cell",))[:] = [r[col] for r in rows]
    lim = limits(c)[0]
    for par, name in FILES.items():
        tab = table(c, par)
        with Dataset(os.path.join(path, name + "_stats.nc"), "w") as nc:
            nc.createDimension("lat", c["ny"])
            nc.createDimension("lon", c["nx"])
            nc.createVariable("lat", "f8", ("lat",))[:] = \
                [lim["yMax"] - c["sp"] * j for j in range(c["ny"])]
            nc.createVariable("lon", "f8", ("lon",))[:] = \
                [lim["xMin"] + c["sp"] * i for i in range(c["nx"])]
            for key, vals in tab.items():
                nc.createVariable(key, "f8", ("lat", "lon"))[:] = \
                    np.array(vals).reshape(c["ny"], c["nx"])
            nc.createVariable("cell", "i8", ("lat", "lon"))[:] = \
                np.arange(n).reshape(c["ny"], c["nx"])
    for name in ("all_speed", "all_pressure", "all_bearing", "pressure_rate", "all_lon_lat"):
        with open(os.path.join(path, name), "w") as f:
            f.write("% made up\n120.0,-20.0,0\n" if "lon_lat" in name else "% made up\n1.0\n")


def mslp(c, day, lat, lon):
    """Long-term mean pressure of the made-up climate."""
    import numpy as np
    return (c["penv"] + c["pday"] * np.cos(2 * np.pi * (np.asarray(day) - 20.0) / 365.0)
            + c["plat"] * (np.asarray(lat) - c["y"]) + c["plon"] * (np.asarray(lon) - c["x"]))


class Pressure:
    """Stand-in for the mean sea level pressure data.

    Gives up on climates in which no storm survives.
    """
    def __init__(self, c, limit=None):
        self.c, self.left = c, limit

    def get_pressure(self, coords):
        import numpy as np
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Skip("climate without lasting storms")
        v = np.squeeze(mslp(self.c, coords[0], coords[1], coords[2]))
        return float(v) if v.ndim == 0 else v


class Land:
    """Stand-in for the land mask: stripes of land of a given width."""
    def __init__(self, start=None, width=0.0, gap=0.0, axis="lon"):
        self.start, self.width, self.gap, self.axis = start, width, gap, axis

    def on(self, lon, lat):
        if self.start is None or self.width <= 0:
            return False
        d = (lon if self.axis == "lon" else lat) - self.start
        return d >= 0 and (d % (self.width + self.gap)) < self.width

    def onLand(self, lon, lat):
        return bool(self.on(float(lon), float(lat)))


def generator(c, path, land=None, dt=1.0, steps=120, inner=None, seed=1, stream=0,
              limit=None):
    """A loaded track generator with its random stream reset."""
    from TrackGenerator import TrackGenerator as tgm
    from Utilities import tcrandom
    lim, sp, inc = limits(c)
    tg = tgm.TrackGenerator(path, lim, sp, inc, Pressure(c, limit), land or Land(),
                            innerGridLimit=inner, dt=dt, maxTimeSteps=steps)
    tg.loadInitialConditionDistributions()
    tg.loadCellStatistics()
    tgm.PRNG = tcrandom.Random(seed, stream)
    return tg


def day_of_year(t):
    return int(t.strftime("%j")) + (t.hour + t.minute / 60.0 + t.second / 3600.0) / 24.0


def poci(penv, pc, lat, jday):
    """Model of the pressure of the outermost closed isobar, without its random part."""
    import numpy as np
    return (2324.1564738613392 - 0.6539853183796136 * penv - 1.3984456535888878 * pc
            + 0.00074072928008818927 * pc * pc + 0.0044469231429346088 * lat * lat
            - 1.4337623534206905 * np.cos(2 * np.pi * jday / 365.0))
