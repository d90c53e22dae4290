"""Event wind-field files as the wind-field stage leaves them."""
import os

NAME = "gust.%03d-%05d.nc"


def write(path, lon, lat, vmax, classic=False):
    """One event file: latitudes north to south, as the stage writes them."""
    import numpy as np
    import netCDF4
    with netCDF4.Dataset(path, "w", format="NETCDF3_CLASSIC" if classic else "NETCDF4") as nc:
        nc.createDimension("lat", len(lat))
        nc.createDimension("lon", len(lon))
        nc.createVariable("lat", "f8", ("lat",))[:] = lat
        nc.createVariable("lon", "f8", ("lon",))[:] = lon
        for k, n in enumerate(("vmax", "ua", "va", "slp")):
            v = nc.createVariable(n, "f4", ("lat", "lon"), fill_value=-9999.0)
            v[:] = vmax if k == 0 else np.full(np.shape(vmax), 100.0 * k)


def evolution(path, lon, lat):
    """A record of how one event's winds evolve, kept beside the event files."""
    import numpy as np
    import netCDF4
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", 2)
        nc.createDimension("lat", len(lat))
        nc.createDimension("lon", len(lon))
        nc.createVariable("lat", "f8", ("lat",))[:] = np.sort(lat)
        nc.createVariable("lon", "f8", ("lon",))[:] = lon
        nc.createVariable("gust", "f4", ("time", "lat", "lon"))[:] = 99.0


def extras(path, kinds, lon, lat):
    for k in kinds:
        if k == "evolution":
            evolution(os.path.join(path, "evolution.000-00000.nc"), lon, lat)
        elif k == "folder":
            os.mkdir(os.path.join(path, "plots"))
        elif k == "note":
            with open(os.path.join(path, "README.txt"), "w") as f:
                f.write("notes\n")


class shuffled:
    """Directory listings come back in another order."""

    def __init__(self, order):
        self.order = list(order) or [0]

    def mix(self, items):
        items = sorted(items)
        out = []
        k = 0
        while items:
            out.append(items.pop(self.order[k % len(self.order)] % len(items)))
            k += 1
        return out

    def __enter__(self):
        import glob
        self.keep = os.listdir, glob.iglob
        ls, gl = self.keep
        os.listdir = lambda *a: self.mix(ls(*a))
        glob.iglob = lambda *a, **k: iter(self.mix(gl(*a, **k)))

    def __exit__(self, *exc):
        import glob
        os.listdir, glob.iglob = self.keep
