"""A small invented basin: storm record, pressure climatology, land, stations,
gates, and the configuration of a complete simulation over it."""
import contextlib
import importlib
import io
import logging
import os
import pickle
import random
import shutil
import signal
import sys
import threading
from datetime import datetime, timedelta

import numpy as np

from vf.core import Violation

STAGES = ["DataProcess", "ExecuteStat", "ExecuteTrackGenerator", "ExecuteWindfield",
          "ExecuteHazard", "PlotData", "CreateDatabase", "ExecuteEvaluate", "PlotHazard"]


def record(w):
    """Storms of the record: lists of (time, lon, lat, pressure)."""
    rng = random.Random(w["seed"])
    x0, y0 = w["x0"], w["y0"]
    storms = []
    for s in range(w["storms"]):
        t = datetime(1985 + s * w["years"] // w["storms"], rng.choice([1, 2, 3, 12]),
                     rng.randint(1, 28), 6 * rng.randint(0, 3))
        lon, lat = x0 + rng.uniform(-3, 13), y0 + rng.uniform(-2, 12)
        p = rng.uniform(985, 1004)
        rows = []
        for _ in range(rng.randint(10, 24)):
            rows.append((t, round(lon, 2), round(lat, 2), round(p, 1)))
            t += timedelta(hours=6)
            lon += rng.uniform(-1, .5)
            lat -= rng.uniform(0, .7)
            p = max(930, min(1004, p + rng.uniform(-10, 8)))
        storms.append(rows)
    return storms


def stations(w):
    """(number in the file, name, lon, lat): inside the region, and one elsewhere."""
    rng = random.Random(w["seed"] + 1)
    lim = w["limit"]
    out = []
    for i in range(w["stations"]):
        out.append(("Place %d" % i,
                    round(rng.uniform(lim["xMin"] + .01, lim["xMax"] - .01), 2),
                    round(rng.uniform(lim["yMin"] + .01, lim["yMax"] - .01), 2)))
    out.append(("Elsewhere", lim["xMax"] + 20.0, lim["yMax"] + 5.0))
    rng.shuffle(out)
    return [(k + 1,) + s for k, s in enumerate(out)]


def build(w, where):
    """Write the inputs under `where`."""
    from netCDF4 import Dataset
    import shapefile
    os.makedirs(where, exist_ok=True)
    with open(os.path.join(where, "obs.csv"), "w") as fh:
        for k, rows in enumerate(record(w)):
            for t, lon, lat, p in rows:
                fh.write("%d,%s,%r,%r,%r\n" % (k + 1, t.strftime("%Y-%m-%d %H:%M"), lon, lat, p))
    nt, ny, nx = 12, 36, 72
    day = np.arange(nt) * 365. / nt
    lat = -90 + np.arange(ny) * 180. / ny
    with Dataset(os.path.join(where, "mslp.nc"), "w") as nc:
        for n, k in (("time", nt), ("lat", ny), ("lon", nx)):
            nc.createDimension(n, k)
        v = nc.createVariable("slp", "f8", ("time", "lat", "lon"))
        v.units = "hPa"
        v[:] = (1010 + np.cos(2 * np.pi * day / 365)[:, None, None] +
                np.sin(np.radians(lat))[None, :, None] + np.zeros(nx)[None, None, :])
    with Dataset(os.path.join(where, "land.nc"), "w") as nc:
        nc.createDimension("lat", 181)
        nc.createDimension("lon", 361)
        nc.createVariable("lat", "f8", ("lat",))[:] = np.arange(-90, 91.)
        nc.createVariable("lon", "f8", ("lon",))[:] = np.arange(0, 361.)
        m = np.zeros((181, 361))
        top = int(w["y0"] + 1 + 90)
        m[:top, int(w["x0"]):int(w["x0"]) + 20] = 1
        nc.createVariable("landmask", "f8", ("lat", "lon"))[:] = m
    with shapefile.Writer(os.path.join(where, "st"), shapeType=1) as s:
        for n, t in (("OBJECTID", "N"), ("Place", "C"), ("WMO", "C"), ("Latitude", "N"),
                     ("Longitude", "N"), ("Elevation", "N"), ("Country", "C"),
                     ("ICAO_code", "C")):
            s.field(n, t, 20, 4 if n in ("Latitude", "Longitude", "Elevation") else 0)
        for num, name, x, y in stations(w):
            s.point(x, y)
            s.record(num, name, str(num), y, x, 1.0, "Land", "X%d" % num)
    with open(os.path.join(where, "gates.csv"), "w") as fh:
        for k in range(4):
            fh.write("%d,%r,%r\n" % (k, w["x0"] - 3 + 4 * k, w["y0"] + k))


def config(w, where, out, actions, path):
    """Write the configuration with the given actions switched on."""
    text = ["[Actions]", "DownloadData=False"]
    text += ["%s=%s" % (a, a in actions) for a in STAGES]
    text.append("""[DataProcess]
InputFile=%(i)s/obs.csv
Source=MADE
StartSeason=1981
FilterSeasons=False
[MADE]
Columns=num,date,lon,lat,pressure
FieldDelimiter=,
NumberOfHeadingLines=0
PressureUnits=hPa
LengthUnits=km
DateFormat=%%Y-%%m-%%d %%H:%%M
SpeedUnits=mps
[Region]
gridLimit=%(limit)r
gridSpace=%(space)r
gridInc=%(inc)r
[StatInterface]
kdeType=%(kde)s
kdeStep=%(step)s
minSamplesCell=%(min)d
[TrackGenerator]
NumSimulations=%(sims)d
YearsPerSimulation=%(yrs)d
SeasonSeed=%(sseed)d
TrackSeed=%(tseed)d
[WindfieldInterface]
Margin=2
Resolution=%(res)s
profileType=%(profile)s
windFieldType=%(field)s
[Hazard]
Years=%(returns)s
MinimumRecords=3
CalculateCI=False
ExtremeValueDistribution=%(evd)s
SmoothPlots=False
[Input]
LocationFile=%(i)s/st.shp
LandMask=%(i)s/land.nc
MSLPFile=%(i)s/mslp.nc
CoastlineGates=%(i)s/gates.csv
MSLPGrid=1,2,3,12
[Output]
Path=%(o)s
[Logging]
LogFile=%(o)s/log/x.log
LogLevel=INFO
[Process]
ExcludePastProcessed=%(exclude)s
DatFile=%(o)s/process/dat/x.dat
[RMW]
GetRMWDistFromInputData=False
mean=50.0
sigma=0.6
[TCRM]
Columns=index,age,lon,lat,speed,bearing,pressure,penv,rmax
FieldDelimiter=,
NumberOfHeadingLines=1
SpeedUnits=kph
PressureUnits=hPa
""" % dict(w, i=where, o=out, returns=",".join(str(y) for y in w["returns"])))
    with open(path, "w") as fh:
        fh.write("\n".join(text))


class quiet:
    """Puts logging, the working directory, argv and config state back."""

    def __enter__(self):
        root = logging.getLogger()
        self.state = (root.level, list(root.handlers), os.getcwd(), list(sys.argv))
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.err = contextlib.redirect_stderr(io.StringIO())
        self.out.__enter__()
        self.err.__enter__()

    def __exit__(self, *exc):
        self.err.__exit__(*exc)
        self.out.__exit__(*exc)
        root = logging.getLogger()
        level, handlers, cwd, argv = self.state
        for h in list(root.handlers):
            if h not in handlers:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)
        logging.disable(logging.NOTSET)
        os.chdir(cwd)
        sys.argv = argv
        from Utilities import config
        config.reset()
        return False


def simulate(ini, ranks=1, schedule=(), program="tcrm", inspect=None):
    """One invocation of a program, as from the command line, in a process of its own.

    Returns the names of the figures it saved, or inspect(figures).
    """
    def target(rank):
        # Each rank reads a file of its own, as each would hold its own connections.
        name = ini + ("" if rank == 0 else ".%d" % rank)
        if rank:
            shutil.copy(ini, name)
        sys.argv = [program + ".py", "-d", "-c", name]
        importlib.import_module(program).startup()
    return apart(target, ranks, schedule, inspect or (lambda figures: [f for f, _ in figures]))


def apart(target, ranks=1, schedule=(), inspect=None):
    """Run target(rank) in a process of its own; returns inspect(figures)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.close(r)
        with os.fdopen(w, "wb") as fh:
            pickle.dump(_apart(target, ranks, schedule, inspect), fh)
        os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            result = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not result:
        raise Violation("the program ended at once")
    kind, value = pickle.loads(result)
    if kind == "ok":
        return value
    if kind == "violation":
        raise Violation(value)
    raise RuntimeError(value)


def _apart(target, ranks, schedule, inspect):
    from vf import mpi, plots
    from vf.core import _describe, repo_frame, unreadable
    outcome = []

    def body():
        # The programs name themselves after their outermost file, hence the thread.
        try:
            mpi.run_ranks(ranks, schedule, target)
            outcome.append(("ok", inspect(figures) if inspect else None))
        except Violation as exc:
            outcome.append(("violation", str(exc)))
        except BaseException as exc:
            if isinstance(exc, SystemExit) or repo_frame(exc) or unreadable(exc):
                outcome.append(("violation", "a run on valid inputs ended with " + _describe(exc)))
            else:
                outcome.append(("error", _describe(exc)))
    with plots.recorded() as figures, quiet():
        t = threading.Thread(target=body)
        t.start()
        t.join()
    return outcome[0]
