"""The recorded wind-field evolution holds each step at its true place."""
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf import Property, check, close, scratch
from vf.gen import dec, edge
from vf import tracks as tk
from checks.C01 import axis, cases as swath_cases, settings, region, step, willoughby, inside

TECHNIQUE = "property-based testing: model of the recorded cube and swath consistency"
NOTE = "random windows, regions, step counts and resolutions; every recorded value checked"

prop = Property("C08", preload=("numpy", "wind"), assumptions=[
    "limits, margin and resolution are whole numbers of millidegrees"])


@st.composite
def writer_cases(draw):
    lim = region(draw)
    res = draw(st.sampled_from([0.05, 0.1, 0.15, 0.25, 0.5, 0.07, 0.3]))
    margin = draw(st.sampled_from([0.0, 0.5, 1.0, 0.7]))
    nx = len(axis(lim["xMin"], lim["xMax"], margin, res))
    ny = len(axis(lim["yMin"], lim["yMax"], margin, res))
    steps = []
    t = 0.0
    for _ in range(draw(st.integers(1, 5))):
        a = draw(st.integers(0, nx - 1))
        b = draw(st.integers(a, nx - 1))
        c = draw(st.integers(0, ny - 1))
        d = draw(st.integers(c, ny - 1))
        steps.append({"x": [a, b + 1], "y": [c, d + 1], "t": t, "seed": draw(st.integers(0, 999))})
        t += draw(st.sampled_from([1.0, 6.0, 0.5, 0.25, 24.0]))
    return {"lim": lim, "res": res, "margin": margin, "steps": steps,
            "start": draw(st.sampled_from([[2000, 2, 28, 23, 30], [1999, 12, 31, 22, 15],
                                           [2018, 3, 17, 0, 0]])),
            "chunk": draw(st.sampled_from([256, 1, 7])), "wraps": draw(st.booleans())}


def layer(seed, shape):
    import numpy as np
    rng = np.random.RandomState(seed)
    u, v = rng.uniform(-60, 60, shape), rng.uniform(-60, 60, shape)
    return np.hypot(u, v), u, v, rng.uniform(90000, 101000, shape)


@prop.facet(writer_cases, quick=250, rule="at least two windows of different extent")
def windows(c, ctx):
    """Windows written step by step come back in place."""
    import netCDF4
    import numpy as np
    from wind.writer import WriteFoliationCallback
    ax = np.array(axis(c["lim"]["xMin"], c["lim"]["xMax"], c["margin"], c["res"])) / 1000.0
    ay = np.array(axis(c["lim"]["yMin"], c["lim"]["yMax"], c["margin"], c["res"])) / 1000.0
    seen = []
    path = os.path.join(scratch(), "evolution.nc")
    cb = WriteFoliationCallback(path, dict(c["lim"]), c["res"], c["margin"],
                                maxchunk=c["chunk"],
                                wraps=(lambda *a: seen.append(a)) if c["wraps"] else None)
    t0 = datetime(*c["start"])
    given = []
    for s in c["steps"]:
        g, u, v, p = layer(s["seed"], (s["y"][1] - s["y"][0], s["x"][1] - s["x"][0]))
        args = (t0 + timedelta(hours=s["t"]), g.copy(), u.copy(), v.copy(), p.copy(),
                ax[slice(*s["x"])].copy(), ay[slice(*s["y"])].copy())
        given.append((args, (g, u, v, p)))
        cb(*args)
        for a, b in zip(args[1:5], (g, u, v, p)):
            check((a == b).all(), "recording changed the step's arrays")
    (cb.close if hasattr(cb, "close") else cb.ds.close)()
    ctx.nontrivial(len(c["steps"]) > 1 and len({(tuple(s["x"]), tuple(s["y"]))
                                                for s in c["steps"]}) > 1)
    if c["wraps"]:
        check(len(seen) == len(given), "wrapped consumer called %d times for %d steps"
              % (len(seen), len(given)))
        for a, (b, _) in zip(seen, given):
            check(a[0] == b[0] and all(np.array_equal(x, y) for x, y in zip(a[1:], b[1:])),
                  "wrapped consumer got other values than the step's")
    with netCDF4.Dataset(path) as nc:
        close(nc["lon"][:], ax, "longitudes", atol=2e-5 + 1e-7 * 400)
        close(nc["lat"][:], ay, "latitudes", atol=2e-5)
        check(len(nc["time"]) == len(given), "%d records for %d steps"
              % (len(nc["time"]), len(given)))
        when = netCDF4.num2date(nc["time"][:], nc["time"].units)
        for k, (s, (args, arr)) in enumerate(zip(c["steps"], given)):
            dt = (datetime(*when[k].timetuple()[:6]) +
                  timedelta(microseconds=when[k].microsecond) - args[0]).total_seconds()
            check(abs(dt) < 1, "step %d recorded %s s off its time" % (k, dt))
            for n, a, fill in zip(("gust_speed", "velocity_east", "velocity_north", "pressure"),
                                  arr, (0, 0, 0, np.nan)):
                want = np.full((len(ay), len(ax)), float(fill))
                want[slice(*s["y"]), slice(*s["x"])] = a
                got = np.ma.filled(nc[n][k], fill)
                close(got, want, "%s of step %d" % (n, k), rtol=1e-6, atol=1e-5)


@st.composite
def event_cases(draw):
    c = draw(swath_cases(n=(1, 5)))
    c["record"] = draw(st.booleans())
    return c


@prop.facet(event_cases, quick=90, rule="at least two recorded steps")
def evolution(c, ctx):
    """The recorded steps have the event's swath as their envelope."""
    import netCDF4
    import numpy as np
    import wind
    from Utilities.config import ConfigParser, reset
    reset()
    path = scratch()
    cfg = ConfigParser()
    cfg.read_string("[Timeseries]\nWindfields=True\n[Output]\nPath=%s\n" % path)
    seen = []

    def consumer(*a):
        seen.append(tuple(np.array(x, copy=True) if k else x for k, x in enumerate(a)))

    def make(config):
        return wind.WindfieldGenerator(
            config, margin=c["margin"], resolution=c["res"], profileType=c["profile"],
            windFieldType=c["field"], beta=c["beta"], thetaMax=c["thetaMax"],
            gridLimit=dict(c["lim"]), domain=c["domain"], windfieldPath=path)
    t = tk.make(c["points"], tid=(3, 17), ftype=c["ftype"])
    _, got = make(cfg).calculateExtremesFromTrack(t, consumer)
    reset()
    plain_seen = []
    _, plain = make(ConfigParser()).calculateExtremesFromTrack(
        tk.make(c["points"], tid=(3, 17), ftype=c["ftype"]),
        lambda *a: plain_seen.append(tuple(np.array(x, copy=True) if k else x
                                           for k, x in enumerate(a))))
    for k in range(7):
        check(np.array_equal(got[k], plain[k]), "recording changed output %d" % k)
    check(len(seen) == len(plain_seen), "consumer called %d times when recording, %d otherwise"
          % (len(seen), len(plain_seen)))
    inner = [k for k, p in enumerate(c["points"]) if inside(p, c["lim"])]
    check(len(seen) == len(inner), "%d steps in the region, %d delivered"
          % (len(inner), len(seen)))
    ctx.nontrivial(len(inner) > 1)
    gust, bearing, u, v, prs, lon, lat = got
    for a, b, k in zip(seen, plain_seen, inner):
        check(a[0] == b[0] == t.Datetime[k], "step delivered with another time")
        check(all(np.array_equal(x, y) for x, y in zip(a[1:], b[1:])),
              "consumer got other values when recording")
        check(a[1].shape == (len(a[6]), len(a[5])), "step's coordinates do not fit its values")
        j = np.searchsorted(lat, a[6][0] - 1e-6)
        i = np.searchsorted(lon, a[5][0] - 1e-6)
        sub = (slice(j, j + len(a[6])), slice(i, i + len(a[5])))
        check((a[1] <= gust[sub] + 1e-3).all(), "a step has a gust above the swath")
        check((a[4] >= prs[sub] - 1e-2).all(), "a step has a pressure below the swath")
        close(np.hypot(a[2], a[3]), a[1], "gust and components of a step", rtol=1e-5, atol=1e-5)
    name = os.path.join(path, "evolution.003-00017.nc")
    if not os.path.exists(name):
        check(not inner, "no evolution file for an event with steps in the region")
        return
    with netCDF4.Dataset(name) as nc:
        check(len(nc["time"]) == len(inner), "%d records for %d steps"
              % (len(nc["time"]), len(inner)))
        close(nc["lon"][:], lon, "longitudes", atol=6e-5)
        close(nc["lat"][:], lat, "latitudes", atol=6e-5)
        if inner:
            top = np.ma.filled(nc["gust_speed"][:], 0).max(axis=0)
            close(top, gust, "largest recorded gust against the swath", rtol=1e-5, atol=1e-4)
            low = np.ma.filled(nc["pressure"][:], np.nan)
            low = np.where(np.isnan(low), np.inf, low).min(axis=0)
            low = np.minimum(low, 100 * float(t.EnvPressure[0]))
            close(low, prs, "lowest recorded pressure against the swath", rtol=1e-5)
            best = np.ma.filled(nc["gust_speed"][:], 0).argmax(axis=0)
            ue = np.take_along_axis(np.ma.filled(nc["velocity_east"][:], 0), best[None], 0)[0]
            vn = np.take_along_axis(np.ma.filled(nc["velocity_north"][:], 0), best[None], 0)[0]
            g = np.ma.filled(nc["gust_speed"][:], 0)
            clear = np.sort(g, axis=0)
            clear = (clear[-1] - clear[-2] > 0.01) if len(g) > 1 else clear[-1] > 0
            check((np.hypot(ue - u, vn - v)[clear] < 1e-2).all(),
                  "components of the strongest record differ from the swath")
            times = netCDF4.num2date(nc["time"][:], nc["time"].units)
            for k, w in zip(inner, times):
                check(abs((datetime(*w.timetuple()[:6]) - t.Datetime[k]).total_seconds()) <= 1,
                      "record of step %d has another time" % k)
