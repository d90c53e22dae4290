"""Synthetic tracks: every one is a physically valid storm of the given climate."""
import math
import os

from hypothesis import strategies as st

from vf import Property, Violation, check, scratch
from vf import trackgen as tg
from vf.gen import dec

TECHNIQUE = ("property-based testing of the track generator on made-up climates against the "
             "invariants of a track, with noise-free climates giving an exact oracle")
NOTE = ("domains of up to 4x4 cells, steps of 0.5-6 h, both hemispheres, with and without land; "
        "climates without noise determine every step, noisy ones are checked step by step and "
        "through the distribution of their innovations")

prop = Property("C14", preload=("numpy", "TrackGenerator.TrackGenerator"),
                assumptions=["pressure data and land mask are stand-ins except where they are "
                             "the subject"])

RADIUS = 6367.0


def destination(lon, lat, bearing, dist):
    p, b, d = math.radians(lat), math.radians(bearing), dist / RADIUS
    p2 = math.asin(math.sin(p) * math.cos(d) + math.cos(p) * math.sin(d) * math.cos(b))
    dl = math.atan2(math.sin(b) * math.sin(d) * math.cos(p),
                    math.cos(d) - math.sin(p) * math.sin(p2))
    return lon + math.degrees(dl), math.degrees(p2)


def generate(c, d, n, sim, limit=20000, **kw):
    """Tracks of one simulation; gives up on climates in which no storm survives."""
    init = kw.pop("init", {})
    path = os.path.join(d, "process")
    tg.write(c, path)
    g = tg.generator(c, path, limit=limit, **kw)
    return g, g.generateTracks(n, sim, **init)


def near(a, b, tol, what):
    check(abs(float(a) - float(b)) <= tol, "%s: %r, expected %r" % (what, float(a), float(b)))


def verify(c, tracks, n, sim, dt, steps, land, inner=None, init=(), size=True):
    """Everything that holds for any generated track."""
    import numpy as np
    from datetime import timedelta
    lim = tg.limits(c)[0]
    check(len(tracks) == n, "%d tracks instead of %d" % (len(tracks), n))
    xs, ys, z = tg.origins(c)
    for j, t in enumerate(tracks):
        who = "track %d" % j
        check(tuple(t.trackId) == (j, sim), "%s is identified as %r" % (who, t.trackId))
        lon, lat = np.asarray(t.Longitude, float), np.asarray(t.Latitude, float)
        sp, be = np.asarray(t.Speed, float), np.asarray(t.Bearing, float)
        cp, ep = np.asarray(t.CentralPressure, float), np.asarray(t.EnvPressure, float)
        rm, age = np.asarray(t.rMax, float), np.asarray(t.TimeElapsed, float)
        when = list(t.Datetime)
        k = len(lon)
        for name, v in (("longitude", lon), ("latitude", lat), ("speed", sp), ("bearing", be),
                        ("central pressure", cp), ("environmental pressure", ep),
                        ("size", rm), ("age", age)):
            check(v.shape == (k,) and np.all(np.isfinite(v)), "%s: %s not finite" % (who, name))
        check(all(int(v) == j for v in t.CycloneNumber), "%s: numbered %r" % (who, t.CycloneNumber))
        check(1 <= k <= steps, "%s has %d steps" % (who, k))
        near(age[0], 0, 0, who + " age at genesis")
        for i in range(1, k):
            near(age[i], i * dt, 1e-3, "%s age at step %d" % (who, i))
            gap = when[i] - when[0] - timedelta(hours=dt * i)
            check(abs(gap.total_seconds()) < 0.01, "%s: dates do not advance by the step" % who)
        check(age[-1] >= 12, "%s lives %r h" % (who, age[-1]))
        check(np.all((lon >= lim["xMin"]) & (lon < lim["xMax"] + 1e-9) &
                     (lat > lim["yMin"] - 1e-9) & (lat <= lim["yMax"])),
              "%s leaves the domain" % who)
        if inner:
            check(np.all((lon > inner["xMin"]) & (lon < inner["xMax"]) &
                         (lat > inner["yMin"]) & (lat < inner["yMax"])),
                  "%s leaves the inner domain" % who)
        check(np.all((be >= 0) & (be <= 360)) and np.all(sp >= 0), "%s: motion %r" % (who, be))
        for i in range(1, k):
            x, y = destination(lon[i - 1], lat[i - 1], be[i - 1], dt * sp[i - 1])
            check(abs(x - lon[i]) < 1e-4 and abs(y - lat[i]) < 1e-4,
                  "%s step %d moves to (%.5f, %.5f), speed and bearing lead to (%.5f, %.5f)"
                  % (who, i, lon[i], lat[i], x, y))
        check(np.all(np.round(cp, 2) < np.round(ep, 2)), "%s: centre not below surroundings" % who)
        check(ep[0] - cp[0] > 1.0, "%s: deficit at genesis %r" % (who, ep[0] - cp[0]))
        for i in range(1, k):
            low = 5.0 if age[i] > 12 else 2.0
            check(ep[i] - cp[i] >= low - 1e-3,
                  "%s keeps going with a deficit of %r at %r h" % (who, ep[i] - cp[i], age[i]))
        if size:
            check(np.all((rm > 5) & (rm < 500)) and rm[0] < 100.001,
                  "%s: sizes %r" % (who, rm.tolist()))
            eps = np.log(rm) - (4.22 - 0.0198 * (ep - cp) + 0.0023 * abs(lat))
            check(np.all(abs(eps[1:] - eps[1]) < 1e-4) if k > 1 else True,
                  "%s: size does not follow its deficit and latitude: %r" % (who, eps.tolist()))
            # at genesis the size goes with the long-term mean pressure
            if k > 1 and "initEnvPressure" not in init:
                day = int(when[0].strftime("%j"))
                pe = float(tg.mslp(c, day, lat[0], lon[0]))
                e0 = math.log(rm[0]) - (4.22 - 0.0198 * (pe - cp[0]) + 0.0023 * abs(lat[0]))
                near(e0, eps[1], 1e-3, who + " size term at genesis")
        # environment at its own position and time
        jd = np.array([tg.day_of_year(w) for w in when])
        pe = tg.mslp(c, jd, lat, lon)
        day0 = math.floor(jd[0])
        if "initEnvPressure" in init:
            pe[0] = init["initEnvPressure"]
        else:
            pe[0] = tg.mslp(c, day0, lat[0], lon[0])
        off = ep - tg.poci(pe, cp, lat, jd)
        # the day count runs on for a day over the end of a leap year
        tol = 2e-3 + c["pday"] * 2 * math.pi / 365.0 / (12 if when[0].year == when[-1].year else 1)
        check(np.all(abs(off - off[-1]) <= tol),
              "%s: environmental pressure does not follow position and time: %r"
              % (who, (off - off[-1]).round(3).tolist()))
        check(np.all(pe[1:] >= cp[1:] - 1e-3), "%s: filled above the mean pressure" % who)
        # genesis values
        cell = tg.cell_of(c, round(lon[0], 3), round(lat[0], 3))
        if "initLon" not in init:
            ii = [i for i, v in enumerate(xs) if abs(v - lon[0]) < 1e-4]
            jj = [i for i, v in enumerate(ys) if abs(v - lat[0]) < 1e-4]
            check(ii and jj and z[jj[0]][ii[0]] > 0, "%s starts at (%r, %r)" % (who, lon[0], lat[0]))
        for par, val, key, tol in (("bearing", be[0], "initBearing", 1e-4),
                                   ("speed", sp[0], "initSpeed", 1e-4),
                                   ("pressure", cp[0], "initPressure", 1e-3),
                                   ("day", day0, "initDay", 1e-9)):
            if key in init:
                near(val, init[key], tol, "%s %s as prescribed" % (who, par))
            else:
                tab = [v for v, _ in tg.cdf(c, par, cell)]
                check(any(abs(v - val) <= tol for v in tab),
                      "%s: %s %r at genesis is not one of its cell's: %r" % (who, par, val, tab))
        if "initLon" in init:
            near(lon[0], init["initLon"], 1e-4, who + " starting longitude")
            near(lat[0], init["initLat"], 1e-4, who + " starting latitude")
        check(pe[0] - cp[0] >= 2 - 1e-3, "%s starts without a deficit" % who)
        # intensity offshore never runs away
        for i in range(1, k):
            if land.onLand(np.float32(lon[i]), np.float32(lat[i])):
                continue
            st_ = tg.coeff(c, "p", tg.cell_of(c, lon[i], lat[i]))
            check(cp[i] >= st_["min"] - 4 * st_["sig"] - 1e-3 or cp[i] >= cp[i - 1] - 1e-3,
                  "%s deepens to %r below the lowest plausible value" % (who, cp[i]))


@st.composite
def lands(draw, c):
    lim = tg.limits(c)[0]
    kind = draw(st.sampled_from(["none", "lon", "lat"]))
    if kind == "none":
        return {"start": None, "width": 0.0, "gap": 0.0, "axis": "lon"}
    a, b = ("xMin", "xMax") if kind == "lon" else ("yMin", "yMax")
    return {"start": round(lim[a] + draw(dec(0, 0.7, 2)) * (lim[b] - lim[a]), 3),
            "width": draw(st.sampled_from([0.3, 1.0, 3.0, 30.0])),
            "gap": draw(st.sampled_from([0.5, 2.0, 30.0])), "axis": kind}


@st.composite
def cases(draw, noisy=True):
    c = draw(tg.climates(noisy=noisy))
    return {"c": c, "n": draw(st.integers(0, 3)) or 2, "sim": draw(st.sampled_from([0, 1, 7, 1234])),
            "dt": draw(st.sampled_from([1.0, 1.0, 0.5, 3.0, 6.0])),
            "steps": draw(st.sampled_from([60, 120, 30])), "seed": draw(st.integers(1, 10 ** 6)),
            "stream": draw(st.integers(0, 40)), "land": draw(lands(c))}


@prop.facet(lambda: cases(), quick=260,
            rule="generated tracks satisfy every per-step and per-track invariant")
def invariants(case, ctx):
    c, land = case["c"], tg.Land(**case["land"])
    steps = max(case["steps"], int(24 / case["dt"]))
    d = scratch()
    _, tracks = generate(c, d, case["n"], case["sim"], dt=case["dt"], steps=steps,
                         seed=case["seed"], stream=case["stream"], land=land)
    verify(c, tracks, case["n"], case["sim"], case["dt"], steps, land)
    ashore = [t for t in tracks
              if any(land.onLand(x, y) for x, y in zip(t.Longitude, t.Latitude))]
    ctx.klass("dt%g" % case["dt"], "ashore" if ashore else "at-sea",
              "several" if len(tracks) > 1 else "one",
              "full" if any(len(t.Longitude) == steps for t in tracks) else "ended")
    ctx.nontrivial(any(len(t.Longitude) > 5 for t in tracks))


@prop.facet(lambda: cases(noisy=False), quick=220,
            rule="without noise every step takes its own cell's sea or land values")
def drift(case, ctx):
    import numpy as np
    c, land = case["c"], tg.Land(**case["land"])
    dt = case["dt"]
    steps = max(case["steps"], int(24 / dt))
    d = scratch()
    _, tracks = generate(c, d, case["n"], case["sim"], dt=dt, steps=steps,
                         seed=case["seed"], stream=case["stream"], land=land)
    verify(c, tracks, case["n"], case["sim"], dt, steps, land)
    cells, ashore = set(), 0
    for t in tracks:
        f = {n: np.asarray(getattr(t, n), float) for n in
             ("Longitude", "Latitude", "Speed", "Bearing", "CentralPressure")}
        k = len(t.Longitude)
        for i in range(1, k):
            x, y = f["Longitude"][i], f["Latitude"][i]
            cell = tg.cell_of(c, x, y)
            cells.add(cell)
            on = land.onLand(np.float32(x), np.float32(y))
            ashore += on
            pre = "l" if on else ""
            if i == 1:
                v, b = f["Speed"][0], f["Bearing"][0]
            else:
                v = abs(tg.coeff(c, "v", cell)[pre + "mu"])
                b = math.degrees(tg.coeff(c, "b", cell)[pre + "mu"]) % 360.0
            near(f["Speed"][i], v, 1e-4, "speed at step %d (%s)" % (i, pre or "sea"))
            gap = (f["Bearing"][i] - b + 180.0) % 360.0 - 180.0
            near(gap, 0, 1e-3, "bearing at step %d (%s)" % (i, pre or "sea"))
            if not on:
                rate = tg.coeff(c, "dp", cell)["mu"] if i > 1 else 0.0
                p, p0 = f["CentralPressure"][i], f["CentralPressure"][i - 1]
                ps = tg.coeff(c, "p", cell)
                want = p0 + rate * dt
                if want < ps["min"] - 4 * ps["sig"]:
                    want = p0 + abs(rate) * dt
                near(p, want, 2e-3, "central pressure at step %d" % i)
        # a track ends for a reason
        if k < steps:
            x, y = destination(f["Longitude"][-1], f["Latitude"][-1], f["Bearing"][-1],
                               dt * f["Speed"][-1])
            lim = tg.limits(c)[0]
            out = (x < lim["xMin"] + 1e-4 or x >= lim["xMax"] - 1e-4 or
                   y <= lim["yMin"] + 1e-4 or y > lim["yMax"] - 1e-4)
            if not out and not land.onLand(np.float32(x), np.float32(y)):
                cell = tg.cell_of(c, x, y)
                rate = tg.coeff(c, "dp", cell)["mu"] if k > 1 else 0.0
                p = f["CentralPressure"][-1] + rate * dt
                ps = tg.coeff(c, "p", cell)
                if p < ps["min"] - 4 * ps["sig"]:
                    p = f["CentralPressure"][-1] + abs(rate) * dt
                jd = tg.day_of_year(t.Datetime[-1]) + dt / 24.0
                jd0 = tg.day_of_year(t.Datetime[-1])
                pe = float(tg.mslp(c, jd, y, x))
                e = float(t.EnvPressure[-1]) - tg.poci(
                    float(tg.mslp(c, jd0, f["Latitude"][-1], f["Longitude"][-1])),
                    f["CentralPressure"][-1], f["Latitude"][-1], jd0)
                po = tg.poci(pe, p, y, jd) + e
                low = 5.0 if k * dt > 12 else 2.0
                check(pe < p + 0.01 or po - p < low + 0.02,
                      "a track ends inside the domain with a deficit of %.2f hPa" % (po - p))
                ctx.klass("faded")
            else:
                ctx.klass("left" if out else "ended-ashore")
    ctx.klass("land" if ashore else "sea", "cells%d" % min(len(cells), 4))
    ctx.nontrivial(len(cells) > 1 or ashore > 0)


@st.composite
def prescribed_cases(draw):
    case = draw(cases(noisy=draw(st.booleans())))
    c = case["c"]
    lim = tg.limits(c)[0]
    mid = lambda a, b: round(draw(dec(0.3, 0.7, 2)) * (lim[b] - lim[a]) + lim[a], 2)
    init = {}
    if draw(st.booleans()):
        init["initLon"], init["initLat"] = mid("xMin", "xMax"), mid("yMin", "yMax")
    if draw(st.booleans()):
        init["initSpeed"] = draw(st.sampled_from([0.0, 5.0, 21.5]))
    if draw(st.booleans()):
        init["initBearing"] = draw(st.sampled_from([0.0, 90.0, 271.5]))
    if draw(st.booleans()):
        init["initDay"] = draw(st.sampled_from([1, 100, 365]))
    if draw(st.booleans()):
        init["initPressure"] = draw(st.sampled_from([960.0, 980.5, 995.0, 1000.0]))
    if draw(st.booleans()):
        init["initEnvPressure"] = draw(st.sampled_from([1005.0, 1010.25]))
    case["init"] = init
    case["twice"] = draw(st.booleans())
    if draw(st.sampled_from([False, False, True])) and "initLon" not in init:
        # a domain around the equator and the prime meridian
        c["x"], c["y"] = -c["nx"] * c["sp"] / 2, -c["ny"] * c["sp"] / 2
        init["initLon"], init["initLat"] = draw(st.sampled_from([(0.0, 0.5), (0.5, 0.0), (0.0, 0.0)]))
    return case


@prop.facet(prescribed_cases, quick=200,
            rule="prescribed initial values are used as given, zero included")
def prescribed(case, ctx):
    c, land, init = case["c"], tg.Land(**case["land"]), case["init"]
    steps = max(case["steps"], int(24 / case["dt"]))
    d = scratch()
    g, tracks = generate(c, d, case["n"], case["sim"], dt=case["dt"], steps=steps,
                         seed=case["seed"], stream=case["stream"], land=land, init=init)
    verify(c, tracks, case["n"], case["sim"], case["dt"], steps, land, init=init)
    if case["twice"]:
        again = g.generateTracks(1, 3)
        verify(c, again, 1, 3, case["dt"], steps, land)
    ctx.klass(*(sorted(init) or ["none"]))
    ctx.klass(*["zero-" + k for k, v in init.items() if v == 0])
    ctx.nontrivial(bool(init))


@st.composite
def rmax_cases(draw):
    case = draw(cases())
    case["rmax"] = draw(st.sampled_from([20.0, 35.0, 60.0]))
    return case


@prop.facet(rmax_cases, quick=80, rule="a prescribed size is the size at genesis")
def prescribed_size(case, ctx):
    import numpy as np
    c, land = case["c"], tg.Land(**case["land"])
    steps = max(case["steps"], int(24 / case["dt"]))
    d = scratch()
    _, tracks = generate(c, d, case["n"], case["sim"], dt=case["dt"], steps=steps,
                         seed=case["seed"], stream=case["stream"], land=land,
                         init={"initRmax": case["rmax"]})
    verify(c, tracks, case["n"], case["sim"], case["dt"], steps, land)
    for t in tracks:
        near(t.rMax[0], case["rmax"], 1e-3, "size at genesis")
    ctx.nontrivial(len(tracks) > 0)


@st.composite
def inner_cases(draw):
    case = draw(cases())
    f = [draw(dec(-0.05, 0.08, 2)) for _ in range(4)]
    lim = tg.limits(case["c"])[0]
    w, h = lim["xMax"] - lim["xMin"], lim["yMax"] - lim["yMin"]
    case["inner"] = {"xMin": lim["xMin"] + f[0] * w, "xMax": lim["xMax"] - f[1] * w,
                     "yMin": lim["yMin"] + f[2] * h, "yMax": lim["yMax"] - f[3] * h}
    return case


@prop.facet(inner_cases, quick=90, rule="tracks that leave the inner domain are rejected")
def inner_domain(case, ctx):
    c, land = case["c"], tg.Land(**case["land"])
    steps = max(case["steps"], int(24 / case["dt"]))
    d = scratch()
    _, tracks = generate(c, d, case["n"], case["sim"], dt=case["dt"], steps=steps,
                         seed=case["seed"], stream=case["stream"], land=land,
                         inner=case["inner"])
    verify(c, tracks, case["n"], case["sim"], case["dt"], steps, land, inner=case["inner"])
    lim = tg.limits(c)[0]
    ctx.nontrivial(any(case["inner"][k] > lim[k] for k in ("xMin", "yMin")) or
                   any(case["inner"][k] < lim[k] for k in ("xMax", "yMax")))


@st.composite
def noise_cases(draw):
    c = draw(tg.climates(noisy=True, nmax=3))
    c.update(sp=12.0, v=20.0, spread=draw(st.sampled_from([0.0, 0.5])),
             alpha=draw(st.sampled_from([0.0, 0.4, 0.8, -0.3, 0.95])),
             noise=draw(st.sampled_from([0.4, 0.8])), dp=0.0, y=-40.0, pinit=965.0, p=940.0,
             x=100.0, b=draw(st.sampled_from([0.5, 2.0, -1.5])))
    land = {}
    if draw(st.booleans()):
        c.update(lalpha=draw(st.sampled_from([0.85, -0.7])), lnoise=draw(st.sampled_from([0.5, 1.6])),
                 alpha=draw(st.sampled_from([0.0, 0.2])), pinit=940.0, p=925.0, v=30.0)
        land = {"start": 98.0 + draw(st.integers(0, 4)), "width": draw(st.sampled_from([3.0, 5.0])),
                "gap": 4.0}
    return {"c": c, "seed": draw(st.integers(1, 10 ** 6)), "land": land,
            "dt": draw(st.sampled_from([1.0, 3.0]))}


@prop.facet(noise_cases, quick=30, thorough=150,
            rule="changes between steps are independent logistic innovations of an AR(1) process")
def innovations(case, ctx):
    import numpy as np
    c, dt = case["c"], case["dt"]
    land = tg.Land(**case["land"])
    many = 12 if not case["land"] else 40
    d = scratch()
    _, tracks = generate(c, d, many, 0, dt=dt, steps=150, seed=case["seed"], land=land,
                         limit=400000)
    verify(c, tracks, many, 0, dt, 150, land)
    found = {"v": [], "b": [], "dp": [], "v ashore": [], "b ashore": []}
    lag = {k: [] for k in found}
    start = {"v": [], "b": []}
    for t in tracks:
        lon, lat = np.asarray(t.Longitude, float), np.asarray(t.Latitude, float)
        cp = np.asarray(t.CentralPressure, float)
        k = len(lon)
        last = {}
        # the first step departs from the motion at genesis by one innovation
        cell = tg.cell_of(c, lon[1], lat[1])
        pre = "l" if land.onLand(t.Longitude[1], t.Latitude[1]) else ""
        for par, dev in (("v", float(t.Speed[1] - t.Speed[0])),
                         ("b", math.radians((t.Bearing[1] - t.Bearing[0] + 180) % 360 - 180))):
            co = tg.coeff(c, par, cell)
            start[par].append(dev / co[pre + "sig"] / co[pre + "phi"])
        for i in range(2, k):
            cell = tg.cell_of(c, lon[i], lat[i])
            ps = tg.coeff(c, "p", cell)
            vals = {"v": float(t.Speed[i]), "b": math.radians(float(t.Bearing[i])),
                    "dp": (cp[i] - cp[i - 1]) / dt}
            ashore = land.onLand(t.Longitude[i], t.Latitude[i])
            for par in ("v", "b", "dp"):
                co = tg.coeff(c, par, cell)
                if ashore:
                    co = {k[1:]: v for k, v in co.items() if k[0] == "l"}
                dev = vals[par] - co["mu"]
                if par == "b":
                    dev = (dev + math.pi) % (2 * math.pi) - math.pi
                chi = dev / co["sig"]
                if par == "dp" and (ashore or cp[i] < ps["min"] - 4 * ps["sig"] + 20):
                    last.pop(par, None)
                    continue
                if par in last:
                    inn = (chi - co["alpha"] * last[par][0]) / co["phi"]
                    found[par + " ashore" * ashore].append(inn)
                    if last[par][1] is not None:
                        lag[par + " ashore" * ashore].append((last[par][1], inn))
                    last[par] = (chi, inn)
                else:
                    last[par] = (chi, None)
    sd = math.pi / math.sqrt(3)
    for par in found:
        v = np.array(found[par])
        if len(v) < 200:
            continue
        n = len(v)
        check(abs(v.mean()) < 7 * sd / math.sqrt(n) + 0.01,
              "%s innovations average %.3f over %d steps" % (par, v.mean(), n))
        # logistic kurtosis 4.2: var(s2) = (4.2 - 1) s4 / n
        check(abs(v.var() / sd ** 2 - 1) < 7 * math.sqrt(3.2 / n) + 0.02,
              "%s innovations have variance %.3f, a logistic has %.3f" % (par, v.var(), sd ** 2))
        q = np.quantile(v, [0.25, 0.75])
        near(q[1] - q[0], 2 * math.log(3), 8 / math.sqrt(n) * 2.2 + 0.05, par + " quartile spread")
        a = np.array(lag[par])
        r = (a[:, 0] * a[:, 1]).mean() / sd ** 2
        check(abs(r) < 7 / math.sqrt(len(a)), "%s innovations are correlated: %.3f" % (par, r))
    for par in start:
        m = len(start[par])
        check(np.mean(np.square(start[par])) < sd ** 2 * (1 + 8 * math.sqrt(3.2 / m) + 40.0 / m),
              "%s departures of the first step: %s" % (par, np.round(start[par], 2).tolist()))
    a, b = np.array(found["v"]), np.array(found["b"])
    m = min(len(a), len(b))
    if m > 200 and len(a) == len(b):
        check(abs((a[:m] * b[:m]).mean() / sd ** 2) < 7 / math.sqrt(m),
              "speed and bearing innovations are correlated")
    ctx.klass(*["%s-%s" % (p, "many" if len(v) >= 200 else "few") for p, v in found.items()])
    ctx.nontrivial(len(found["v"]) >= 200)


@prop.facet(rmax_cases, quick=6, thorough=30,
            rule="a size distribution from the historical record is usable")
def sampled_size(case, ctx):
    from netCDF4 import Dataset
    c, land = case["c"], tg.Land(**case["land"])
    d = scratch()
    path = os.path.join(d, "process")
    tg.write(c, path)
    rows = [(k, 20.0 + 10 * i, (i + 1) / 5.0) for k in range(c["nx"] * c["ny"]) for i in range(5)]
    with Dataset(os.path.join(path, "all_cell_cdf_init_rmax.nc"), "w") as nc:
        nc.createDimension("cell", len(rows))
        for name, col in (("cell", 0), ("x", 1), ("CDF", 2)):
            nc.createVariable(name, "f8", ("cell",))[:] = [r[col] for r in rows]
    ctx.nontrivial(True)
    try:
        g = tg.generator(c, path, land=land, dt=case["dt"], steps=60, seed=case["seed"])
        tracks = g.generateTracks(1, 0)
    except (ValueError, AttributeError) as exc:
        raise Violation("tracks cannot be generated with a size distribution: %s" % exc,
                        finding="size-distribution")
    verify(c, tracks, 1, 0, case["dt"], 60, land, size=False)


@st.composite
def mslp_cases(draw):
    return {"nt": draw(st.sampled_from([24, 73, 365])), "ny": draw(st.sampled_from([36, 73])),
            "nx": draw(st.sampled_from([36, 72, 144])), "units": draw(st.sampled_from(["hPa", "Pa"])),
            "amp": [draw(dec(-8, 8, 1)) for _ in range(3)],
            "phase": [draw(dec(0, 6.28, 2)) for _ in range(3)],
            "name": draw(st.sampled_from(["slp", "msl"])), "loader": draw(st.booleans()),
            "southward": draw(st.booleans()), "packed": draw(st.booleans()),
            "lat": draw(st.sampled_from(["lat", "latitude"])),
            "at": draw(st.lists(st.tuples(dec(0, 1, 3), dec(0.1, 0.9, 3), dec(0, 1, 3)),
                                min_size=1, max_size=6))}


@prop.facet(mslp_cases, quick=60,
            rule="mean pressure is read for the day, latitude and longitude asked for")
def environment(case, ctx):
    import numpy as np
    from netCDF4 import Dataset
    from TrackGenerator.TrackGenerator import SamplePressure
    from Utilities import loadData
    nt, ny, nx = case["nt"], case["ny"], case["nx"]
    a, ph = case["amp"], case["phase"]

    def field(day, lat, lon):
        return (1010.0 + a[0] * np.cos(2 * np.pi * day / 365.0 + ph[0])
                + a[1] * np.sin(2 * np.radians(lat) + ph[1])
                + a[2] * np.cos(np.radians(lon) + ph[2]))
    t = np.arange(nt) * 365.0 / nt
    y = -90 + np.arange(ny) * 180.0 / ny
    x = np.arange(nx) * 360.0 / nx
    data = field(t[:, None, None], y[None, :, None], x[None, None, :])
    path = os.path.join(scratch(), "mslp.nc")
    with Dataset(path, "w") as nc:
        rows = slice(None, None, -1) if case["southward"] else slice(None)
        latname = case["lat"]
        for n, vals in (("time", t), (latname, y[rows]), ("lon", x)):
            nc.createDimension(n, len(vals))
            nc.createVariable(n, "f8", (n,))[:] = vals
        v = nc.createVariable(case["name"], "i2" if case["packed"] else "f8",
                              ("time", latname, "lon"))
        v.units = case["units"]
        scale = 100.0 if case["units"] == "Pa" else 1.0
        if case["packed"]:
            v.scale_factor, v.add_offset = 0.002 * scale, 1010.0 * scale
        v[:] = data[:, rows, :] * scale
    sampler = SamplePressure(path, var=case["name"])
    node = 0.004 if case["packed"] else 1e-6
    tol = 0.02 * (abs(a[0]) + abs(a[1]) + abs(a[2])) + node
    for fd, fy, fx in case["at"]:
        # a node, then an arbitrary place clear of the ends of the grid
        i, j, k = int(fd * (nt - 1)), int(fy * (ny - 1)), int(fx * (nx - 1))
        got = float(sampler.get_pressure(np.array([[t[i]], [y[j]], [x[k]]])))
        near(got, data[i, j, k], node, "pressure at a grid point")
        day = t[2] + fd * (t[-3] - t[2])
        lat = y[1] + fy * (y[-2] - y[1])
        lon = x[2] + fx * (x[-3] - x[2])
        want = float(field(day, lat, lon))
        got = float(sampler.get_pressure(np.array([[day], [lat], [lon]])))
        near(got, want, tol, "pressure on day %.1f at (%.1f, %.1f)" % (day, lon, lat))
        if case["loader"]:
            both = loadData.ltmPressure(np.array([math.floor(day)] * 2),
                                        np.array([day - math.floor(day)] * 2),
                                        np.array([lon] * 2), np.array([lat] * 2),
                                        path, case["name"])
            for v in both:
                near(v, want, tol, "pressure for a historical observation")
    many = np.array([[t[2] + f[0] * (t[-3] - t[2]) for f in case["at"]],
                     [y[1] + f[1] * (y[-2] - y[1]) for f in case["at"]],
                     [x[2] + f[2] * (x[-3] - x[2]) for f in case["at"]]])
    got = np.atleast_1d(sampler.get_pressure(many))
    check(np.all(abs(got - field(*many)) <= tol), "pressures at several places: %r" % got)
    ctx.klass(case["units"], "nt%d" % nt, "southward" if case["southward"] else "northward",
              "packed" if case["packed"] else "plain")
    ctx.nontrivial(any(a))
    # between the last column and the first, and between the last day and the first
    for day, lon in ((t[nt // 2], x[-1] + 180.0 / nx), (t[-1] + 182.5 / nt, x[nx // 2])):
        got = float(sampler.get_pressure(np.array([[day], [y[ny // 2]], [lon]])))
        if abs(got - float(field(day, y[ny // 2], lon))) > 2 * tol + 0.05:
            raise Violation("pressure on day %.1f at longitude %.2f is %.3f, expected %.3f"
                            % (day, lon, got, field(day, y[ny // 2], lon)),
                            finding="pressure-wrap")
