"""Landfall: storms fill at the modelled rate while ashore and only then."""
import math
import os

from hypothesis import strategies as st

from vf import Property, check, scratch
from vf import trackgen as tg
from vf.gen import dec, edge

TECHNIQUE = ("property-based testing of generated tracks over striped coasts: the decay rate "
             "is recovered from every step ashore and compared within and between landfalls")
NOTE = ("islands of 0.2-30 degrees separated by straits, up to several landfalls a track, steps "
        "of 0.5-3 h; land masks as files for the land test itself")

prop = Property("C16", preload=("numpy", "TrackGenerator.TrackGenerator"), assumptions=[
    "the coast is a stand-in made of stripes, the land mask file varies with longitude only"])

BASE, PER_HPA, PER_KMH = 0.03515, 0.000435, 0.002865


@st.composite
def cases(draw):
    c = draw(tg.climates(noisy=draw(st.booleans())))
    axis = draw(st.sampled_from(["lon", "lat"]))
    lim = tg.limits(c)[0]
    lo = lim["xMin"] if axis == "lon" else lim["yMin"]
    # weather that keeps storms alive long enough to cross the coast
    c.update(sp=max(c["sp"], 4.0), pinit=min(c["pinit"], 975.0), dp=min(c["dp"], 0.1),
             prange=min(c["prange"], 10.0), v=draw(dec(6, 28, 1)))
    c["b"] = (draw(st.sampled_from([1.57, -1.57])) if axis == "lon" else
              draw(st.sampled_from([0.0, 3.14]))) + draw(dec(-0.6, 0.6, 2))
    return {"c": c, "axis": axis, "start": round(lo + draw(dec(-1, 3, 2)), 2),
            "width": draw(st.sampled_from([0.25, 0.6, 1.2, 3.0])),
            "gap": draw(st.sampled_from([0.3, 0.8, 2.0, 9.0])),
            "dt": draw(st.sampled_from([1.0, 0.5, 3.0])), "n": draw(st.integers(1, 3)),
            "seed": draw(st.integers(1, 10 ** 6))}


def generate(case, n, limit=20000, steps=100):
    path = os.path.join(scratch(), "process")
    tg.write(case["c"], path)
    land = tg.Land(case["start"], case["width"], case["gap"], case["axis"])
    g = tg.generator(case["c"], path, land=land, dt=case["dt"], steps=steps, seed=case["seed"],
                     limit=limit)
    return land, g.generateTracks(n, 0)


def ashore(land, t):
    import numpy as np
    # the first position is genesis, taken to be at sea
    return [i > 0 and land.onLand(np.float32(x), np.float32(y))
            for i, (x, y) in enumerate(zip(t.Longitude, t.Latitude))]


def rates(land, t, dt):
    """(step, landfall number, hours ashore, deficit, speed, storm term) per step ashore."""
    import numpy as np
    cp, ep = np.asarray(t.CentralPressure, float), np.asarray(t.EnvPressure, float)
    sp = np.asarray(t.Speed, float)
    on = ashore(land, t)
    out, sea, hours, number = [], 0, 0.0, 0
    for i in range(1, len(cp)):
        if not on[i]:
            sea, hours = i, 0.0
            continue
        if not on[i - 1]:
            number += 1
        hours += dt
        deficit = ep[sea] - cp[sea]
        left = ep[i - 1] - cp[i]
        check(left > 0, "step %d ashore: centre above the surrounding pressure" % i)
        rate = -math.log(left / deficit) / hours
        out.append((i, number, hours, deficit, left, rate,
                    rate - BASE - PER_HPA * deficit - PER_KMH * sp[sea]))
    return out


@prop.facet(cases, quick=220, rule="the deficit ashore is that at landfall times exp(-rate*hours)")
def decay(case, ctx):
    import numpy as np
    land, tracks = generate(case, case["n"])
    crossings = 0
    for j, t in enumerate(tracks):
        rs = rates(land, t, case["dt"])
        if not rs:
            continue
        crossings = max(crossings, rs[-1][1])
        ref = rs[0][6]
        for i, number, hours, deficit, left, rate, term in rs:
            tol = 4e-4 / (left * hours) + 2e-5
            check(abs(term - ref) <= tol + 4e-4 / (rs[0][4] * rs[0][2]),
                  "track %d step %d, landfall %d, %.1f h ashore: storm term of the decay rate is "
                  "%.5f, it was %.5f at first" % (j, i, number, hours, term, ref))
            check(term >= -0.06146 - tol, "track %d: storm term %.5f of the decay rate is below "
                  "its least value" % (j, term))
            if rate > 0:
                check(left <= deficit + 1e-3, "track %d step %d: deficit %.3f ashore exceeds %.3f "
                      "at landfall" % (j, i, left, deficit))
        by = {}
        for i, number, hours, deficit, left, rate, term in rs:
            if number in by and rate > 1e-4:
                check(left < by[number] + 2e-3, "track %d step %d: the deficit grows ashore" % (j, i))
            by[number] = left
    ctx.klass("landfalls%d" % min(crossings, 4), "dt%g" % case["dt"])
    ctx.nontrivial(crossings > 0)


@prop.facet(cases, quick=120, rule="at sea the intensity changes by the cell's rate from where it is")
def at_sea(case, ctx):
    import numpy as np
    case["c"]["noise"] = 0.0
    c, dt = case["c"], case["dt"]
    land, tracks = generate(case, case["n"])
    back = 0
    for j, t in enumerate(tracks):
        on = ashore(land, t)
        cp = np.asarray(t.CentralPressure, float)
        for i in range(1, len(cp)):
            if on[i]:
                continue
            cell = tg.cell_of(c, float(t.Longitude[i]), float(t.Latitude[i]))
            rate = tg.coeff(c, "dp", cell)["mu"] if i > 1 else 0.0
            ps = tg.coeff(c, "p", cell)
            want = cp[i - 1] + rate * dt
            if want < ps["min"] - 4 * ps["sig"]:
                want = cp[i - 1] + abs(rate) * dt
            check(abs(cp[i] - want) < 2e-3, "track %d step %d at sea%s: %.3f hPa, expected %.3f"
                  % (j, i, " after land" if any(on[:i]) else "", cp[i], want))
            back += any(on[:i])
    ctx.klass("back-at-sea" if back else "once")
    ctx.nontrivial(back > 0)


@st.composite
def many_cases(draw):
    case = draw(cases())
    case.update(width=30.0, gap=0.0, dt=1.0)
    case["c"].update(noise=0.0, spread=0.0, v=draw(st.sampled_from([10.0, 25.0])), pinit=960.0,
                     sp=5.0, nx=3, ny=3)
    return case


@prop.facet(many_cases, quick=6, thorough=60,
            rule="the storm term is lognormal as configured and differs between storms")
def storm_term(case, ctx):
    import numpy as np
    land, tracks = generate(case, 120, limit=400000, steps=20)
    terms = []
    for t in tracks:
        rs = rates(land, t, 1.0)
        if rs:
            terms.append(rs[-1][6])
    ctx.nontrivial(len(terms) > 60)
    if len(terms) <= 60:
        return
    v = np.log(np.maximum(np.array(terms) + 0.06146, 1e-9) / 0.0471)
    n = len(v)
    # storms that fill at once are discarded, so only the lower half is free of selection
    low = np.quantile(v, 0.25)
    check(-0.47 - 6 * 0.95 / math.sqrt(n) - 0.5 < low < -0.47 + 6 * 0.95 / math.sqrt(n),
          "quarter of the storm terms are below %.3f (log scale)" % low)
    check(len(set(np.round(v, 6))) > n // 2, "storms share their decay term")


@st.composite
def mask_cases(draw):
    edges = sorted(draw(st.lists(st.integers(2, 358), min_size=1, max_size=6, unique=True)))
    return {"edges": edges, "first": draw(st.booleans()), "value": draw(st.sampled_from([1, 3, 0.5])),
            "dt": draw(st.sampled_from([1.0, 0.5, 6.0])),
            "walk": draw(st.lists(st.tuples(edge(dec(0.6, 358.4, 2), 100.0, 180.0),
                                            dec(-60, 60, 1)), min_size=1, max_size=12)),
            "pc": draw(dec(900, 990, 1)), "pe": draw(dec(1000, 1015, 1)),
            "shift": draw(st.sampled_from([0.0, 0.0, -360.0]))}


@prop.facet(mask_cases, quick=120,
            rule="land test follows the mask, time ashore accumulates and is cleared at sea")
def mask(case, ctx):
    import numpy as np
    from netCDF4 import Dataset
    from TrackGenerator.trackLandfall import LandfallDecay
    from Utilities.config import reset
    d = scratch()

    def is_land(x):
        return (sum(1 for e in case["edges"] if e <= x) % 2 == 0) == case["first"]
    lon = np.arange(0, 361.0)
    with Dataset(os.path.join(d, "land.nc"), "w") as nc:
        nc.createDimension("lat", 181)
        nc.createDimension("lon", 361)
        nc.createVariable("lat", "f8", ("lat",))[:] = np.arange(-90, 91.0)
        nc.createVariable("lon", "f8", ("lon",))[:] = lon
        nc.createVariable("landmask", "f8", ("lat", "lon"))[:] = \
            np.array([case["value"] if is_land(x) else 0 for x in lon])[None, :].repeat(181, 0)
    cfg = os.path.join(d, "c.ini")
    with open(cfg, "w") as f:
        f.write("[Input]\nLandMask=%s/land.nc\n" % d)
    reset()
    decay_ = LandfallDecay(cfg, case["dt"])
    hours, seen = 0.0, set()
    for x, y in case["walk"]:
        if any(abs(x - e) <= 1.01 for e in case["edges"]):
            continue            # within a grid step of the coast either answer is right
        want = is_land(x)
        got = decay_.onLand(x + case["shift"], y)
        check(bool(got) == want, "(%r, %r) counts as %s" % (x + case["shift"], y,
                                                          "land" if got else "sea"))
        hours = hours + case["dt"] if want else 0.0
        seen.add(want)
        check(abs(decay_.tol - hours) < 1e-9, "%r h ashore counted, expected %r"
              % (decay_.tol, hours))
        np.random.seed(len(seen))
        new = decay_.pChange(case["pc"], case["pe"])
        dp = case["pe"] - case["pc"]
        left = case["pe"] - new
        rate = 0.008 + 0.0008 * dp
        check(dp * math.exp(-(rate + 0.006) * hours) - 1e-9 <= left <=
              dp * math.exp(-(rate - 0.006) * hours) + 1e-9,
              "after %r h ashore %.2f hPa of %.2f are left" % (hours, left, dp))
    ctx.klass("both" if len(seen) == 2 else "one")
    ctx.nontrivial(len(seen) == 2)
