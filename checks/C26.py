"""Unit and moisture conversions are inverse, consistent and monotone."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, Violation
from vf.gen import dec, edge

TECHNIQUE = ("generated values over every pair and triple of units compared with "
             "exact factors; generated moisture states compared through inverses, "
             "monotonicity and arrays against scalars")
NOTE = ("factors of the converter are rounded, so conversions are compared to 0.15%; "
        "temperatures -30 to 50 C, pressures 850 to 1050 hPa")

prop = Property("C26", assumptions=[
    "unit names are those of the converter and quantities of the same kind",
    "dew point and wet bulb do not exceed the air temperature"])

# Factors to a base unit.
KINDS = {
    "speed": {"mps": 1.0, "m/s": 1.0, "kmh": 1 / 3.6, "kph": 1 / 3.6, "kts": 1852 / 3600.0,
              "mph": 0.44704},
    "pressure": {"Pa": 1.0, "Pascals": 1.0, "hPa": 100.0, "kPa": 1000.0, "inHg": 3386.389,
                 "mmHg": 133.3224},
    "length": {"m": 1.0, "km": 1000.0, "mi": 1609.344, "nm": 1852.0,
               "deg": 6367000.0 * math.pi / 180, "rad": 6367000.0},
    "mixing": {"gkg": 1.0, "kgkg": 1000.0},
}
TEMPS = ("C", "F", "K")
TOL = 1.5e-3


def exact(v, a, b):
    for kind in KINDS.values():
        if a in kind and b in kind:
            return v * kind[a] / kind[b]
    c = {"C": v, "F": (v - 32) / 1.8, "K": v - 273.0}[a]
    return {"C": c, "F": c * 1.8 + 32, "K": c + 273.0}[b]


@st.composite
def units(draw):
    kind = draw(st.sampled_from(sorted(KINDS) + ["temperature"]))
    names = TEMPS if kind == "temperature" else sorted(KINDS[kind])
    a = draw(st.sampled_from(names))
    b = draw(st.sampled_from([n for n in names if n != a]))
    c = draw(st.sampled_from(names))
    if kind == "temperature":
        v = [round(exact(x, "C", a), 4) for x in draw(st.lists(dec(-60, 60, 1), min_size=1, max_size=8))]
    else:
        v = draw(st.lists(edge(dec(0, 2000, 2), 0.0, 1.0), min_size=1, max_size=8))
    return {"kind": kind, "a": a, "b": b, "c": c, "v": v,
            "missing": draw(st.booleans())}


def near(x, y, kind, slack=1.0):
    if kind == "temperature":
        return abs(x - y) <= 0.03 * slack
    return abs(x - y) <= TOL * slack * abs(y) + 1e-12


@prop.facet(units, quick=2500, thorough=50000,
            rule="a kind of quantity, three units and values; non-trivial when a "
                 "value is not zero")
def convert(d, ctx):
    from Utilities.metutils import convert as f
    a, b, c, k = d["a"], d["b"], d["c"], d["kind"]
    ctx.nontrivial(any(d["v"]))
    ctx.klass(k)
    given = np.array(d["v"])
    got = f(given, a, b)
    check((given == np.array(d["v"])).all(), "converting changes the array passed in")
    check(got.shape == given.shape, "shape of the converted array")
    back, via, direct = f(got, b, a), f(got, b, c), f(given, a, c)
    for i, v in enumerate(d["v"]):
        want = exact(v, a, b)
        check(near(float(got[i]), want, k), "%r %s is %r %s, not %r" % (v, a, float(got[i]), b, want))
        check(near(float(back[i]), v, k, 2), "%r %s comes back from %s as %r" % (v, a, b, float(back[i])))
        check(near(float(via[i]), float(direct[i]), k, 3), "%r %s to %s is %r directly and %r through %s" %
              (v, a, c, float(direct[i]), float(via[i]), b))
        one = f(v, a, b)
        check(np.shape(one) == () and abs(float(one) - float(got[i])) <= 1e-12 * max(1, abs(float(one))),
              "a single value and an array convert differently")
        check(isinstance(float(f(int(v), a, b)), float) and
              abs(float(f(int(v), a, b)) - float(f(float(int(v)), a, b))) < 1e-12,
              "an integer and a float convert differently")
    o = np.argsort(given)
    check((np.diff(np.asarray(got)[o]) >= 0).all(), "order is not preserved")
    if d["missing"]:
        m = np.ma.masked_array(given.copy(), mask=[i % 2 == 0 for i in range(len(given))])
        g = f(m, a, b)
        check((np.ma.getmaskarray(g) == m.mask).all(), "missing values are lost")
        check(np.abs((g - got).compressed()).max() <= 1e-12 * max(1, np.abs(got).max())
              if len(given) > 1 else True, "missing values change the others")


@st.composite
def air(draw):
    t = draw(dec(-30, 50, 1))
    return {"t": t, "below": draw(edge(dec(0.5, 40, 1), 0.0)), "p": draw(dec(850, 1050, 1)),
            "rh": draw(dec(1, 99, 1)), "t2": draw(dec(-30, 50, 1)),
            "elev": draw(edge(dec(0, 2500, 0), 0.0, -10.0)),
            "q": draw(dec(0.1, 25, 2))}


@prop.facet(air, quick=2000, thorough=40000,
            rule="a state of moist air; non-trivial when it is not saturated")
def moisture(d, ctx):
    from Utilities import metutils as m
    t, p, rh = d["t"], d["p"], d["rh"]
    dew = t - d["below"]
    ctx.nontrivial(d["below"] > 0)
    f = float
    es, e = f(m.satVapPr(t)), f(m.dewPointToVapPr(dew))
    # Magnus type formula, hPa; 6.11 at freezing.
    check(abs(f(m.satVapPr(0.0)) - 6.11) < 0.02, "saturation vapour pressure at freezing")
    lo, hi = min(t, d["t2"]), max(t, d["t2"])
    check(f(m.satVapPr(lo)) <= f(m.satVapPr(hi)), "saturation vapour pressure falls with temperature")
    check(f(m.vapour(lo)) <= f(m.vapour(hi)), "vapour pressure falls with temperature")
    if -30 <= t <= 45:
        check(abs(f(m.vapour(t)) / es - 1) < 0.02, "the two saturation formulas differ at %r" % t)
    check(abs(f(m.satVapPr(dew)) - e) <= 1e-9 * e, "vapour pressure at the dew point")
    for u in ("kPa", "Pa", "hPa"):
        back = f(m.vapPrToDewPoint(m.dewPointToVapPr(dew, u), u))
        check(abs(back - dew) <= 1e-6, "dew point %r comes back as %r through %s" % (dew, back, u))
        check(abs(f(m.satVapPr(t, u)) - f(m.convert(es, "hPa", u))) <= 1e-9 * f(m.satVapPr(t, u)), "units")
    # Relative humidity.
    r = m.dewPointToRH(t, dew)
    check(r is not None and 0 <= r <= 100, "relative humidity %r at %r with dew point %r" % (r, t, dew))
    if t < 45 and d["below"] < 25:
        check(abs(f(r) - 100 * e / es) <= 1.5, "relative humidity %r, vapour pressures give %r" % (r, 100 * e / es))
    v = f(m.vapPrToRH(e, es))
    check(0 <= v <= 100 and abs(v - 100 * e / es) <= 1e-9 * 100, "relative humidity of vapour pressures")
    check(m.vapPrToRH(es * 1.2, es) == 100 and m.vapPrToRH(-1.0, es) == 0 and m.vapPrToRH(1.0, 0.0) == 100,
          "relative humidity is not kept within 0 and 100")
    td = m.rHToDewPoint(rh, t)
    check(td is not None and f(td) <= t, "dew point %r at %r%% and %r" % (td, rh, t))
    check(abs(100 * f(m.dewPointToVapPr(f(td))) / es - rh) <= 1e-6 * rh, "dew point does not give the humidity back")
    # Mixing ratio and specific humidity.
    w = m.vapPrToMixRat(e, p)
    check(abs(m.mixRatToVapPr(w, p) - e) <= 1e-9 * e, "mixing ratio does not give the vapour pressure back")
    check(abs(w - 0.622 * e / (p - e)) <= 1e-12, "mixing ratio")
    q = m.vapPrToSpHum(e, p)
    check(0 < q < w or e == 0, "specific humidity %r and mixing ratio %r" % (q, w))
    for u, k in (("kgkg", 1.0), ("gkg", 1000.0)):
        check(abs(f(m.spHumToMixRat(q * k, u)) - 0.622 * q / (0.622 - q)) <= 1e-9, "mixing ratio from %s" % u)
    check(abs(f(m.rHToMixRat(rh, t, p)) - 0.622 * (rh / 100 * es) / (p - rh / 100 * es)) <= 1e-9,
          "mixing ratio from relative humidity")
    for u in ("K", "F"):
        a = f(m.rHToMixRat(rh, f(m.convert(t, "C", u)), p, u))
        check(abs(a - f(m.rHToMixRat(rh, t, p))) <= 5e-3 * a, "mixing ratio with temperature in %s" % u)
    back = f(m.spHumToRH(m.vapPrToSpHum(rh / 100 * es, p), t, p))
    check(abs(back - rh) <= 1e-6, "relative humidity %r comes back as %r" % (rh, back))
    # Wet bulb.
    a0 = f(m.elevToAirPr(d["elev"]))
    check(abs(a0 - 1013.25 * math.exp(-0.0001184 * max(0, d["elev"]))) < 1e-6, "pressure at %r m" % d["elev"])
    for wb in (t, t - d["below"] / 10.0):
        vp = f(m.wetBulbToVapPr(t, wb, d["elev"]))
        sw = f(m.satVapPr(wb))
        check(vp <= sw + 1e-9, "more vapour than saturation at the wet bulb")
        check(abs(vp - (sw - 0.00066 * (1 + 0.00115 * wb) * a0 * (t - wb))) <= 1e-6, "vapour pressure from wet bulb")
        if vp > 0.01:
            h = f(m.wetBulbToRH(t, wb, d["elev"]))
            check(abs(h - min(100, 100 * vp / es)) <= 1e-6, "relative humidity from wet bulb is %r, vapour "
                  "pressures give %r" % (h, 100 * vp / es))
            dp = f(m.wetBulbToDewPoint(t, wb, d["elev"]))
            check(dp <= wb + 1e-6 and abs(f(m.dewPointToVapPr(dp)) - vp) <= 1e-6, "dew point from wet bulb")
    for up in (0.1, 3):
        # A wet bulb cannot be above the dry bulb: it is read as being level.
        check(f(m.wetBulbToRH(t, t + up, 0)) == f(m.wetBulbToRH(t, t, 0)), "wet bulb above dry bulb")
        check(f(m.wetBulbToVapPr(t, t + up, d["elev"])) == f(m.wetBulbToVapPr(t, t, d["elev"])),
              "vapour pressure with wet bulb above dry bulb")
        check(f(m.wetBulbToDewPoint(t, t + up, d["elev"])) <= t + 1e-6,
              "dew point above the air temperature")
    check(abs(m.coriolis(t) + m.coriolis(-t)) < 1e-18, "Coriolis factor is odd")


@prop.facet(air, quick=400, thorough=8000,
            rule="a state of moist air; non-trivial when it is not saturated")
def wet_bulb(d, ctx):
    from Utilities import metutils as m
    t = max(0.0, d["t"])
    dew = t - min(d["below"], 20)
    ctx.nontrivial(dew < t)
    w = float(m.dewPointToWetBulb(t, dew, d["p"]))
    check(dew - 0.02 <= w <= t + 0.02, "wet bulb %r not between dew point %r and %r" % (w, dew, t))
    e = float(m.satVapPr(w)) - d["p"] * (t - w) * 0.00066 * (1 + 0.00115 * w)
    check(abs(e - float(m.satVapPr(dew))) <= 0.06, "wet bulb %r does not balance at %r, %r" % (w, t, dew))
    try:
        m.dewPointToWetBulb(t, t + 1, d["p"])
    except ValueError:
        pass
    else:
        raise Violation("dew point above the air temperature accepted")
    g = [float(m.genesisPotential(z * 1e-5, 60.0, 50.0, s)) for z, s in ((2, 10), (3, 10), (2, 5))]
    check(g[1] > g[0] and g[2] > g[0], "genesis potential does not grow with vorticity or calm")
    arr = np.array([t, dew])
    for fn in (m.satVapPr, m.dewPointToVapPr, m.vapour, m.coriolis):
        v = fn(arr)
        check(abs(float(v[0]) - float(fn(t))) <= 1e-12 * max(1, abs(float(v[0]))) and
              abs(float(v[1]) - float(fn(dew))) <= 1e-12 * max(1, abs(float(v[1]))),
              "%s treats arrays and single values differently" % fn.__name__)
