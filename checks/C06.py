"""Wind-pressure relations are consistent in both directions and in units."""
import math

from hypothesis import strategies as st

from vf import Property, check, close, expect_raises
from vf.gen import dec, edge

TECHNIQUE = "property-based testing: round trip, reference formulas, order and unit relations"
NOTE = "random pressures, parameters and units over all relations"

prop = Property("C06", assumptions=[
    "central pressure 860-1015 hPa", "the Atkinson-Holliday relation is referred to a "
    "fixed environmental pressure of 1010 hPa"])

KINDS = ["holland", "willoughby", "atkinson"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    pe = 1010.0 if kind == "atkinson" else draw(edge(dec(985, 1020, 1), 1010.0, 1013.25))
    dp = draw(edge(dec(0.1, 120, 1), 0.1, 50.0))
    return {"kind": kind, "pe": pe, "dp": dp, "beta": draw(edge(dec(0.8, 2.5), 1.3)),
            "rho": draw(edge(dec(1.0, 1.3, 3), 1.15)), "more": draw(dec(0.1, 30, 1)),
            "env": draw(edge(dec(1010.1, 1025, 1), 1013.25)),
            "default": draw(st.booleans())}


def ref(c, dp):
    """Published relation; dp in hPa."""
    if c["kind"] == "willoughby":
        return 0.6252 * math.sqrt(dp * 100)
    if c["kind"] == "atkinson":
        return 3.04 * dp ** 0.644
    b, rho = (1.3, 1.15) if c["default"] else (c["beta"], c["rho"])
    return math.sqrt(b * dp * 100 / (math.e * rho))


def kw(c):
    return {} if c["default"] else {"beta": c["beta"], "rho": c["rho"]}


@prop.facet(cases, quick=500, rule="deficit of at least 1 hPa")
def relations(case, ctx):
    """Formula, units, inverse and order."""
    from wind.vmax import vmax, pDiff
    c = case
    pe, pc = c["pe"] * 100, (c["pe"] - c["dp"]) * 100
    v = vmax(pc, pe, c["kind"], **kw(c))
    close(v, ref(c, c["dp"]), "%s: maximum wind" % c["kind"], rtol=1e-7)
    for a, b in ((pc / 100, pe / 100), (pc, pe / 100), (pc / 100, pe)):
        close(vmax(a, b, c["kind"], **kw(c)), v, "%s: pressures in hPa" % c["kind"],
              rtol=1e-7)
    for env in (pe, pe / 100):
        close(pDiff(v, env, c["kind"], **kw(c)), pc, "%s: inverse" % c["kind"], rtol=1e-9)
    if c["kind"] == "atkinson":
        close(vmax(pc, c["env"] * 100, "atkinson"), v, "atkinson: other environment", rtol=1e-7)
    if c["kind"] == "holland" and c["default"]:
        close(vmax(pc, pe), v, "default relation")
        close(pDiff(v, pe), pc, "default inverse", rtol=1e-9)
    w = vmax(pc - c["more"] * 100, pe, c["kind"], **kw(c))
    check(w > v, "%s: deeper storm is not stronger" % c["kind"])
    back = vmax(pDiff(w, pe, c["kind"], **kw(c)), pe, c["kind"], **kw(c))
    close(back, w, "%s: wind to pressure to wind" % c["kind"], rtol=1e-8)
    ctx.nontrivial(c["dp"] >= 1)
    ctx.klass(c["kind"], "default" if c["default"] else "parameters")


@st.composite
def bad(draw):
    c = draw(cases())
    c["above"] = draw(edge(dec(0.01, 20), 0.01))
    c["unit"] = draw(st.sampled_from([1, 100]))
    c["name"] = draw(st.one_of(st.text("abcdefgh", max_size=6),
                               st.sampled_from(["", "Holland", "holland ", "WILLOUGHBY"])))
    return c


@prop.facet(bad, quick=150, rule="every case is an invalid request")
def rejected(case, ctx):
    """Reversed pressures and unknown relations raise."""
    from wind.vmax import vmax, pDiff
    c, u = case, case["unit"]
    with expect_raises(ValueError, "central pressure above environment accepted"):
        vmax((c["pe"] + c["above"]) * u, c["pe"] * u, c["kind"])
    with expect_raises(NotImplementedError, "unknown relation accepted by vmax"):
        vmax((c["pe"] - 5) * u, c["pe"] * u, c["name"])
    with expect_raises(NotImplementedError, "unknown relation accepted by pDiff"):
        pDiff(30.0, c["pe"] * u, c["name"])
    ctx.nontrivial(True)


@prop.facet(cases, quick=200, rule="deficit of at least 1 hPa")
def models_agree(case, ctx):
    """The wind speed models used by the profiles agree with the stand-alone relations."""
    from wind import windmodels as wm
    from wind.vmax import vmax
    c = case
    cls = {"holland": wm.HollandWindSpeed, "willoughby": wm.WilloughbyWindSpeed,
           "atkinson": wm.AtkinsonWindSpeed}[c["kind"]]
    pe, pc = c["pe"] * 100, (c["pe"] - c["dp"]) * 100
    want = vmax(pc, pe, c["kind"], beta=c["beta"])
    for u in (1, 100):
        if c["kind"] == "atkinson":
            q = wm.HollandWindProfile(-15.0, 150.0, c["env"] * 100 / u, pc / u, 40000.0,
                                      c["beta"], cls)
            close(q.vMax, want, "atkinson: profile maximum in another environment", rtol=1e-7)
        p = wm.HollandWindProfile(-15.0, 150.0, pe / u, pc / u, 40000.0, c["beta"], cls)
        close(p.vMax, want, "%s: profile maximum" % c["kind"], rtol=1e-7)
        close(p.dP, c["dp"] * 100, "pressure deficit in Pa", rtol=1e-7, atol=1e-6)
        p.vMax = 33.0
        close(p.vMax, 33.0, "maximum set by the caller")
    ctx.nontrivial(c["dp"] >= 1)
