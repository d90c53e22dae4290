"""Storm pressure lies between centre and environment and rises outward."""
import math

from hypothesis import strategies as st

from vf import Property, Violation, check, close
from vf.gen import dec, edge, storm, radii
from checks.C04 import arrange, LAYOUTS

TECHNIQUE = "property-based testing: closed-form reference, bounds, monotonicity, linearity"
NOTE = "random storms, radii and array layouts for both kernel variants"

prop = Property("C05", extensions=["PressureInterface._pressureProfile"], assumptions=[
    "positive radii; distances in kilometres, pressures in pascal"])

MODELS = ["holland", "beta", "schloemer", "powell", "willoughby", "doubleHolland"]


def shape_of(model, s):
    rm = s["rMax"] / 1000
    if model in ("holland", "beta"):
        return s["beta"]
    if model == "schloemer":
        return 1.0
    if model == "powell":
        return min(max(1.881093 - 0.010917 * abs(s["lat"]) - 0.005567 * rm, 0.8), 2.2)
    if model == "willoughby":
        return (1.0036 + 0.0173 * 0.6252 * math.sqrt(s["eP"] - s["cP"]) -
                0.313 * math.log(rm) + 0.0087 * abs(s["lat"]))


def ref(model, s, r, c):
    rm = s["rMax"] / 1000
    dp = s["eP"] - s["cP"]
    if model == "doubleHolland":
        d2 = 800 + (dp - 800) / 2000.0
        if dp < 1500:
            d2 *= dp / 1500.0
        b1 = c["b1"] if c["b1"] is not None else 7.3 - s["cP"] / 16000
        b2 = c["b2"] if c["b2"] is not None else 7.2 - s["cP"] / 16000
        return (s["cP"] + (dp - d2) * math.exp(-(rm / r) ** b1) +
                d2 * math.exp(-(c["rm2"] / r) ** b2))
    return s["cP"] + dp * math.exp(-(rm / r) ** shape_of(model, s))


def evaluate(model, s, r, c):
    from PressureInterface.pressureProfile import PrsProfile
    p = PrsProfile(r, s["eP"], s["cP"], s["rMax"] / 1000, s["lat"], 150.0, s["beta"],
                   c["rm2"], c["b1"], c["b2"])
    if model == "beta":
        p.beta = 1.3
        return p.holland(s["beta"])
    return getattr(p, model)()


@st.composite
def cases(draw):
    s = draw(storm())
    if draw(st.integers(0, 3)) == 0:
        s["rMax"] = draw(dec(120, 250, 1)) * 1000
    opt = st.one_of(st.none(), dec(0.8, 2.2))
    return {"model": draw(st.sampled_from(MODELS)), "storm": s, "x": draw(radii()),
            "layout": draw(st.sampled_from(LAYOUTS)),
            "rm2": draw(edge(dec(20, 400, 1), 250.0)), "b1": draw(opt), "b2": draw(opt)}


@prop.facet(cases, quick=400, variant=["pure", "compiled"], rule="at least three distinct radii")
def profile(case, ctx):
    """Value, bounds, order and limits of the pressure."""
    import numpy as np
    s, model = case["storm"], case["model"]
    rm = s["rMax"] / 1000
    r = arrange([x * rm for x in case["x"]], case["layout"])
    keep = r.copy()
    p = evaluate(model, s, r, case)
    check(np.array_equal(r, keep), "radii were modified")
    check(p.shape == r.shape, "grid shape not preserved")
    check(np.isfinite(p).all(), "pressure is not finite")
    ctx.nontrivial(len(set(case["x"])) >= 3)
    ctx.klass(model, case["layout"])
    want = np.array([ref(model, s, float(q), case) for q in r.ravel()]).reshape(r.shape)
    close(p, want, "%s: pressure" % model, rtol=1e-9)
    negative = model == "willoughby" and shape_of(model, s) <= 0
    known = "willoughby-negative-shape" if negative else None
    tiny = 1e-6
    check((p >= s["cP"] - tiny).all() and (p <= s["eP"] + tiny).all(),
          "%s: pressure outside the range centre to environment" % model)
    line = np.concatenate([[1e-3, 0.01], np.linspace(0.05, 3, 60), np.linspace(4, 60, 57),
                           [1e9]])
    q = evaluate(model, s, line * rm, case)
    check((np.diff(q) >= -tiny).all(), "%s: pressure falls outward" % model, known)
    far = 0.02 if known is None and (shape_of(model, s) or 1) > 0.3 else 1.0
    check(q[0] - s["cP"] <= far * (s["eP"] - s["cP"]), "%s: centre" % model, known)
    check(s["eP"] - q[-1] <= far * (s["eP"] - s["cP"]), "%s: far field" % model, known)


@st.composite
def scaled(draw):
    c = draw(cases())
    c["model"] = draw(st.sampled_from(["holland", "beta", "schloemer", "powell"]))
    c["factor"] = draw(edge(dec(0.1, 3, 2), 2.0, 0.5))
    c["shift"] = draw(dec(-20, 20, 1)) * 100
    return c


@prop.facet(scaled, quick=200, variant=["pure", "compiled"],
            rule="at least two distinct radii and a factor other than one")
def linear(case, ctx):
    """Deficit scales and environment shifts the pressure linearly."""
    s, model = case["storm"], case["model"]
    r = arrange([x * s["rMax"] / 1000 for x in case["x"]], "1d")
    p = evaluate(model, s, r, case)
    dp = s["eP"] - s["cP"]
    k = dict(s, cP=s["eP"] - case["factor"] * dp)
    close(s["eP"] - evaluate(model, k, r, case), case["factor"] * (s["eP"] - p),
          "%s: scaled deficit" % model, rtol=1e-9, atol=1e-6)
    m = dict(s, eP=s["eP"] + case["shift"], cP=s["cP"] + case["shift"])
    close(evaluate(model, m, r, case), p + case["shift"], "%s: shifted" % model, rtol=1e-10)
    ctx.nontrivial(len(set(case["x"])) >= 2 and case["factor"] != 1)
