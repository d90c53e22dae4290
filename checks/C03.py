"""Surface wind fields respect the symmetries of a moving vortex."""
import cmath
import math

from hypothesis import strategies as st

from vf import Property, Violation, check, close
from vf.gen import dec, edge, storm, radii
from checks.C02 import build

TECHNIQUE = ("property-based testing: rotation and mirror metamorphic relations, "
             "stationary-storm invariants, scalar reference boundary-layer models")
NOTE = "random storms, grids and motion for both kernel variants"

prop = Property("C03", extensions=["wind._windmodels"], assumptions=[
    "storm at least 2 degrees from the equator, deficit at least 2 hPa",
    "thetaMax given in degrees to field()"])

FIELDS = ["kepert", "mcconochie", "hubbert"]
SMOOTH = ["holland", "powell", "willoughby", "schloemer"]


@st.composite
def cases(draw, moving=True, profiles=tuple(SMOOTH + ["jelesnianski", "rankine"])):
    field = draw(st.sampled_from(FIELDS))
    prof = draw(st.sampled_from(list(profiles)))
    x = draw(radii(lo=2, hi=12))
    lam = draw(st.lists(edge(dec(-180, 180, 1), 0.0, 90.0, 180.0, -90.0),
                        min_size=len(x), max_size=len(x)))
    return {"field": field, "profile": prof, "storm": draw(storm()), "x": x,
            "lam": lam, "vfm": draw(edge(dec(0.1, 20, 1), 10.0)) if moving else 0.0,
            "theta": draw(dec(-180, 270, 1)),
            "tmax": draw(edge(dec(-180, 180, 1), 0.0, 70.0, -70.0)),
            "turn": draw(dec(-360, 360, 1))}


def run(case, lat=None, lam=None, theta=None, tmax=None, r=None):
    import numpy as np
    from wind import windmodels as wm
    s = dict(case["storm"])
    if lat is not None:
        s["lat"] = lat
    p = build(case["profile"], s)
    r = np.array(case["x"]) * s["rMax"] if r is None else np.asarray(r, float)
    lam = np.radians(case["lam"] if lam is None else lam)
    out = wm.field(case["field"])(p).field(
        r, np.array(lam), case["vfm"],
        math.radians(case["theta"] if theta is None else theta),
        case["tmax"] if tmax is None else tmax)
    return p, r, lam, np.asarray(out[0]), np.asarray(out[1])


def finite(case, u, v):
    import numpy as np
    bad = ~(np.isfinite(u) & np.isfinite(v))
    if bad.any():
        # Linear boundary layer theory has no solution where the vortex is
        # inertially unstable (absolute vorticity of the wrong sign).
        p = build(case["profile"], case["storm"])
        z = p.vorticity(np.array(case["x"]) * case["storm"]["rMax"])
        unstable = (p.f * (p.f + z) <= 0) & (case["field"] == "kepert")
        raise Violation("%s over %s: not a finite wind at %r rMax" % (
            case["field"], case["profile"],
            [case["x"][i] for i in np.nonzero(bad)[0]][:3]),
            finding="kepert-unstable-vortex" if (unstable | ~bad).all() else None)


@prop.facet(cases, quick=300, variant=["pure", "compiled"],
            rule="at least three distinct directions and a turn of at least one degree")
def rotation(case, ctx):
    """Turning the storm turns the wind vectors."""
    import numpy as np
    _, _, _, u, v = run(case)
    finite(case, u, v)
    a = case["turn"]
    _, _, _, u2, v2 = run(case, lam=[q + a for q in case["lam"]],
                          theta=case["theta"] + a)
    w = (u + 1j * v) * cmath.exp(1j * math.radians(a))
    scale = np.abs(w).max()
    close(u2, w.real, "%s: turned field, east" % case["field"], rtol=1e-7, atol=1e-7 * scale)
    close(v2, w.imag, "%s: turned field, north" % case["field"], rtol=1e-7, atol=1e-7 * scale)
    ctx.nontrivial(len(set(case["lam"])) >= 3 and abs(a) >= 1)
    ctx.klass(case["field"], case["profile"])


@prop.facet(cases, quick=300, variant=["pure", "compiled"],
            rule="at least three distinct directions, moving storm")
def mirror(case, ctx):
    """Mirroring the storm into the other hemisphere mirrors the wind."""
    import numpy as np
    _, _, _, u, v = run(case)
    finite(case, u, v)
    _, _, _, u2, v2 = run(case, lat=-case["storm"]["lat"],
                          lam=[-q for q in case["lam"]], theta=-case["theta"],
                          tmax=-case["tmax"])
    scale = np.hypot(u, v).max()
    close(u2, u, "%s: mirrored field, east" % case["field"], rtol=1e-7, atol=1e-7 * scale)
    close(v2, -v, "%s: mirrored field, north" % case["field"], rtol=1e-7, atol=1e-7 * scale)
    ctx.nontrivial(len(set(case["lam"])) >= 3)
    ctx.klass(case["field"], case["profile"])


@st.composite
def still(draw):
    return draw(cases(moving=False))


@prop.facet(still, quick=250, variant=["pure", "compiled"],
            rule="at least two distinct directions")
def stationary(case, ctx):
    """A stationary storm is round, cyclonic and flows inward by less than 90 degrees."""
    import numpy as np
    p, r, lam, u, v = run(case)
    finite(case, u, v)
    other = np.degrees(lam) + case["turn"] + 37.0
    # The core of the wind cone must be in both grids: use the same radii.
    _, _, _, u2, v2 = run(case, lam=other)
    sp = np.hypot(u, v)
    close(np.hypot(u2, v2), sp, "%s: speed at equal radius" % case["field"],
          rtol=1e-8, atol=1e-9 * sp.max())
    sense = 1 if case["storm"]["lat"] > 0 else -1
    tang = sense * (-u * np.sin(lam) + v * np.cos(lam))
    rad = u * np.cos(lam) + v * np.sin(lam)
    tiny = 1e-9 * sp.max()
    check((tang >= -tiny).all(), "%s: anticyclonic flow" % case["field"])
    check((rad <= tiny).all(), "%s: outflow" % case["field"])
    ctx.nontrivial(len(set(case["lam"])) >= 2)
    ctx.klass(case["field"], case["profile"])


def ref_hubbert(case, f, rm, v, r, lam, vf, th, tm):
    s = math.copysign(1, f)
    inflow = 0.0 if r < rm else 25.0
    speed = 0.7 * v + s * vf * math.cos(th + tm - lam)
    # tangential unit vector turned inward
    ang = lam + math.pi / 2 + s * math.radians(inflow)
    return 1.069 * speed * cmath.exp(1j * ang)


def ref_mcconochie(case, f, rm, v, r, lam, vf, th, tm, vtop):
    s = math.copysign(1, f)
    if r < rm:
        inflow = 10 * r / rm
    elif r < 1.2 * rm:
        inflow = 10 + 75 * (r / rm - 1)
    else:
        inflow = 25.0
    speed = v + 0.5 * (1 + math.cos(th + tm - lam)) * vf * v / vtop
    a = abs(speed)
    k = (0.81 if a < 6 else 0.81 - 2.93e-3 * (a - 6) if a < 19.5 else
         0.77 - 4.31e-3 * (a - 19.5) if a < 45 else 0.66)
    ang = lam + math.pi / 2 + s * math.radians(inflow)
    return 1.069 * k * speed * cmath.exp(1j * ang)


def ref_kepert(case, f, rm, v, z, vm, r, lam, vf, th):
    """Kepert (2001) linear boundary layer, evaluated in the mirrored NH frame."""
    if f < 0:
        return ref_kepert(case, -f, rm, -v, -z, vm, r, -lam, vf, -th).conjugate()
    K, C = 50.0, 0.002
    if vf > 0 and vm / vf < 5:
        vt = vf * abs(1.25 * (1 - vf / vm))
    else:
        vt = vf
    if r > 2 * rm:
        vt *= math.exp(-(r / (2 * rm) - 1) ** 2)
    al = (2 * v / r + f) / (2 * K)
    be = (f + z) / (2 * K)
    ga = v / (2 * K * r)
    root = math.sqrt(al * be)
    ab = math.sqrt(al / be)
    chi = C / K * v / math.sqrt(root)
    eta = C / K * v / math.sqrt(root + ga)
    psi = C / K * v / math.sqrt(abs(root - ga))
    i = 1j
    a0 = -chi * (1 + i * (1 + chi)) * v / (2 * chi ** 2 + 3 * chi + 2)
    nm = -psi * (1 + 2 * ab + (1 + i) * (1 + ab) * eta) * vt
    if ga > root:
        am = nm / (ab * (2 - 2 * i + 3 * (eta + psi) + (2 + 2 * i) * eta * psi))
        ap = (-eta * (1 - 2 * ab + (1 - i) * (1 - ab) * psi) * vt /
              (ab * (2 + 2 * i + 3 * (eta + psi) + (2 - 2 * i) * eta * psi)))
    else:
        am = nm / (ab * ((2 + 2 * i) * (1 + eta * psi) + 3 * psi + 3 * i * eta))
        ap = (-eta * (1 - 2 * ab + (1 + i) * (1 - ab) * psi) * vt /
              (ab * ((2 + 2 * i) * (1 + eta * psi) + 3 * eta + 3 * i * psi)))
    d = lam - th
    am *= cmath.exp(-i * d)
    ap *= cmath.exp(i * d)
    us = a0.real * ab + (am.real + ap.real) * ab + vt * math.cos(d)
    vs = v + a0.imag + am.imag + ap.imag - vt * math.sin(d)
    # us radial (outward), vs tangential
    return (us + 1j * vs) * cmath.exp(1j * lam)


@st.composite
def smooth_cases(draw):
    return draw(cases(moving=draw(st.integers(0, 9)) > 0, profiles=tuple(SMOOTH)))


@prop.facet(smooth_cases, quick=400, variant=["pure", "compiled"],
            rule="at least three distinct directions, inside and outside rMax")
def reference(case, ctx):
    """Every vector equals the published model evaluated point by point."""
    import numpy as np
    p, r, lam, u, v = run(case)
    finite(case, u, v)
    V, Z = p.velocity(r), p.vorticity(r)
    th, tm = math.radians(case["theta"]), math.radians(case["tmax"])
    f, rm, vf = p.f, p.rMax, case["vfm"]
    want = []
    for k in range(len(r)):
        a = (float(r[k]), float(lam[k]), vf, th)
        if case["field"] == "hubbert":
            want.append(ref_hubbert(case, f, rm, float(V[k]), *a, tm))
        elif case["field"] == "mcconochie":
            want.append(ref_mcconochie(case, f, rm, float(V[k]), *a, tm,
                                       float(np.abs(V).max())))
        else:
            want.append(ref_kepert(case, f, rm, float(V[k]), float(Z[k]),
                                   float(p.vMax), *a))
    want = np.array(want)
    scale = np.abs(want).max()
    close(u, want.real, "%s: east component" % case["field"], rtol=1e-6, atol=1e-6 * scale)
    close(v, want.imag, "%s: north component" % case["field"], rtol=1e-6, atol=1e-6 * scale)
    x = np.array(case["x"])
    ctx.nontrivial(len(set(case["lam"])) >= 3 and (x < 1).any() and (x > 1).any())
    ctx.klass(case["field"], "south" if f < 0 else "north",
              "fast" if vf > 0 and p.vMax / vf < 5 else "slow")


@st.composite
def side_cases(draw):
    c = draw(cases(profiles=("holland", "powell", "willoughby")))
    c["storm"] = dict(c["storm"], cP=c["storm"]["eP"] - 100 * draw(dec(30, 100, 1)))
    c["vfm"] = draw(dec(2, 7, 1))
    c["ring"] = draw(dec(1.0, 2.0, 2))
    return c


@prop.facet(side_cases, quick=120, variant=["pure", "compiled"],
            rule="every case compares the two sides of a moving storm on a ring")
def strong_side(case, ctx):
    """Motion strengthens the side where it adds to the rotation."""
    import numpy as np
    deg = np.arange(0, 360, 5.0)
    north = case["storm"]["lat"] > 0
    r = np.full(deg.shape, case["ring"] * case["storm"]["rMax"])
    if case["field"] == "kepert":
        peak = case["theta"] + (-90 if north else 90)
    else:
        peak = case["theta"] + case["tmax"]
    _, _, lam, u, v = run(case, lam=deg, r=r)
    sp = np.hypot(u, v)
    c = np.cos(lam - math.radians(peak))
    check((sp * c).sum() > 0, "%s: weaker on the side where motion adds to rotation"
          % case["field"])
    ctx.nontrivial(True)
    ctx.klass(case["field"], "north" if north else "south")
