"""Compiled kernels and their Python fallbacks give the same answer."""
import math

from hypothesis import strategies as st

from vf import Property, check, close, remote
from vf.gen import dec, edge, storm, radii
from checks.C02 import build

TECHNIQUE = "differential property-based testing of compiled against Python kernels"
NOTE = "random inputs, shapes and memory layouts; both variants run from the current source"

prop = Property("C04", extensions=["all"], assumptions=[
    "float64 arrays; interpolation points ascending and inside the data range"])

LAYOUTS = ["1d", "c", "f", "t", "strided", "flip"]


def arrange(values, layout):
    """The values in an array of the given shape and memory layout."""
    import numpy as np
    a = np.array(values, dtype=float)
    n = a.size
    rows = 2 if n % 2 == 0 else (3 if n % 3 == 0 else 1)
    if layout == "1d":
        return a
    if layout == "c":
        return a.reshape(rows, -1)
    if layout == "f":
        return np.asfortranarray(a.reshape(rows, -1))
    if layout == "t":
        return np.ascontiguousarray(a.reshape(rows, -1).T).T
    if layout == "flip":
        return np.ascontiguousarray(a[::-1])[::-1]
    b = np.full(2 * n, -1.0)
    b[::2] = a
    return b[::2]


def do_profile(name, s, x, layout):
    p = build(name, s)
    r = arrange([q * s["rMax"] for q in x], layout)
    keep = r.copy()
    v, z = p.velocity(r), p.vorticity(r)
    return v, z, bool((r == keep).all())


def do_field(name, s, x, lam, vfm, theta, layout):
    from wind import windmodels as wm
    p = build(name, s)
    r = arrange([q * s["rMax"] for q in x], layout)
    la = arrange([math.radians(q) for q in lam], layout)
    k1, k2 = r.copy(), la.copy()
    u, v = wm.field("kepert")(p).field(r, la, vfm, math.radians(theta))
    return u, v, bool((r == k1).all() and (la == k2).all())


def do_pressure(s, x, layout, model):
    from PressureInterface.pressureProfile import PrsProfile
    r = arrange([q * s["rMax"] / 1000 for q in x], layout)
    keep = r.copy()
    p = PrsProfile(r, s["eP"], s["cP"], s["rMax"] / 1000, s["lat"], 150.0, s["beta"])
    out = p.holland(s["beta"]) if model == "beta" else getattr(p, model)()
    return out, bool((r == keep).all())


def do_grid(c):
    from Utilities import maputils
    kw = {k: c[k] for k in ("minLon", "maxLon", "minLat", "maxLat") if c[k] is not None}
    return maputils.makeGrid(c["lon"], c["lat"], c["margin"], c["res"], **kw)


def do_akima(x, y, xi, layout):
    from Utilities import akima
    a, b, c = (arrange(q, layout) for q in (x, y, xi))
    k = [q.copy() for q in (a, b, c)]
    out = akima.interpolate(a, b, c)
    return out, all(bool((p == q).all()) for p, q in zip(k, (a, b, c)))


_remotes = {}


def both(func, *args):
    """The result here (Python) and in the compiled variant."""
    if func.__name__ not in _remotes:
        _remotes[func.__name__] = remote("compiled", func)
    there = _remotes[func.__name__](*args)
    return func(*args), there


@st.composite
def profile_cases(draw):
    return {"name": draw(st.sampled_from(["holland", "powell", "willoughby", "schloemer"])),
            "storm": draw(storm()), "x": draw(radii(lo=1, hi=24)),
            "layout": draw(st.sampled_from(LAYOUTS))}


@prop.facet(profile_cases, quick=500, rule="radii on both sides of rMax")
def profiles(case, ctx):
    """Velocity and vorticity of the Holland family."""
    import numpy as np
    a, b = both(do_profile, case["name"], case["storm"], case["x"], case["layout"])
    check(a[2] and b[2], "radii were modified")
    vs, zs = np.abs(a[0]).max(), np.abs(a[1]).max()
    close(b[0], a[0], "compiled velocity", rtol=1e-7, atol=1e-9 * vs)
    close(b[1], a[1], "compiled vorticity", rtol=1e-7, atol=1e-9 * zs)
    x = np.array(case["x"])
    ctx.nontrivial((x < 1).any() and (x > 1).any())
    ctx.klass(case["layout"], case["name"])


@st.composite
def field_cases(draw):
    x = draw(radii(lo=1, hi=18))
    return {"name": draw(st.sampled_from(["holland", "powell", "willoughby"])),
            "storm": draw(storm()), "x": x,
            "lam": draw(st.lists(dec(-180, 360, 1), min_size=len(x), max_size=len(x))),
            "vfm": draw(edge(dec(0, 25, 1), 0.0)), "theta": draw(dec(-180, 360, 1)),
            "layout": draw(st.sampled_from(LAYOUTS))}


@prop.facet(field_cases, quick=500, rule="at least three directions, inside and outside rMax")
def fields(case, ctx):
    """Kepert surface wind."""
    import numpy as np
    a, b = both(do_field, case["name"], case["storm"], case["x"], case["lam"],
                case["vfm"], case["theta"], case["layout"])
    check(a[2] and b[2], "inputs were modified")
    s = np.nanmax(np.append(np.hypot(a[0], a[1]).ravel(), 0.0))
    # Where |gamma| = sqrt(alpha beta) the response is singular: compare away from it.
    close(b[0], a[0], "compiled east wind", rtol=1e-6, atol=1e-7 * s)
    close(b[1], a[1], "compiled north wind", rtol=1e-6, atol=1e-7 * s)
    x = np.array(case["x"])
    ctx.nontrivial(len(set(case["lam"])) >= 3 and (x < 1).any() and (x > 1).any())
    ctx.klass(case["layout"], case["name"], "south" if case["storm"]["lat"] < 0 else "north")


@st.composite
def pressure_cases(draw):
    return {"storm": draw(storm()), "x": draw(radii()),
            "layout": draw(st.sampled_from(LAYOUTS)),
            "model": draw(st.sampled_from(["holland", "beta", "powell", "schloemer",
                                           "willoughby"]))}


@prop.facet(pressure_cases, quick=250, rule="at least three distinct radii")
def pressures(case, ctx):
    """Holland pressure profile."""
    a, b = both(do_pressure, case["storm"], case["x"], case["layout"], case["model"])
    check(a[1] and b[1], "radii were modified")
    close(b[0], a[0], "compiled pressure", rtol=1e-10)
    ctx.nontrivial(len(set(case["x"])) >= 3)
    ctx.klass(case["layout"], case["model"])


@st.composite
def grid_cases(draw):
    lon = draw(edge(dec(-180, 360, 2), 0.0, 180.0, 359.9))
    lat = draw(edge(dec(-60, 60, 2), 0.0))
    c = {"lon": lon, "lat": lat, "margin": draw(st.sampled_from([0.5, 1, 2.0])),
         "res": draw(st.sampled_from([0.05, 0.1, 0.25, 0.5])),
         "minLon": None, "maxLon": None, "minLat": None, "maxLat": None}
    if draw(st.booleans()):
        c["minLon"] = round(lon - draw(dec(0, 3, 1)), 2)
        c["maxLon"] = round(lon + draw(dec(0, 3, 1)), 2)
    if draw(st.booleans()):
        c["minLat"] = round(lat - draw(dec(0, 3, 1)), 2)
        c["maxLat"] = round(lat + draw(dec(0, 3, 1)), 2)
    return c


@prop.facet(grid_cases, quick=200, rule="storm centre off the grid points")
def grids(case, ctx):
    """Distance and direction grids around a storm centre."""
    import numpy as np
    a, b = both(do_grid, case)
    check(a[0].shape == b[0].shape and a[1].shape == b[1].shape, "grid shape")
    check(b[0].flags.c_contiguous == a[0].flags.c_contiguous, "memory order")
    close(b[0], a[0], "compiled distance", rtol=1e-7, atol=1e-6)
    far = a[0] > 1e-3
    d = np.exp(1j * a[1][far]) - np.exp(1j * b[1][far])
    check((abs(d) < 1e-6).all(), "compiled direction differs")
    check((abs(a[1] - b[1])[far] < 1e-6).mean() > 0.9, "compiled direction in another turn")
    ctx.nontrivial(bool(far.all()))


@st.composite
def akima_cases(draw):
    n = draw(edge(st.integers(3, 14), 3, 4))
    gaps = draw(st.lists(st.one_of(st.sampled_from([1.0, 3.0, 6.0]), dec(0.1, 12, 1)),
                         min_size=n - 1, max_size=n - 1))
    x = [draw(st.sampled_from([0.0, 12.0, -5.0]))]
    for g in gaps:
        x.append(round(x[-1] + g, 3))
    y = draw(st.one_of(
        st.lists(st.integers(-4, 4).map(float), min_size=n, max_size=n),
        st.lists(dec(-60, 180, 1), min_size=n, max_size=n)))
    xi = draw(st.lists(st.one_of(st.sampled_from(x), dec(0, 1, 3).map(
        lambda u: x[0] + u * (x[-1] - x[0]))), min_size=1, max_size=20))
    return {"x": x, "y": y, "xi": sorted(min(max(q, x[0]), x[-1]) for q in xi),
            "layout": draw(st.sampled_from(["1d", "strided", "flip"]))}


@prop.facet(akima_cases, quick=400, rule="at least four points that are not on one line")
def akima(case, ctx):
    """Akima interpolation."""
    import numpy as np
    a, b = both(do_akima, case["x"], case["y"], case["xi"], case["layout"])
    check(a[1] and b[1], "inputs were modified")
    s = 1 + np.abs(case["y"]).max()
    close(b[0], a[0], "compiled interpolation", rtol=1e-7, atol=1e-7 * s)
    m = np.diff(case["y"]) / np.diff(case["x"])
    ctx.nontrivial(len(case["x"]) >= 4 and np.ptp(m) > 1e-9)
    ctx.klass("corner" if len(m) >= 4 and any(
        m[i] == m[i + 1] != m[i + 2] == m[i + 3] for i in range(len(m) - 3)) else "plain")
