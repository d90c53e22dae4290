"""An event's wind swath is the pointwise envelope of its time steps."""
import math
import os
import random

from hypothesis import strategies as st

from vf import Property, Violation, check, close, scratch
from vf.gen import dec, edge
from vf import tracks as tk

TECHNIQUE = ("property-based testing: independent placement and envelope model, "
             "metamorphic relations over steps, regions and events")
NOTE = ("random tracks, regions, resolutions, margins and model choices; the wind and "
        "pressure at a point come from the model classes, placement and envelope from "
        "the reference")

prop = Property("C01", preload=("numpy", "wind"), assumptions=[
    "positions, limits, margin and resolution are whole numbers of millidegrees",
    "region limits on multiples of 0.25 degrees; latitudes 3-40 degrees",
    "central pressure below environmental pressure for the Willoughby profile"])

PROFILES = ["holland", "powell", "willoughby", "schloemer"]
FIELDS = ["kepert", "hubbert", "mcconochie"]
RADIUS = 6367.0


def region(draw, aligned_to=None):
    south = draw(st.booleans())
    x0 = draw(edge(dec(-178, 340, 0), 0.0, -1.0, 110.0, -2.0, 179.0))
    w = draw(st.sampled_from([0.5, 0.75, 1.0, 2.0, 1.25]))
    h = draw(st.sampled_from([0.5, 0.75, 1.0, 1.5]))
    y0 = draw(dec(4, 36, 0))
    x0 += draw(st.sampled_from([0, 0.25, 0.5]))
    y0 += draw(st.sampled_from([0, 0.25]))
    if south:
        return {"xMin": x0, "xMax": x0 + w, "yMin": -y0 - h, "yMax": -y0}
    return {"xMin": x0, "xMax": x0 + w, "yMin": y0, "yMax": y0 + h}


@st.composite
def settings(draw):
    return {"res": draw(st.sampled_from([0.05, 0.1, 0.15, 0.25, 0.2, 0.125, 0.3, 0.07])),
            "margin": draw(st.sampled_from([0.5, 1.0, 0.7, 1.25])),
            "profile": draw(st.sampled_from(PROFILES)),
            "field": draw(st.sampled_from(FIELDS)),
            "beta": draw(dec(1.0, 1.9, 2)),
            "thetaMax": draw(st.sampled_from([70.0, 0.0, 115.0, -30.0]))}


def coordinate(lo, hi, res):
    """Anywhere, on a limit, or on a grid node of the region."""
    nodes = st.integers(0, int((hi - lo) / res)).map(lambda k: round(lo + k * res, 3))
    return st.one_of(dec(lo - 0.6, hi + 0.6, 2), dec(lo, hi, 3), nodes,
                     st.sampled_from([lo, hi, round(lo + 0.25, 2)]))


@st.composite
def step(draw, lim, res=0.1):
    x = draw(coordinate(lim["xMin"], lim["xMax"], res))
    y = draw(coordinate(lim["yMin"], lim["yMax"], res))
    ep = draw(dec(1000, 1014, 1))
    dp = draw(edge(dec(3, 90, 1), 0.0, -2.0, 30.0, 60.0))
    return {"lon": round(x, 3), "lat": round(y, 3), "ep": ep, "cp": round(ep - dp, 1),
            "rm": draw(dec(10, 80, 1)), "sp": draw(edge(dec(0, 60, 1), 0.0, 85.0, 110.0)),
            "be": draw(edge(dec(0, 359.9, 1), 0.0, 90.0, 270.0, 360.0))}


def willoughby(profile, points):
    """The Willoughby pressure profile rejects a filled storm."""
    if profile == "willoughby":
        for p in points:
            p["cp"] = min(p["cp"], p["ep"] - 1.0)


@st.composite
def cases(draw, n=(1, 5)):
    lim = region(draw)
    c = draw(settings())
    c["lim"] = lim
    c["points"] = draw(st.lists(step(lim, c["res"]), min_size=n[0], max_size=n[1]))
    c["ftype"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    c["domain"] = draw(st.sampled_from(["bounded", "bounded", "full"]))
    willoughby(c["profile"], c["points"])
    return c


def milli(x):
    return int(math.floor(1000.0 * float(x) + 0.5))


def axis(lo, hi, margin, res):
    """Millidegree nodes from lo-margin up to and just past hi+margin."""
    a, b, g = milli(lo) - milli(margin), milli(hi) + milli(margin), milli(res)
    out = [a]
    while out[-1] < b:
        out.append(out[-1] + g)
    return out


def run(c, points=None, lim=None, domain=None, gen=False, trackfile=None):
    import wind
    t = tk.make(c["points"] if points is None else points, ftype=c["ftype"],
                trackfile=trackfile)
    lim = dict(lim or c["lim"])
    w = wind.WindfieldAroundTrack(
        t, profileType=c["profile"], windFieldType=c["field"], beta=c["beta"],
        thetaMax=c["thetaMax"], margin=c["margin"], resolution=c["res"],
        gridLimit=lim, domain=domain or c["domain"])
    return w.regionalExtremes(lim)


def inside(p, lim):
    return lim["xMin"] <= p["lon"] <= lim["xMax"] and lim["yMin"] <= p["lat"] <= lim["yMax"]


def field_at(c, p, lon, lat):
    """Gust components and pressure of one step on the mesh lon x lat (degrees)."""
    import numpy as np
    from wind import windmodels as wm
    from PressureInterface.pressureProfile import PrsProfile
    f = np.float32 if c["ftype"] == "f4" else np.float64
    plon, plat = float(f(p["lon"])), float(f(p["lat"]))
    x, y = np.meshgrid(np.radians(lon), np.radians(lat))
    x0, y0 = math.radians(plon), math.radians(plat)
    a = (np.sin((y - y0) / 2) ** 2 +
         np.cos(y) * math.cos(y0) * np.sin((x - x0) / 2) ** 2)
    r = 2 * RADIUS * np.arcsin(np.sqrt(a))
    r[r == 0] = 1e-30
    lam = np.pi / 2 - np.arctan2(
        np.sin(x - x0) * np.cos(y),
        math.cos(y0) * np.sin(y) - math.sin(y0) * np.cos(y) * np.cos(x - x0))
    ep, cp, rm = (float(f(p[k])) for k in ("ep", "cp", "rm"))
    prs = PrsProfile(r, ep * 100, cp * 100, rm, plat, plon, c["beta"])
    pressure = getattr(prs, c["profile"])()
    if cp >= ep:
        return np.zeros_like(r), np.zeros_like(r), pressure, r
    cls = wm.profile(c["profile"])
    args = [c["beta"]] if c["profile"] == "holland" else []
    profile = cls(plat, plon, ep * 100, cp * 100, rm * 1000, *args)
    u, v = wm.field(c["field"])(profile).field(
        r * 1000, lam, float(f(p["sp"])) / 3.6,
        (math.pi / 2 - math.radians(float(f(p["be"])))) % (2 * math.pi), c["thetaMax"])
    return 1.35 * u, 1.35 * v, pressure, r


def model(c, points, lim, domain):
    """Per step (rows, columns, u, v, pressure, r) on the regional grid."""
    import numpy as np
    ax, ay = (axis(lim[a], lim[b], c["margin"], c["res"])
              for a, b in (("xMin", "xMax"), ("yMin", "yMax")))
    g, m = milli(c["res"]), milli(c["margin"])
    out = []
    for p in points:
        if not inside(p, lim):
            continue
        if domain == "full":
            lon = list(range(ax[0], milli(lim["xMax"]) + m + 1, g))
            lat = list(range(ay[0], milli(lim["yMax"]) + m + 1, g))
            i0 = j0 = 0
        else:
            x, y = milli(p["lon"]), milli(p["lat"])
            lon = list(range(x - m, x + m + 1, g))
            lat = list(range(y - m, y + m + 1, g))
            i0 = (x - m - ax[0]) // g
            j0 = (y - m - ay[0]) // g
        u, v, prs, r = field_at(c, p, np.array(lon) / 1000.0, np.array(lat) / 1000.0)
        out.append((slice(j0, j0 + len(lat)), slice(i0, i0 + len(lon)), u, v, prs, r))
    return ax, ay, out


def compare(c, res, points, lim, domain, ctx=None):
    import numpy as np
    gust, bearing, uu, vv, prs, lon, lat = res
    ax, ay, steps = model(c, points, lim, domain)
    close(lon, [a / 1000.0 for a in ax], "longitude axis", atol=1e-9)
    close(lat, [a / 1000.0 for a in ay], "latitude axis", atol=1e-9)
    shape = (len(ay), len(ax))
    for n, a in (("gust", gust), ("bearing", bearing), ("ua", uu), ("va", vv), ("slp", prs)):
        check(np.shape(a) == shape, "%s has shape %s, region is %s" % (n, np.shape(a), shape))
    f = np.float32 if c["ftype"] == "f4" else np.float64
    best = np.zeros(shape)
    low = np.full(shape, 100.0 * float(f(points[0]["ep"]))) if points else None
    loose = np.zeros(shape, bool)
    for j, i, u, v, p, r in steps:
        best[j, i] = np.maximum(best[j, i], np.hypot(u, v))
        if low is not None:
            low[j, i] = np.minimum(low[j, i], p)
        loose[j, i] |= r < 2.0      # the wind turns over within a few hundred metres
    ok = ~loose
    tol = 0.02 + 1e-3 * best
    bad = ok & (np.abs(gust - best) > tol)
    check(not bad.any(), lambda: "gust at %s is %.3f, largest step gives %.3f" % (
        tuple(np.argwhere(bad)[0]), gust[bad][0], best[bad][0]))
    bad = ok & (np.abs(prs - low) > 3.0)
    check(not bad.any(), lambda: "pressure at %s is %.1f, lowest step gives %.1f" % (
        tuple(np.argwhere(bad)[0]), prs[bad][0], low[bad][0]))
    bad = np.abs(np.hypot(uu, vv) - gust) > 0.01 + 1e-4 * gust
    check(not bad.any(), lambda: "components at %s do not have the gust's size" % (
        tuple(np.argwhere(bad)[0]),))
    strong = gust > 0.5
    d = (bearing - np.degrees(np.arctan2(-uu, -vv)) + 180) % 360 - 180
    check(not (strong & (np.abs(d) > 0.1)).any(), "bearing is not that of the components")
    match = ~(ok & strong)
    for j, i, u, v, p, r in steps:
        near = np.hypot(uu[j, i] - u, vv[j, i] - v) <= 0.05 + 4e-3 * np.hypot(u, v)
        match[j, i] |= near & (np.hypot(u, v) >= best[j, i] - 2 * tol[j, i])
    check(match.all(), lambda: "components at %s belong to no step with the largest gust"
          % (tuple(np.argwhere(~match)[0]),))
    if ctx is not None:
        ctx.nontrivial(len(steps) >= 2 and best.max() > 5)
        ctx.klass(domain, c["field"], c["profile"], "west" if lim["xMin"] < 0 else "east",
                  "nh" if lim["yMin"] > 0 else "sh", c["ftype"],
                  "some steps outside" if len(steps) < len(points) else "all inside")


@prop.facet(cases, quick=700, rule="at least two steps inside the region and a gust above 5 m/s")
def swath(c, ctx):
    compare(c, run(c), c["points"], c["lim"], c["domain"], ctx)


@st.composite
def long_cases(draw):
    c = draw(cases(n=(2, 2)))
    c["res"], c["margin"] = draw(st.sampled_from([(0.25, 1.0), (0.5, 2.0), (0.3, 1.25)]))
    n = draw(st.integers(20, 110))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    a, lim = c["points"][0], c["lim"]
    c["points"] = pts = []
    for k in range(n):
        x = lim["xMin"] - 0.3 + (lim["xMax"] - lim["xMin"] + 0.6) * k / (n - 1)
        y = rng.uniform(lim["yMin"], lim["yMax"])
        ep = round(a["ep"] + rng.choice([0, 0.5, -1.5]), 1)
        pts.append({"lon": round(x, 3), "lat": round(y, 3), "ep": ep,
                    "cp": round(ep - rng.uniform(2, 80), 1), "rm": round(rng.uniform(10, 80), 1),
                    "sp": round(rng.uniform(0, 70), 1), "be": round(rng.uniform(0, 359), 1)})
    return c


@prop.facet(long_cases, quick=40, rule="at least two steps inside the region and a gust above 5 m/s")
def long_tracks(c, ctx):
    compare(c, run(c), c["points"], c["lim"], c["domain"], ctx)


@st.composite
def relation_cases(draw):
    c = draw(cases(n=(2, 5)))
    c["order"] = draw(st.permutations(list(range(1, len(c["points"])))))
    c["cut"] = draw(st.integers(1, len(c["points"]) - 1))
    c["grow"] = [draw(st.integers(0, 3)) for _ in range(4)]
    return c


@prop.facet(relation_cases, quick=120, rule="at least two steps inside the region")
def relations(c, ctx):
    """Order, repetition and splitting of the steps do not change the envelope."""
    import numpy as np
    ctx.nontrivial(sum(inside(p, c["lim"]) for p in c["points"]) >= 2)
    pts = [dict(p, ep=c["points"][0]["ep"]) for p in c["points"]]
    willoughby(c["profile"], pts)
    base = run(c, pts)
    perm = [pts[0]] + [pts[k] for k in c["order"]]
    other = run(c, perm + [perm[-1]])
    for k, n in ((0, "gust"), (4, "pressure")):
        close(other[k], base[k], "%s after reordering and repeating steps" % n,
              rtol=1e-6, atol=1e-6)
    a, b = run(c, pts[:c["cut"]]), run(c, pts[c["cut"]:])
    close(np.maximum(a[0], b[0]), base[0], "gust of the parts", rtol=1e-6, atol=1e-6)
    close(np.minimum(a[4], b[4]), base[4], "pressure of the parts", rtol=1e-6)


@prop.facet(relation_cases, quick=120, rule="a larger region with all steps in the smaller one")
def extent(c, ctx):
    """A region grown by whole cells gives the same values in the old part."""
    import numpy as np
    pts = [p for p in c["points"] if inside(p, c["lim"])]
    if not pts:
        return
    g = milli(c["res"])
    k = c["grow"]
    lim = {"xMin": (milli(c["lim"]["xMin"]) - k[0] * g) / 1000.0,
           "xMax": (milli(c["lim"]["xMax"]) + k[1] * g) / 1000.0,
           "yMin": (milli(c["lim"]["yMin"]) - k[2] * g) / 1000.0,
           "yMax": (milli(c["lim"]["yMax"]) + k[3] * g) / 1000.0}
    ctx.nontrivial(any(k))
    small = run(c, pts, domain="bounded")
    big = run(c, pts, lim=lim, domain="bounded")
    n, m = small[0].shape
    for q, name in enumerate(("gust", "bearing", "ua", "va", "slp")):
        close(big[q][k[2]:k[2] + n, k[0]:k[0] + m], small[q],
              "%s after growing the region by %s cells" % (name, k), rtol=1e-6, atol=1e-6)


@st.composite
def event_cases(draw):
    c = draw(cases(n=(1, 3)))
    c["events"] = [c["points"]] + [
        draw(st.lists(step(c["lim"]), min_size=1, max_size=3))
        for _ in range(draw(st.integers(1, 2)))]
    for e in c["events"]:
        willoughby(c["profile"], e)
    return c


@prop.facet(event_cases, quick=60, rule="at least two events with steps in the region")
def events(c, ctx):
    """The combination over the events of a file follows the same rule."""
    import numpy as np
    import wind
    from Utilities.track import ncSaveTracks
    from Utilities.config import ConfigParser, reset
    reset()
    path = os.path.join(scratch(), "tracks.00001.nc")
    ncSaveTracks(path, [tk.make(e, tid=(1, k + 1), ftype=c["ftype"])
                        for k, e in enumerate(c["events"])])
    gen = wind.WindfieldGenerator(
        ConfigParser(), margin=c["margin"], resolution=c["res"], profileType=c["profile"],
        windFieldType=c["field"], beta=c["beta"], thetaMax=c["thetaMax"],
        gridLimit=dict(c["lim"]), domain=c["domain"])
    got = gen.calculateExtremesFromTrackfile(path)
    parts = [run(c, e) for e in c["events"]]
    ctx.nontrivial(sum(p[0].max() > 1 for p in parts) >= 2)
    for k in (5, 6):
        close(got[k], parts[0][k], "axis", atol=1e-9)
    close(got[0], np.max([p[0] for p in parts], axis=0), "gust over the events",
          rtol=2e-4, atol=0.02)
    close(got[4], np.min([p[4] for p in parts], axis=0), "pressure over the events",
          rtol=1e-4)
    d = np.abs(np.hypot(got[2], got[3]) - got[0])
    check((d <= 0.01 + 1e-4 * got[0]).all(), "components do not have the gust's size")
    ang = (got[1] - np.degrees(np.arctan2(-got[2], -got[3])) + 180) % 360 - 180
    check(not ((got[0] > 0.5) & (np.abs(ang) > 0.1)).any(),
          "bearing is not that of the components")


@st.composite
def lone_cases(draw):
    c = draw(cases(n=(1, 4)))
    c["profile"] = draw(st.sampled_from(["jelesnianski", "doubleHolland"]))
    for p in c["points"]:
        p["cp"] = round(p["ep"] - 40, 1)
    c["points"][0]["lon"] = c["lim"]["xMin"]
    c["points"][0]["lat"] = c["lim"]["yMin"]
    return c


@prop.facet(lone_cases, quick=12, thorough=30, rule="a documented profile other than Holland's family")
def documented_profiles(c, ctx):
    """Every profile named in the manual can be used for a swath."""
    ctx.nontrivial()
    try:
        run(c)
    except (KeyError, UnboundLocalError) as err:
        raise Violation("profileType = %s cannot be used: %r" % (c["profile"], err),
                        finding="profile-unusable-" + c["profile"])
