"""Distances, bearings and positions on the globe agree with each other."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import Property, check, Violation
from vf.gen import dec, edge

TECHNIQUE = ("generated points, steps and grids compared with three-dimensional "
             "vector geometry written independently, and under swapping, shifting "
             "and mirroring")
NOTE = ("latitudes within 70 degrees and separations below 160 degrees; the flat "
        "step approximation of tracks is compared for steps below 300 km")

prop = Property("C25", extensions=["Utilities._maputils"], assumptions=[
    "points away from the poles and from antipodes",
    "grid centres, margins and resolutions are whole millidegrees"])

R = 6367.0


def vec(lon, lat):
    lo, la = math.radians(lon), math.radians(lat)
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def gc(lon1, lat1, lon2, lat2):
    a, b = vec(lon1, lat1), vec(lon2, lat2)
    return R * math.atan2(np.linalg.norm(np.cross(a, b)), float(a @ b))


def bear(lon1, lat1, lon2, lat2):
    """Initial bearing in radians from local east and north components."""
    lo, la = math.radians(lon1), math.radians(lat1)
    east = np.array([-math.sin(lo), math.cos(lo), 0])
    north = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    d = vec(lon2, lat2)
    return math.atan2(float(d @ east), float(d @ north))


def angle(a, b):
    """Difference of two angles in radians, -pi to pi."""
    return (a - b + math.pi) % (2 * math.pi) - math.pi


lons = lambda: edge(dec(-180, 360, 2), 0.0, 180.0, -180.0, 360.0, 179.99, 359.99)
lats = lambda: edge(dec(-70, 70, 2), 0.0, -20.0, 15.0)


@st.composite
def pairs(draw):
    lon, lat = draw(lons()), draw(lats())
    mode = draw(st.sampled_from(["any", "near", "near", "same"]))
    if mode == "any":
        lon2, lat2 = lon + draw(dec(-150, 150, 2)), draw(lats())
    elif mode == "near":
        lon2 = lon + draw(dec(-3, 3, 3))
        lat2 = max(-70, min(70, lat + draw(dec(-3, 3, 3))))
    else:
        lon2, lat2 = lon, lat
    lon2 += draw(st.sampled_from([0, 0, 360, -360]))
    return {"a": [lon, lat], "b": [lon2, lat2], "shift": draw(dec(-360, 360, 1)), "mode": mode}


@prop.facet(pairs, quick=4000, thorough=60000,
            rule="two points; non-trivial when they differ")
def point_pairs(d, ctx):
    from Utilities import maputils as m
    (lon1, lat1), (lon2, lat2) = d["a"], d["b"]
    want = gc(lon1, lat1, lon2, lat2)
    if want > R * math.radians(160):
        return
    ctx.nontrivial(d["mode"] != "same")
    ctx.klass(d["mode"])
    if lat1 * lat2 < 0:
        ctx.klass("across the equator")
    if abs(lon1 - lon2) > 180:
        ctx.klass("longitudes a turn apart")
    slack = 2e-4 + 1e-9 * want
    one = m.distGC([lat1, lat2], [lon1, lon2])
    two = m.distGC([lat2, lat1], [lon2, lon1])
    check(abs(one - want) <= slack, "distGC gives %r km, the great circle is %r km" % (one, want))
    check(abs(one - two) <= 1e-6, "distGC is not symmetric")
    g = float(m.gridLatLonDist(lon1, lat1, [lon2], [lat2])[0, 0])
    h = float(m.gridLatLonDist(lon2, lat2, [lon1], [lat1])[0, 0])
    check(abs(g - want) <= 1e-6 + 1e-9 * want, "gridLatLonDist gives %r km, the great circle "
          "is %r km" % (g, want))
    check(abs(g - h) <= 1e-6, "gridLatLonDist is not symmetric")
    for units, factor in (("km", 1.0), ("m", 1000.0), ("nm", 1 / 1.852), ("rad", None), ("deg", None)):
        u = float(m.gridLatLonDist(lon1, lat1, [lon2], [lat2], units)[0, 0])
        w = g * factor if factor else g / R * (180 / math.pi if units == "deg" else 1)
        check(abs(u - w) <= 1e-9 + 5e-4 * w, "%r km are given as %r %s" % (g, u, units))
    sh = d["shift"]
    s = float(m.gridLatLonDist(lon1 + sh, lat1, [lon2 + sh], [lat2])[0, 0])
    check(abs(s - g) <= 1e-6 + 1e-9 * g, "moving both points east by %r changes their distance" % sh)
    if d["mode"] == "same":
        check(g <= 1e-5 and one <= 2e-4, "distance from a point to itself is %r, %r" % (g, one))
        return
    if want < 1e-3:
        return
    check(g > 0, "distance between different points is zero")
    b = float(m.gridLatLonBear(lon1, lat1, [lon2], [lat2])[0, 0])
    wb = bear(lon1, lat1, lon2, lat2)
    tol = 1e-7 + 1e-9 / max(1e-6, want / R)
    check(abs(angle(b, wb)) <= tol, "bearing is %r, geometry gives %r" % (b, wb))
    s = float(m.gridLatLonBear(lon1 + sh, lat1, [lon2 + sh], [lat2])[0, 0])
    check(abs(angle(s, b)) <= tol, "moving both points east changes the bearing")
    lo, la = m.bear2LatLon(math.degrees(b), g, lon1, lat1)
    off = gc(lo, la, lon2, lat2)
    check(off <= 1e-4 + 1e-7 * want, "travelling %r km towards %r degrees ends %r km from the "
          "second point" % (g, math.degrees(b), off))


@st.composite
def travels(draw):
    return {"lon": draw(lons()), "lat": draw(lats()),
            "bearing": draw(edge(dec(0, 360, 1), 0.0, 90.0, 180.0, 270.0, 360.0)),
            "dist": draw(edge(dec(1.5, 2000, 2), 0.0, 1.0))}


@prop.facet(travels, quick=2000, thorough=40000,
            rule="a point, a bearing and a distance; non-trivial when the distance is "
                 "more than 1 km")
def travel(d, ctx):
    from Utilities import maputils as m
    lo, la = m.bear2LatLon(d["bearing"], d["dist"], d["lon"], d["lat"])
    ctx.nontrivial(d["dist"] > 1)
    got = gc(d["lon"], d["lat"], lo, la)
    check(abs(got - d["dist"]) <= 1e-4 + 1e-7 * d["dist"],
          "travelling %r km ends %r km away" % (d["dist"], got))
    if abs(la) > 85:
        return
    if d["dist"] > 0.1:
        b = bear(d["lon"], d["lat"], lo, la)
        check(abs(angle(b, math.radians(d["bearing"]))) <= 1e-5,
              "travelling towards %r degrees leads towards %r" % (d["bearing"], math.degrees(b)))
        # The way back.
        back = math.degrees(bear(lo, la, d["lon"], d["lat"]))
        lo2, la2 = m.bear2LatLon(back, d["dist"], lo, la)
        check(gc(lo2, la2, d["lon"], d["lat"]) <= 1e-3, "the way back misses the start")
    check(abs(lo - d["lon"]) <= 180, "longitude jumps by a turn")


@st.composite
def paths(draw):
    lon, lat = draw(lons()), draw(edge(dec(-55, 55, 2), 0.0))
    pts = [[lon, lat]]
    for _ in range(draw(st.integers(1, 12))):
        lon = lon + draw(dec(-2, 2, 2))
        lat = max(-57, min(57, lat + draw(dec(-2, 2, 2))))
        pts.append([lon, lat])
    return {"path": pts, "wrap": draw(st.sampled_from(["none", "0-360", "-180-180"])),
            "ieast": draw(st.sampled_from([1, 1, -1])),
            "azimuth": draw(st.sampled_from([0, 0, 0, 30.0, 200.0])),
            "shift": draw(dec(-360, 360, 1))}


@prop.facet(paths, quick=1200, thorough=25000,
            rule="a track of positions; non-trivial when it has at least three positions")
def track_steps(d, ctx):
    from Utilities import maputils as m
    lon = np.array([p[0] for p in d["path"]])
    lat = np.array([p[1] for p in d["path"]])
    if d["wrap"] == "0-360":
        lon = lon % 360
    elif d["wrap"] == "-180-180":
        lon = (lon + 180) % 360 - 180
    ctx.nontrivial(len(lon) > 2)
    ctx.klass("longitudes " + d["wrap"])
    if (np.abs(np.diff(lon)) > 180).any():
        ctx.klass("crosses the wrap")
    b, r = m.latLon2Azi(lat, lon)
    yn, xe = m.latLon2XY(0, 0, lat, lon)
    check(len(b) == len(r) == len(lon) - 1, "number of steps")
    for i in range(len(lon) - 1):
        want = gc(lon[i], lat[i], lon[i + 1], lat[i + 1])
        check(abs(r[i] - want) <= 0.06 * want + 1e-6, "step %d is %r km long, the great circle "
              "is %r km" % (i, r[i], want))
        check(abs(math.hypot(yn[i], xe[i]) - r[i]) <= 1e-6, "step length and components differ")
        north = lat[i + 1] - lat[i]
        check(abs(yn[i] - R * math.radians(north)) <= 1e-6, "northward component")
        if want > 1:
            wb = bear(lon[i], lat[i], lon[i + 1], lat[i + 1])
            check(abs(angle(math.radians(float(b[i])), wb)) <= 0.08,
                  "step %d heads to %r degrees, the great circle to %r" % (i, float(b[i]),
                                                                          math.degrees(wb) % 360))
            check(0 <= b[i] <= 360, "bearing %r" % float(b[i]))
    rad, r2 = m.latLon2Azi(lat, lon, wantdeg=False)
    for i in range(len(lon) - 1):
        if r[i] > 1e-6:
            check(abs(angle(float(rad[i]), math.radians(float(b[i])))) <= 1e-5,
                  "bearings in radians and degrees differ")
    b3, r3 = m.latLon2Azi(lat, lon + d["shift"])
    check(np.abs(r3 - r).max() <= 1e-6, "moving the track east changes its steps")
    # Longitudes that increase westward, and a turned frame.
    bm, rm = m.latLon2Azi(lat, -lon, -1)
    check(np.abs(rm - r).max() <= 1e-6, "westward longitudes change the steps")
    bz, rz = m.latLon2Azi(lat, lon, 1, d["azimuth"])
    check(np.abs(rz - r).max() <= 1e-6, "turning the frame changes the steps")
    for i in range(len(lon) - 1):
        if r[i] > 1e-3:
            check(abs(angle(math.radians(float(bm[i])), math.radians(float(b[i])))) <= 1e-4,
                  "westward longitudes change the bearing")
            check(abs(angle(math.radians(float(bz[i]) + d["azimuth"]),
                            math.radians(float(b[i])))) <= 1e-4,
                  "bearing in a frame turned by %r" % d["azimuth"])


@st.composite
def frames(draw):
    mil = lambda lo, hi: st.integers(int(lo * 1000), int(hi * 1000)).map(lambda i: i / 1000.0)
    return {"lon": draw(st.one_of(mil(-180, 360), st.sampled_from([0.0, 180.0, 116.29, 0.001]))),
            "lat": draw(st.one_of(mil(-60, 60), st.sampled_from([0.0, -0.001, -20.11]))),
            "margin": draw(st.sampled_from([0.1, 0.29, 0.5, 1.0, 0.57])),
            "res": draw(st.sampled_from([0.02, 0.03, 0.05, 0.1, 0.057, 0.29])),
            "w": draw(st.integers(0, 40)) / 20.0, "h": draw(st.integers(0, 30)) / 20.0,
            "off": draw(st.sampled_from([[0, 0], [0, 0], [3, 0], [0, 3], [-3, -3], [2, 4]]))}


def axis(lo, hi, margin, res):
    """Grid points in whole millidegrees."""
    k = lambda v: int(round(v * 1000))
    return [i / 1000.0 for i in range(k(lo) - k(margin), k(hi) + k(margin) + 1, k(res))]


@prop.facet(frames, quick=600, thorough=8000, variant=["pure", "compiled"],
            rule="a grid around a point or over a domain; non-trivial when it has at "
                 "least 9 points")
def grids(d, ctx):
    from Utilities import maputils as m
    lon, lat, mar, res = d["lon"], d["lat"], d["margin"], d["res"]
    box = (lon - d["w"], lon + d["w"] / 2, lat - d["h"], lat + d["h"] / 2)
    # the domain may lie beside the point
    box = tuple(round(v + d["off"][k // 2], 3) for k, v in enumerate(box))
    for what, (w, e, s, n) in (("around a point", (lon, lon, lat, lat)), ("over a domain", box)):
        xs, ys = axis(w, e, mar, res), axis(s, n, mar, res)
        ctx.nontrivial(len(xs) * len(ys) >= 9)
        if what == "around a point":
            dist, theta = m.makeGrid(lon, lat, mar, res)
            x, y = m.meshLatLon(lon, lat, mar, res)
        else:
            dist, theta = m.makeGrid(lon, lat, mar, res, w, e, s, n)
            dist2, theta2 = m.makeGridDomain(lon, lat, w, e, s, n, mar, res)
            x, y = m.meshLatLonDomain(w, e, s, n, mar, res)
            check(dist2.shape == dist.shape and np.abs(dist2 - dist).max() <= 1e-4,
                  "grids over a domain differ")
            check(np.abs(np.sin((theta2 - theta) / 2) * dist).max() <= 1e-3,
                  "directions over a domain differ")
        shape = (len(ys), len(xs))
        for name, a in (("distance", dist), ("direction", theta), ("longitude", x), ("latitude", y)):
            check(a.shape == shape, "%s grid %s has shape %s, the points are %s" %
                  (name, what, a.shape, shape))
        check(np.abs(x - np.array(xs)[None, :]).max() < 1e-6 and
              np.abs(y - np.array(ys)[:, None]).max() < 1e-6, "mesh %s is off its points" % what)
        for j in {0, len(ys) // 2, len(ys) - 1}:
            for i in {0, len(xs) // 2, len(xs) - 1}:
                want = gc(lon, lat, xs[i], ys[j])
                check(abs(dist[j, i] - want) <= 2e-4 + 1e-6 * want, "distance %s at (%r, %r) is %r, "
                      "the great circle is %r" % (what, xs[i], ys[j], float(dist[j, i]), want))
                if want > 0.5:
                    wb = bear(lon, lat, xs[i], ys[j])
                    check(abs(angle(math.pi / 2 - theta[j, i], wb)) <= 1e-4,
                          "direction %s at (%r, %r) is %r, geometry gives %r" %
                          (what, xs[i], ys[j], math.pi / 2 - float(theta[j, i]), wb))
        check((dist > 0).all(), "a grid point has no positive distance")


@st.composite
def crosses(draw):
    lon, lat = draw(lons()), draw(edge(dec(-50, 50, 1), 0.0))
    return {"a": [lon, lat], "b": [lon + draw(dec(-20, 20, 1)), max(-60, min(60, lat + draw(dec(-10, 10, 1))))],
            "x": [lon + v for v in draw(st.lists(dec(-10, 10, 1), min_size=1, max_size=4))],
            "y": draw(st.lists(dec(-60, 60, 1), min_size=1, max_size=4))}


@prop.facet(crosses, quick=600, thorough=12000,
            rule="a great circle and points; non-trivial when its two points are apart")
def cross_track(d, ctx):
    from Utilities import maputils as m
    (lon1, lat1), (lon2, lat2) = d["a"], d["b"]
    if gc(lon1, lat1, lon2, lat2) < 5:
        return
    ctx.nontrivial(True)
    pole = np.cross(vec(lon1, lat1), vec(lon2, lat2))
    pole /= np.linalg.norm(pole)
    for units, factor, tol in (("km", R, 5e-4), ("rad", 1.0, 5e-4), ("nm", 10800 / math.pi, 5e-4)):
        got = m.dist2GC(lon1, lat1, lon2, lat2, d["x"], d["y"], units)
        check(got.shape == (len(d["y"]), len(d["x"])), "shape of the distances")
        for j, y in enumerate(d["y"]):
            for i, x in enumerate(d["x"]):
                want = -math.asin(max(-1, min(1, float(vec(x, y) @ pole)))) * factor
                check(abs(float(got[j, i]) - want) <= tol * max(abs(want), factor * 0.01),
                      "(%r, %r) is %r %s right of the great circle, geometry gives %r" %
                      (x, y, float(got[j, i]), units, want))


@prop.facet(lambda: st.lists(st.integers(-6283, 6283), min_size=1, max_size=10),
            quick=400, thorough=8000,
            rule="angles; non-trivial when there are several")
def angles(d, ctx):
    from Utilities import maputils as m
    from Utilities import metutils
    ctx.nontrivial(len(d) > 1)
    for k in d:
        a = k / 1000.0
        t = m.bearing2theta(a)
        b = m.theta2bearing(a)
        check(0 <= t <= 2 * math.pi and 0 <= b <= 2 * math.pi, "angle outside a turn")
        check(abs(angle(m.theta2bearing(t), a)) <= 1e-9, "bearing %r does not come back" % a)
        check(abs(angle(m.bearing2theta(b), a)) <= 1e-9, "angle %r does not come back" % a)
        # Unit vectors: a bearing's east and north are an angle's x and y.
        check(abs(math.sin(a) - math.cos(t)) <= 1e-9 and abs(math.cos(a) - math.sin(t)) <= 1e-9,
              "bearing %r turned into angle %r" % (a, float(t)))
        lat = k / 100.0
        if abs(lat) <= 90:
            for where in (m, metutils):
                f = where.coriolis(lat)
                check(abs(f - 4 * math.pi / 86400 * math.sin(math.radians(lat))) <= 1e-15,
                      "Coriolis factor at %r is %r" % (lat, f))
    arr = np.array(d) / 1000.0
    check(np.abs(m.bearing2theta(arr) - np.array([m.bearing2theta(v) for v in arr])).max() <= 1e-12 and
          np.abs(m.theta2bearing(arr) - np.array([m.theta2bearing(v) for v in arr])).max() <= 1e-12,
          "arrays and single angles differ")


@st.composite
def searches(draw):
    n = draw(st.integers(2, 30))
    x0, step = draw(dec(-100, 300, 1)), draw(st.sampled_from([0.05, 0.1, 0.5, 2.0]))
    a = [x0 + i * step for i in range(n)]
    if draw(st.booleans()):
        a = a[::-1]
    v = draw(st.one_of(dec(-110, 420, 2), st.sampled_from(a), *[st.integers(1, 999).map(lambda k: min(a) + k * (max(a) - min(a)) / 1000.0)] * 4,
                       st.floats(min(a) - 1, max(a) + 1, allow_nan=False)))
    return {"array": a, "value": v}


@prop.facet(searches, quick=1000, thorough=20000,
            rule="an axis and a value; non-trivial when the value lies inside the axis")
def nearest(d, ctx):
    from Utilities import maputils as m
    a, v = d["array"], d["value"]
    ctx.nontrivial(min(a) < v < max(a))
    i = int(m.find_index(np.array(a), v))
    x = float(m.find_nearest(np.array(a), v))
    if min(a) <= v <= max(a):
        best = min(abs(b - v) for b in a)
        check(0 <= i < len(a) and abs(a[i] - v) <= best + 1e-12, "index of the nearest to %r is %r" % (v, i))
        check(abs(x - v) <= best + 1e-12, "nearest to %r is %r" % (v, x))
    elif a[0] <= a[-1]:
        check(a[i] == (a[-1] if v > a[-1] else a[0]), "nearest to %r beyond the axis is %r" % (v, a[i]))


@st.composite
def utm(draw):
    return {"lat": draw(edge(dec(-79, 79, 3), 0.0, -0.001)), "lon": draw(dec(-180, 179.99, 3)),
            "ell": draw(st.integers(1, 23)), "dx": draw(dec(-0.01, 0.01, 4)), "dy": draw(dec(-0.01, 0.01, 4))}


@prop.facet(utm, quick=800, thorough=15000,
            rule="a point and an ellipsoid; non-trivial when it is not on the equator")
def utm_round_trip(d, ctx):
    from Utilities.lat_long_UTM_conversion import LLtoUTM, UTMtoLL
    lat, lon = d["lat"], d["lon"]
    ctx.nontrivial(abs(lat) > 0.01)
    z, e, n = LLtoUTM(lat, lon, d["ell"])
    check(1 <= z <= 60, "zone %r" % z)
    centre = (z - 1) * 6 - 177
    check(abs(lon - centre) <= 12, "zone %r for longitude %r" % (z, lon))
    if abs(lat) < 56:
        check(centre - 3 <= lon <= centre + 3, "zone %r for longitude %r" % (z, lon))
    la, lo = UTMtoLL(n, e, z, lat < 0, d["ell"])
    off = gc(lon, lat, lo, la) * 1000
    check(off < (1.0 if abs(lon - centre) <= 3 else 20.0),
          "converting (%r, %r) to UTM and back moves it %r m" % (lon, lat, off))
    z2, e2, n2 = LLtoUTM(lat, lon + 360, d["ell"])
    check(z2 == z and abs(e2 - e) < 1e-3 and abs(n2 - n) < 1e-3, "a turn in longitude changes UTM")
    # Lengths on the grid agree with lengths on the ground to half a percent.
    lat3 = lat + d["dy"]
    if (lat3 < 0) == (lat < 0) and abs(lon - centre) <= 3:
        _, e3, n3 = LLtoUTM(lat3, lon + d["dx"], d["ell"], z)
        g = math.hypot(e3 - e, n3 - n)
        w = gc(lon, lat, lon + d["dx"], lat3) * 1000
        check(abs(g - w) <= 0.012 * w + 0.01, "distance of %r m on the ground is %r m on the grid" % (w, g))
