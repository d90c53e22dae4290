"""Intersections of lines, circles and polygons."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import Property, check
from vf.gen import dec
from vf.geom import crossing, edge_distance, exact, inside, lean, parallel, sign

TECHNIQUE = ("generated segments, circles and simple polygons in every vertex order, compared "
             "with exact rational geometry")
NOTE = ("polygons are simple; points on an edge, segments of no length and tangents are left "
        "out of the comparison")

prop = Property("C34", assumptions=["polygons are closed and do not cross themselves",
                                    "points are not on an edge of the polygon"])


@st.composite
def rings(draw):
    kind = draw(st.sampled_from(["star", "comb", "stairs", "box"]))
    x0, y0 = draw(dec(-20, 150, 1)), draw(dec(-40, 30, 1))
    if kind == "star":
        n = draw(st.integers(3, 12))
        pts = []
        for k in range(n):
            ang = 2 * math.pi * (k + draw(dec(0, 0.4, 2))) / n
            r = draw(st.sampled_from([1.0, 2.0, 3.5, 5.0, 8.0]))
            pts.append([round(x0 + r * math.cos(ang), 2), round(y0 + r * math.sin(ang), 2)])
    elif kind == "comb":
        # Teeth of different heights on a common base.
        n = draw(st.integers(2, 4))
        pts = [[x0, y0]]
        for k in range(n):
            h = draw(st.integers(2, 6))
            pts += [[x0 + 2 * k, y0 + h], [x0 + 2 * k + 1, y0 + h], [x0 + 2 * k + 1, y0 + 1]]
            if k < n - 1:
                pts.append([x0 + 2 * k + 2, y0 + 1])
        pts.append([x0 + 2 * n - 1, y0])
    elif kind == "stairs":
        n = draw(st.integers(2, 5))
        pts = [[x0, y0]]
        for k in range(n):
            pts += [[x0 + k + 1, y0 + k], [x0 + k + 1, y0 + k + 1]]
        pts.append([x0, y0 + n])
    else:
        w, h = draw(dec(0.5, 9, 1)), draw(dec(0.5, 9, 1))
        pts = [[x0, y0], [x0 + w, y0], [x0 + w, y0 + h], [x0, y0 + h]]
    pts = [[round(x, 3), round(y, 3)] for x, y in pts]
    if draw(st.booleans()):
        pts = [[x0 + y0 - y, y0 + x - x0] for x, y in pts]
    if draw(st.booleans()):
        pts = [[2 * x0 - x, 2 * y0 - y] for x, y in pts]
    pts = [[round(x, 3), round(y, 3)] for x, y in pts]
    if draw(st.booleans()):
        pts.reverse()
    k = draw(st.integers(0, len(pts) - 1))
    pts = pts[k:] + pts[:k]
    return {"kind": kind, "ring": pts + [pts[0]]}


@st.composite
def ring_points(draw):
    d = draw(rings())
    xs, ys = [p[0] for p in d["ring"]], [p[1] for p in d["ring"]]
    pts = []
    for _ in range(6):
        x = draw(dec(min(xs) - 1, max(xs) + 1, 2))
        y = draw(st.one_of(st.sampled_from(ys), dec(min(ys) - 1, max(ys) + 1, 2)))
        if draw(st.integers(0, 3)) == 0:
            x = draw(st.sampled_from(xs))
        pts.append([x, y])
    d["points"] = pts
    return d


@prop.facet(ring_points, quick=900, thorough=12000,
            rule="points around simple polygons in any order; non-trivial with points both in "
                 "and out")
def contains(d, ctx):
    from Utilities import Intersections as I
    ring = d["ring"]
    area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(ring, ring[1:]))
    ctx.klass(d["kind"], "clockwise" if area < 0 else "anticlockwise")
    V = I.convert2vertex([p[0] for p in ring], [p[1] for p in ring])
    check(len(V) == len(ring) and all((v.x, v.y) == tuple(p) and (v.getX(), v.getY()) == tuple(p)
                                      for v, p in zip(V, ring)), "vertices differ from the arrays")
    seen = set()
    for p in d["points"]:
        if min(edge_distance(p, a, b) for a, b in zip(ring, ring[1:])) < 1e-9:
            continue
        want = inside(p, ring)
        seen.add(want)
        got = I.inLand(I.Point(*p), V)
        check(bool(got) == want, "point %r is %s the polygon %r, reported %s" % (
            p, "inside" if want else "outside", ring, "inside" if got else "outside"))
    ctx.nontrivial(len(seen) == 2)


@st.composite
def segments(draw):
    small = st.integers(-6, 6)
    co = st.one_of(small, small, dec(-6, 6, 2), dec(-180, 180, 1))
    pt = st.tuples(co, co).map(lambda p: [float(p[0]), float(p[1])])
    a1, a2, b1, b2 = draw(pt), draw(pt), draw(pt), draw(pt)
    kind = draw(st.sampled_from(["any", "through", "through", "through", "parallel", "line",
                                 "shared"]))
    if kind == "through":
        # Around a point of the first segment.
        u = draw(st.sampled_from([0.5, 0.25, 0.75, 0.1, 0.99, 1.0]))
        m = [a1[k] + u * (a2[k] - a1[k]) for k in range(2)]
        v = [draw(st.integers(-5, 5)), draw(st.integers(-5, 5))]
        s, t = draw(st.sampled_from([0, 1, 1, 2])), draw(st.sampled_from([1, 1, 3, 0.5]))
        b1, b2 = [m[k] - s * v[k] for k in range(2)], [m[k] + t * v[k] for k in range(2)]
    if kind == "parallel" or kind == "line":
        k = draw(st.sampled_from([-2, -1, 1, 2, 3]))
        if kind == "line":
            s = draw(st.integers(-3, 3))
            b1 = [a1[0] + s * (a2[0] - a1[0]), a1[1] + s * (a2[1] - a1[1])]
        b2 = [b1[0] + k * (a2[0] - a1[0]), b1[1] + k * (a2[1] - a1[1])]
    elif kind == "shared":
        b1 = list(a2)
    return {"a": [a1, a2], "b": [b1, b2], "kind": kind}


def same(p, q):
    return math.hypot(p.x - float(q[0]), p.y - float(q[1])) < 1e-6


@prop.facet(segments, quick=1200, thorough=15000,
            rule="pairs of segments of some length; non-trivial when they cross")
def lines(d, ctx):
    from Utilities import Intersections as I
    a, b = d["a"], d["b"]
    if a[0] == a[1] or b[0] == b[1]:
        return
    A, B = [I.Point(*p) for p in a], [I.Point(*p) for p in b]
    for flip in range(4):
        p, q = A[::-1] if flip & 1 else A, B[::-1] if flip & 2 else B
        for first, second in ((p, q), (q, p)):
            r = I.Crossings().LineLine(first[0], first[1], second[0], second[1])
            if parallel(*(a + b)):
                on = sign(exact(a[0]), exact(a[1]), exact(b[0])) == 0
                if all(float(v).is_integer() for s in a + b for v in s):
                    check(r.status == ("Coincident" if on else "Parallel"),
                          "segments %r and %r are %s, reported %r" % (
                              a, b, "on one line" if on else "parallel", r.status))
                    ctx.klass("coincident" if on else "parallel")
                    check(not r.points, "parallel segments have a point %r" % r.points)
                continue
            if lean(a, b) < 1e-6:
                continue
            s, t, x = crossing(*(a + b))
            gap = min(abs(s), abs(s - 1), abs(t), abs(t - 1))
            hit = 0 <= s <= 1 and 0 <= t <= 1
            if gap < 1e-9 and not all(float(v).is_integer() for w in a + b for v in w):
                continue
            ctx.nontrivial(hit)
            check((r.status == "Intersection") == hit, "segments %r and %r %s, reported %r" % (
                a, b, "meet" if hit else "do not meet", r.status))
            if hit:
                check(len(r.points) == 1 and same(r.points[0], x),
                      "segments %r and %r meet at %r, reported at %r" % (
                          a, b, tuple(map(float, x)), [(v.x, v.y) for v in r.points]))
                if gap == 0:
                    ctx.klass("touching")
            else:
                check(r.status == "No Intersection" and not r.points,
                      "segments that do not meet are reported %r" % r.status)


@st.composite
def ring_lines(draw):
    parts = [draw(rings())["ring"] for _ in range(draw(st.integers(1, 3)))]
    xs = [p[0] for r in parts for p in r]
    ys = [p[1] for r in parts for p in r]
    pt = st.tuples(dec(min(xs) - 2, max(xs) + 2, 4), dec(min(ys) - 2, max(ys) + 2, 4)).map(list)
    base = draw(st.sampled_from(parts))
    mid = [sum(p[0] for p in base) / len(base), sum(p[1] for p in base) / len(base)]
    a = [draw(pt), draw(pt)]
    if draw(st.integers(0, 3)):
        a[1] = [mid[0] + draw(dec(-3, 3, 3)), mid[1] + draw(dec(-3, 3, 3))]
        far = draw(st.sampled_from([30, 7, 3]))
        turn = draw(dec(0, 6.28, 2))
        a[0] = [mid[0] + far * math.cos(turn), mid[1] + far * math.sin(turn)]
    return {"parts": parts, "line": a, "form": draw(st.sampled_from(["tuple", "parts", "array"])),
            "radius": draw(st.sampled_from([0.3, 1.0, 2.7, 6.0, 15.0]))}


def polygon(I, d):
    pts = [I.convert2vertex([p[0] for p in r], [p[1] for p in r]) for r in d["parts"]]
    if d["form"] == "parts":
        return pts, d["parts"]
    if d["form"] == "array":
        return np.array(pts[0], dtype=object), d["parts"][:1]
    return tuple(pts[0]), d["parts"][:1]


def flat(points):
    out = []
    for p in points:
        out += flat(p) if isinstance(p, (list, tuple)) else [p]
    return out


def match(got, want, what):
    got = flat(got)
    check(len(got) == len(want), "%s: %d intersections reported, %d expected: %r, %r" % (
        what, len(got), len(want), [(p.x, p.y) for p in got],
        [tuple(map(float, w)) for w in want]))
    for w in want:
        check(any(same(p, w) for p in got), "%s: no intersection reported at %r, only at %r" % (
            what, tuple(map(float, w)), [(p.x, p.y) for p in got]))


@prop.facet(ring_lines, quick=500, thorough=7000,
            rule="segment and polygon of one or several parts; non-trivial when they cross")
def line_polygon(d, ctx):
    from Utilities import Intersections as I
    a = d["line"]
    if a[0] == a[1]:
        return
    shape, parts = polygon(I, d)
    want = []
    for ring in parts:
        for b1, b2 in zip(ring, ring[1:]):
            if lean(a, (b1, b2)) < 1e-6:
                return
            s, t, x = crossing(a[0], a[1], b1, b2)
            if min(abs(s), abs(s - 1), abs(t), abs(t - 1)) < 1e-9:
                return
            if 0 <= s <= 1 and 0 <= t <= 1:
                want.append(x)
    ctx.nontrivial(len(want) > 0)
    ctx.klass(d["form"], "crossed" if want else "missed")
    r = I.Crossings().LinePolygon(I.Point(*a[0]), I.Point(*a[1]), shape)
    check(r.status == ("Intersection" if want else "No Intersection"),
          "segment %r crosses %d edges of the polygon %r, reported %r" % (
              a, len(want), parts, r.status))
    match(r.points, want, "segment %r and polygon %r" % (a, parts))


def circle_cuts(c, r, a, b):
    """Intersections of a segment and a circle, or None close to a tangent or an end."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = math.hypot(dx, dy)
    along = ((c[0] - a[0]) * dx + (c[1] - a[1]) * dy) / n
    off = abs((c[0] - a[0]) * dy - (c[1] - a[1]) * dx) / n
    if abs(off - r) < 1e-6:
        return None
    if off > r:
        return []
    half = math.sqrt(r * r - off * off)
    out = []
    for u in (along + half, along - half):
        if min(abs(u), abs(u - n)) < 1e-6:
            return None
        if 0 < u < n:
            out.append((a[0] + u / n * dx, a[1] + u / n * dy))
    return out


@st.composite
def circle_lines(draw):
    co = st.one_of(dec(-10, 10, 2), dec(2, 9, 3), dec(-9, -2, 3))
    return {"c": [draw(co), draw(co)], "r": draw(st.sampled_from([0.5, 2.0, 5.0, 9.0, 20.0])),
            "a": [draw(co), draw(co)], "b": [draw(co), draw(co)],
            "shift": draw(st.sampled_from([0, 0, 100, 160]))}


@prop.facet(circle_lines, quick=800, thorough=10000,
            rule="circle and segment; non-trivial when they meet")
def circle_line(d, ctx):
    from Utilities import Intersections as I
    c, a, b = [[p[0] + d["shift"], p[1]] for p in (d["c"], d["a"], d["b"])]
    if math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-3:
        return
    want = circle_cuts(c, d["r"], a, b)
    if want is None:
        return
    ctx.nontrivial(len(want) > 0)
    cross = I.Crossings()
    for p, q in ((a, b), (b, a)):
        r = cross.CircleLine(I.Point(*c), d["r"], I.Point(*p), I.Point(*q))
        state = "Intersection" if want else "Inside" if math.hypot(
            a[0] - c[0], a[1] - c[1]) < d["r"] else "Outside"
        ctx.klass(state)
        check(r.status == state, "segment %r to %r and circle of %r around %r: reported %r, "
              "expected %r" % (p, q, d["r"], c, r.status, state))
        match(r.points, want, "segment %r to %r and circle of %r around %r" % (p, q, d["r"], c))
    u = 0.25
    x, y = cross.lerp(I.Point(*a), I.Point(*b), u)
    check(abs(x - a[0] - u * (b[0] - a[0])) < 1e-9 and abs(y - a[1] - u * (b[1] - a[1])) < 1e-9,
          "a quarter of the way from %r to %r is %r" % (a, b, (x, y)))


@prop.facet(ring_lines, quick=500, thorough=7000,
            rule="circle and polygon of one or several parts; non-trivial when they meet")
def circle_polygon(d, ctx):
    from Utilities import Intersections as I
    c, r = d["line"][1], d["radius"]
    shape, parts = polygon(I, d)
    want = []
    for ring in parts:
        for b1, b2 in zip(ring, ring[1:]):
            cuts = circle_cuts(c, r, b1, b2)
            if cuts is None:
                return
            want += cuts
    ctx.nontrivial(len(want) > 0)
    ctx.klass(d["form"], "met" if want else "apart")
    got = I.Crossings().CirclePolygon(I.Point(*c), r, shape)
    check(got.status == ("Intersection" if want else "No Intersection"),
          "circle of %r around %r meets the polygon %r in %d points, reported %r" % (
              r, c, parts, len(want), got.status))
    match(got.points, want, "circle of %r around %r and polygon %r" % (r, c, parts))
