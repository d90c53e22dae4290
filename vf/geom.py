"""Exact plane geometry."""
import math
from fractions import Fraction as F

import numpy as np


def sign(a, b, p):
    """Side of p relative to the line a b."""
    v = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
    return (v > 0) - (v < 0)


def exact(p):
    return F(p[0]), F(p[1])


def crossing(a1, a2, b1, b2):
    """Exact intersection of two segments that are not parallel, or None."""
    a1, a2, b1, b2 = map(exact, (a1, a2, b1, b2))
    den = (a2[0] - a1[0]) * (b2[1] - b1[1]) - (a2[1] - a1[1]) * (b2[0] - b1[0])
    s = ((b1[0] - a1[0]) * (b2[1] - b1[1]) - (b1[1] - a1[1]) * (b2[0] - b1[0])) / den
    t = ((b1[0] - a1[0]) * (a2[1] - a1[1]) - (b1[1] - a1[1]) * (a2[0] - a1[0])) / den
    return s, t, (a1[0] + s * (a2[0] - a1[0]), a1[1] + s * (a2[1] - a1[1]))


def parallel(a1, a2, b1, b2):
    a1, a2, b1, b2 = map(exact, (a1, a2, b1, b2))
    return (a2[0] - a1[0]) * (b2[1] - b1[1]) == (a2[1] - a1[1]) * (b2[0] - b1[0])


def lean(a, b):
    """Sine of the angle between two segments."""
    v, w = np.subtract(a[1], a[0]), np.subtract(b[1], b[0])
    return abs(v[0] * w[1] - v[1] * w[0]) / np.hypot(*v) / np.hypot(*w)


def edge_distance(p, a, b):
    d = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    u = max(0., min(1., ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / d))
    return math.hypot(a[0] + u * (b[0] - a[0]) - p[0], a[1] + u * (b[1] - a[1]) - p[1])


def inside(p, ring):
    """Exact crossing parity of a ray running north."""
    q = exact(p)
    odd = False
    for a, b in zip(ring, ring[1:]):
        a, b = exact(a), exact(b)
        if (a[0] <= q[0]) != (b[0] <= q[0]):
            y = a[1] + (q[0] - a[0]) / (b[0] - a[0]) * (b[1] - a[1])
            if y > q[1]:
                odd = not odd
    return odd
