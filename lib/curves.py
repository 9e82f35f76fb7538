"""Exact keyframe curves: every operation on rationals, values as intervals allowing for a small error of the time."""
from fractions import Fraction as F

TIME_REL = F(1, 10 ** 9)      # of the segment
TIME_ABS = F(1, 10 ** 12)     # of the time
VALUE_REL = F(1, 10 ** 9)     # of the values of the segment
VALUE_ABS = F(1, 10 ** 200)


class Bad(Exception):
    pass


def bez(a, b, c, d, t):
    u = 1 - t
    return u * u * u * a + 3 * u * u * t * b + 3 * u * t * t * c + t * t * t * d


def inverse(xs, x, up):
    """a parameter at which the increasing curve reaches x, from below (up False) or above, within 2^-100"""
    lo, hi = 0, 1 << 100
    a, b, c, d = xs
    while hi - lo > 1:
        m = (lo + hi) // 2
        v = bez(a, b, c, d, F(m, 1 << 100))
        if v < x or (up and v == x):
            lo = m
        else:
            hi = m
    return F(hi if up else lo, 1 << 100)


def isqrt(x):
    """square root of a nonnegative rational, to many digits"""
    from math import isqrt as s
    return F(s(x.numerator * x.denominator << 200), x.denominator << 100)


def extent(ys, lo, hi):
    """least and greatest value of the cubic over the parameters lo..hi"""
    a, b, c, d = ys
    at = [lo, hi]
    # derivative / 3 = A t^2 + B t + C
    A, Bq, Cq = (d - c) - 2 * (c - b) + (b - a), 2 * ((c - b) - (b - a)), b - a
    if A == 0:
        if Bq:
            at.append(-Cq / Bq)
    else:
        disc = Bq * Bq - 4 * A * Cq
        if disc >= 0:
            r = isqrt(disc)
            at += [(-Bq + r) / (2 * A), (-Bq - r) / (2 * A)]
    v = [bez(a, b, c, d, t) for t in at if lo <= t <= hi]
    return min(v), max(v)


def clamp_handles(p0, p1, p2, p3):
    def shorten(p, h, end):
        return (end[0], p[1] + (h[1] - p[1]) * (end[0] - p[0]) / (h[0] - p[0]))
    if p1[0] > p3[0]:
        p1 = shorten(p0, p1, p3)
    elif p1[0] < p0[0]:
        p1 = (p0[0], p1[1])
    if p2[0] < p0[0]:
        p2 = shorten(p3, p2, p0)
    elif p2[0] > p3[0]:
        p2 = (p3[0], p2[1])
    return p1, p2


def sign(v):
    return 1 if v >= 0 else -1


def slope_at(a, b, c):
    """slope of the smooth curve at keyframe b between a and c"""
    before, after = b[1] - a[1], c[1] - b[1]
    if sign(before) != sign(after) or c[1] == a[1] or before == 0 or after == 0:
        return F(0)
    height = abs(c[1] - a[1])
    return min(abs(before), abs(after)) / height * 2 * (c[1] - a[1]) / (c[0] - a[0])


class Curve(object):
    def __init__(self, kind, times, values, tangents):
        self.kind, self.t, self.v, self.tan = kind, times, values, tangents

    def segment(self, k):
        """the four control points of the curve after keyframe k"""
        p0, p3 = (self.t[k], self.v[k]), (self.t[k + 1], self.v[k + 1])
        if self.kind == 'bezier':
            o, i = self.tan[k][1], self.tan[k + 1][0]
            p1, p2 = (p0[0] + o[0], p0[1] + o[1]), (p3[0] + i[0], p3[1] + i[1])
            return (p0,) + clamp_handles(p0, p1, p2, p3) + (p3,)
        half = (p3[0] - p0[0]) / 2
        left = (self.t[k - 1], self.v[k - 1]) if k else (p0[0] - half, p0[1])
        right = (self.t[k + 2], self.v[k + 2]) if k + 2 < len(self.t) else (p3[0] + half, p3[1])
        h = F(4, 10) * (p3[0] - p0[0])
        return p0, (p0[0] + h, p0[1] + h * slope_at(left, p0, p3)), (p3[0] - h, p3[1] - h * slope_at(p0, p3, right)), p3

    def range(self, t):
        """values acceptable at time t, strictly between two keyframes"""
        k = max(i for i, x in enumerate(self.t) if x <= t)
        t0, t3, v0, v3 = self.t[k], self.t[k + 1], self.v[k], self.v[k + 1]
        if self.kind == 'hold':
            return v0, v0
        d = (t3 - t0) * TIME_REL + max(abs(t0), abs(t3)) * TIME_ABS
        a, b = max(t0, t - d), min(t3, t + d)
        if self.kind == 'line':
            r = sorted(v0 + (v3 - v0) * (x - t0) / (t3 - t0) for x in (a, b))
            m = max(abs(v0), abs(v3))
        else:
            ps = self.segment(k)
            xs, ys = [p[0] for p in ps], [p[1] for p in ps]
            r = extent(ys, inverse(xs, a, False), inverse(xs, b, True))
            m = max(abs(y) for y in ys)
        e = m * VALUE_REL + VALUE_ABS
        return r[0] - e, r[1] + e
