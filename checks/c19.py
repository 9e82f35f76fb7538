"""Keyframe curves pass through their keyframes and interpolate as specified."""
import math
import struct
from collections import OrderedDict
from fractions import Fraction as F
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the curve has at least three keyframes of at least two values and was evaluated strictly between keyframes'
ASSUMPTIONS = [
    'keyframe times increase strictly by at least 1e-9 of their magnitude; values and tangents are at most 1e60 in magnitude',
    'values between keyframes may differ from the exact curve by what a change of the time by 1e-9 of the segment (or 1e-12 of the time itself) '
    'makes, and by 1e-9 of the values of the segment',
    'a Bezier handle which leaves its segment is brought back to it: one past the other keyframe is shortened in its own direction, '
    'one behind its own keyframe moves to the time of that keyframe',
    'the smooth curve is the Bezier curve with handles at 0.4 of the segment and the slope rule of lib/curves.py',
]
BUDGET = {'quick': 300, 'thorough': 3000}

KINDS = {2: 'hold', 3: 'line', 5: 'bezier', 6: 'smooth'}


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


from curves import Curve, Bad  # noqa: E402

# ---- generation: keyframes as (gap to the previous one, value, in tangent, out tangent)
small = st.integers(-20, 20)
num = st.one_of(small, small.map(float), st.floats(-100, 100), st.floats(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1e-12, 1e-300, -5e-324, 1e60, -1e60, 1e-9]))
val = st.one_of(num, st.sampled_from([0, 1, 100, 1, 0]))
tan = st.one_of(st.just((0, 0)), st.tuples(st.floats(-30, 30), num), st.tuples(st.integers(-5, 5), small), st.tuples(num, num),
                st.tuples(st.sampled_from(['1/3', '1', '0', '-1', '3', '0.999999999', '1e-9', '0.4', '2/3', '0.5']), num))
gap = st.one_of(st.integers(1, 30), st.integers(1, 100000), st.just(1), st.sampled_from([1, 2, 3, 1000000]))
point = st.tuples(gap, val, tan, tan)
scale = st.sampled_from([(1, 1), (1, 1), (1, 1), (1, 2), (1000, 1), (1, 25), (1001, 30000), (3, 7), (1, 1 << 30), (1, -5), (-1, -2), (90000, 1)])
query = st.one_of(st.tuples(st.just('at'), st.integers(0, 12)), st.tuples(st.just('near'), st.integers(0, 12), st.sampled_from([-1, 1])),
                  st.tuples(st.just('in'), st.integers(0, 12), st.one_of(st.floats(0, 1), st.sampled_from([0.5, 1e-9, 1e-6, 1 - 1e-9, 0.25, 0.9]))),
                  st.tuples(st.just('abs'), st.one_of(st.integers(-100, 100), st.floats(-1e7, 1e7), st.floats(-1e300, 1e300),
                                                      st.integers(-10 ** 12, 10 ** 12))),
                  st.tuples(st.just('out'), st.sampled_from(['before', 'after']), st.floats(0, 1e9)))
edit = st.one_of(st.tuples(st.just('value'), st.integers(0, 12), val), st.tuples(st.just('kind'), st.sampled_from([2, 3, 5, 6])),
                 st.tuples(st.just('del'), st.integers(0, 12)), st.tuples(st.just('append'), point), st.tuples(st.just('tan'), st.integers(0, 12), tan, tan),
                 st.tuples(st.just('shift'), st.integers(-1000, 1000)))
cases = st.tuples(st.sampled_from([2, 3, 5, 5, 6, 6]), st.sampled_from([1, 2, 2]), scale, st.one_of(st.integers(-50, 50), st.integers(-10 ** 7, 10 ** 7)),
                  st.lists(point, min_size=1, max_size=7), st.lists(query, min_size=1, max_size=8), st.lists(edit, max_size=2),
                  st.sampled_from(['loaded', 'created']), st.integers(0, 255))


class Points(object):
    """the model: list of [numerator, value, in, out]"""

    def __init__(self, case):
        kind, vt, sc, start, pts, qs, eds, src, salt = case
        self.kind, self.vt, self.salt = kind, vt, salt
        # time = numerator / den * timescale
        self.mul, self.den = sc
        self.pts = []
        n = start
        for g, v, ti, to in pts:
            n += g
            self.add(n, v, ti, to)

    def add(self, n, v, ti, to):
        if not -(1 << 31) <= n < 1 << 31:
            return False
        self.pts.append([n, self.value(v), ti, to])
        return True

    def value(self, v):
        if self.vt == 1:
            return max(-(1 << 31), min((1 << 31) - 1, int(v)))
        return float(v)

    def num(self, n):
        # keep times increasing whatever the signs of the scale
        return n if (self.mul > 0) == (self.den > 0) else -n

    def tangents(self, i):
        res = []
        for j, (x, y) in enumerate(self.pts[i][2:]):
            if isinstance(x, str):
                k = i - 1 if j == 0 else i + 1
                seg = abs(self.time(k) - self.time(i)) if 0 <= k < len(self.pts) else F(1)
                x = float(F(x) * seg) * (-1 if j == 0 else 1)
            res.append((x, y))
        return res

    def time(self, i):
        return F(self.num(self.pts[i][0]), self.den) * self.mul

    def pp(self, i):
        """properties, some in other orders, types and with others between"""
        s = self.salt >> (i % 5)
        (ix, iy), (ox, oy) = self.tangents(i)
        res = []
        for code, v in ((5, ix), (6, iy), (7, ox), (8, oy)):
            if v == 0 and s & 1:
                continue
            if isinstance(v, int) and s & 2:
                res.append((code, 1, v))
            else:
                res.append((code, 2, float(v)))
        if s & 4:
            res.insert(s % (len(res) + 1), (9, 1, s))
        if s & 8:
            res.reverse()
        if s & 16:
            res.append((14, 2, 3.5))
        return res

    def model(self):
        m = L.full_model(b'PRCL', self.vt)
        m['interp_kind'] = self.kind
        m['control_points'] = [OrderedDict([('offset', [self.num(p[0]), self.den]), ('timescale', self.mul), ('value', p[1]),
                                            ('pp', [OrderedDict([('code', c), ('type', t), ('value', v)]) for c, t, v in self.pp(i)])])
                               for i, p in enumerate(self.pts)]
        return m

    def curve(self, times):
        return Curve(KINDS[self.kind], [F(t) for t in times], [F(p[1]) for p in self.pts],
                     [[(F(float(x)), F(float(y))) for x, y in self.tangents(i)] for i in range(len(self.pts))])


def library(f, pc, model):
    """put the model's points in the library object, new ones where there are none"""
    pc.interp_kind, pc.value_type = model['interp_kind'], model['value_type']
    cps = []
    for i, m in enumerate(model['control_points']):
        cp = pc.control_points[i] if i < len(pc.control_points) else f.create.ParamControlPoint()
        cp.offset, cp.timescale, cp.value = list(m['offset']), m['timescale'], m['value']
        cp.pp = []
        for x in m['pp']:
            p = f.create.ParamControlPointProperty()
            p.code, p.type, p.value = x['code'], x['type'], x['value']
            cp.pp.append(p)
        cps.append(cp)
    pc.control_points = cps
    pc.mark_modified()


def spread(times):
    return all(b > a and b - a >= 1e-9 * max(abs(a), abs(b)) for a, b in zip(times, times[1:]))


def judge(pc, P, qs, when):
    """-> True when evaluated between keyframes"""
    n = len(P.pts)
    times = [cp.time for cp in pc.control_points]
    need(len(times) == n, '%s: %d keyframes, expected %d', when, len(times), n)
    for i, t in enumerate(times):
        w = P.time(i)
        need(abs(F(t) - w) <= abs(w) * F(1, 10 ** 12), '%s: keyframe %d is at %r, expected %s', when, i, t, w)
    if n == 0:
        for fn in (pc.value_at, pc.nearest_index):
            try:
                r = fn(0)
            except ValueError:
                continue
            raise Violation('%s: %s of an empty curve is %r' % (when, fn.__name__, r))
        return False
    if not spread(times):
        return False
    curve = P.curve(times)
    inside = False
    for q in list(qs) + [('at', i) for i in range(n)]:
        i = q[1] % n if q[0] in ('at', 'near', 'in') else None
        if q[0] == 'at':
            t = times[i]
        elif q[0] == 'near':
            t = math.nextafter(times[i], math.inf * q[2])
        elif q[0] == 'in':
            if i + 1 >= n:
                continue
            t = times[i] + (times[i + 1] - times[i]) * q[2]
        elif q[0] == 'abs':
            t = q[1]
        else:
            t = times[0] - q[2] if q[1] == 'before' else times[-1] + q[2]
        k = 0
        for j in range(n):
            if times[j] <= t:
                k = j
        got = pc.nearest_index(t)
        need(got == k, '%s: the keyframe governing %r is %r, expected %d of %r', when, t, got, k, times)
        v = pc.value_at(t)
        need(isinstance(v, float) and math.isfinite(v), '%s: the value at %r is %r', when, t, v)
        if t in times:
            w = P.pts[times.index(t)][1]
            need(v == float(w), '%s: the value at keyframe time %r is %r, expected %r', when, t, v, w)
        elif t < times[0] or t > times[-1]:
            w = P.pts[0 if t < times[0] else -1][1]
            need(v == float(w), '%s: the value at %r, outside the curve, is %r, expected %r', when, t, v, w)
        else:
            inside = True
            r = curve.range(F(t))
            need(r[0] <= F(v) <= r[1], '%s: the value at %r is %r, expected between %r and %r (%s, keyframe %d)', when, t, v, float(r[0]), float(r[1]),
                 KINDS[P.kind], k)
    return inside


def curve_case(ctx, case):
    kind, vt, sc, start, pts, qs, eds, src, salt = case
    C.set_zone(0)
    P = Points(case)
    doc = L.wrap([(b'PRCL', P.model())])
    if src == 'loaded':
        f = C.open_bytes(R.encode_file(doc)[0])
        pc = f.content.attributes['o0']
    else:
        f, objs = B.build(doc)
        pc = objs[1]
    inside = judge(pc, P, qs, 'at first')
    rich = len(P.pts) >= 3 and len({p[1] for p in P.pts}) > 1
    for e in eds:
        n = len(P.pts)
        if e[0] == 'value' and n:
            P.pts[e[1] % n][1] = P.value(e[2])
        elif e[0] == 'kind':
            P.kind = e[1]
        elif e[0] == 'del' and n:
            del P.pts[e[1] % n]
        elif e[0] == 'append':
            P.add(P.pts[-1][0] + e[1][0] if n else 0, *e[1][1:])
        elif e[0] == 'tan' and n:
            P.pts[e[1] % n][2:] = e[2:]
        elif e[0] == 'shift':
            if all(-(1 << 31) < p[0] + e[1] < (1 << 31) for p in P.pts):
                for p in P.pts:
                    p[0] += e[1]
        library(f, pc, P.model())
        inside = judge(pc, P, qs, 'after %s' % e[0]) or inside
    ctx.label(KINDS[kind], src)
    return rich and inside


EXAMPLES = []
SUBS = [Sub('curve', cases, curve_case, quick=8000, thorough=120000)]
