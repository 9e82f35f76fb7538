"""Integrating a speed curve gives the consistent frame offset map."""
import math
from collections import OrderedDict
from fractions import Fraction as F
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the curve is not constant, the range does not start at the first keyframe and it has at least three samples'
ASSUMPTIONS = [
    'ranges and distances from the first keyframe of at most 3000 frames; speeds of at most 1e9',
    'the curve is sampled every tenth of a frame and its area summed by trapezoids over the half frame that ends a tenth before the sample, '
    'as the module documents; values between keyframes are those value_at gives (C19 judges them)',
    'the frame of a first keyframe between frames is its time with the fraction cut off',
    'offsets may differ by 1e-9 of the total area',
]
BUDGET = {'quick': 300, 'thorough': 3000}


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


speed = st.one_of(st.integers(-5, 5), st.integers(-5, 5).map(float), st.floats(-10, 10), st.sampled_from([1.0, 0.5, 2.0, 100.0, 0.0, 1e9, -1e9, 1e-9, 1 / 3.0]))
point = st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 100)), speed, st.tuples(st.floats(-3, 0), speed), st.tuples(st.floats(0, 3), speed))
scale = st.sampled_from([(1, 1), (1, 1), (1, 1), (1, 1), (1, 2), (3, 2), (1, 3), (30, 30)])
base = st.one_of(st.none(), st.none(), st.integers(-20, 20), st.floats(-100, 100))
frame = st.one_of(st.integers(-30, 60), st.integers(-3, 3), st.integers(-3, 3), st.integers(-300, 300))
rng = st.tuples(frame, st.one_of(st.none(), st.integers(0, 40), st.integers(0, 3), st.integers(0, 200), st.integers(-9, -1)), st.sampled_from(['abs', 'first', 'last']))
cases = st.tuples(st.sampled_from([2, 3, 3, 5, 6]), st.sampled_from([1, 2, 2]), scale, st.one_of(st.integers(-20, 20), st.integers(-20, 20), st.integers(-300, 300)),
                  st.lists(point, min_size=1, max_size=5), base, st.lists(rng, min_size=1, max_size=3), st.sampled_from(['loaded', 'created']))


def model(case):
    kind, vt, (mul, den), start, pts, bf, rs, src = case
    m = L.full_model(b'PRCL', vt)
    m['interp_kind'] = kind
    m['control_points'] = []
    n = start
    for i, (gap, v, ti, to) in enumerate(pts):
        n += gap
        v = int(max(-2e9, min(2e9, v))) if vt == 1 else float(v)
        pp = [(5, 2, ti[0]), (6, 2, float(ti[1])), (7, 2, to[0]), (8, 2, float(to[1]))]
        if bf is not None:
            # only the one of the first keyframe counts
            pp.insert(i % 5, (14, 1 if isinstance(bf, int) else 2, bf if i == 0 else bf * 2 + 1 if isinstance(bf, float) else bf * 2 + 1))
        m['control_points'].append(OrderedDict([('offset', [n, den]), ('timescale', mul), ('value', v),
                                                ('pp', [OrderedDict([('code', c), ('type', t), ('value', x)]) for c, t, x in pp])]))
    return m


def reference(pc, lo, hi, memo):
    """{half frames: area from frame lo, the half frame before included}, exact sums of the sampled values"""
    res = OrderedDict()

    def at(t):
        if t not in memo:
            memo[t] = F(pc.value_at(float(t)))
        return memo[t]
    total = F(0)
    size = F(0)
    for h in range(2 * lo, 2 * hi + 1):
        # samples 0.6, 0.5, 0.4, 0.3, 0.2, 0.1 before the time h / 2
        vs = [at(F(h, 2) - F(k, 10)) for k in (6, 5, 4, 3, 2, 1)]
        total += sum((a + b) / 20 for a, b in zip(vs, vs[1:]))
        size += sum(abs(a) + abs(b) for a, b in zip(vs, vs[1:])) / 20
        res[h] = total
    return res, size


def jumps(pc):
    """the greatest difference of speeds, for curves with jumps: a sample next to a jump may be on either side of it"""
    vs = [cp.value for cp in pc.control_points]
    return F(max(vs)) - F(min(vs))


def integrate(ctx, case):
    kind, vt, sc, start, pts, bf, rs, src = case
    C.set_zone(0)
    m = model(case)
    doc = L.wrap([(b'PRCL', m)])
    if src == 'loaded':
        f = C.open_bytes(R.encode_file(doc)[0])
        pc = f.content.attributes['o0']
    else:
        f, objs = B.build(doc)
        pc = objs[1]
    times = [F(p['offset'][0], p['offset'][1]) * p['timescale'] for p in m['control_points']]
    center, last = int(times[0]), int(times[-1])
    zero = F(bf) if bf is not None else F(0)
    constant = len({p['value'] for p in m['control_points']}) == 1 and kind != 5
    seen = {}
    memo = {}
    rich = False
    for a, n, what in rs:
        a = a + (0 if what == 'abs' else center if what == 'first' else last)
        if not -3000 < a < 3000:
            continue
        end = last if n is None else a + n
        arg = None if n is None else end
        if end < a:
            try:
                r = pc.integrate(a, arg)
            except ValueError:
                continue
            raise Violation('the range %r to %r gives %r' % (a, arg, str(r)[:200]))
        got = pc.integrate(a, arg)
        when = 'the range %r to %r, first keyframe at frame %d' % (a, arg, center)
        need(isinstance(got, list) or hasattr(got, '__iter__'), '%s: %r', when, got)
        got = list(got)
        want = [F(h, 2) for h in range(2 * a, 2 * end + 1)]
        need([F(x[0]) for x in got] == want, '%s: samples at %r.., expected one per half frame', when, [x[0] for x in got][:6])
        lo, hi = min(a, center), max(end, center)
        ref, size = reference(pc, lo, hi, memo)
        tol = size * F(1, 10 ** 9) + F(1, 10 ** 9) * (1 + abs(zero))
        if kind == 2:
            # the sample times may fall on either side of a keyframe
            tol += jumps(pc) * F(11, 100) * len(pts)
        for t, v in got:
            need(isinstance(v, float) or isinstance(v, int), '%s: offset %r', when, v)
            w = ref[int(2 * t)] - ref[2 * center] + zero
            need(math.isfinite(v) and abs(F(v) - w) <= tol, '%s: offset at %r is %r, expected %r', when, t, v, float(w))
            if constant:
                w = F(m['control_points'][0]['value']) * (F(t) - center) + zero
                need(abs(F(v) - w) <= size * F(1, 10 ** 9) + F(1, 10 ** 9) * (1 + abs(zero)), '%s: offset at %r is %r, expected %r for constant speed', when, t, v, float(w))
            if t == center:
                need(abs(F(v) - zero) <= tol, '%s: offset at the first keyframe is %r, expected %r', when, v, float(zero))
            if t in seen:
                need(abs(seen[t][0] - F(v)) <= tol + seen[t][1], '%s: offset at %r is %r, and %r over another range', when, t, v, float(seen[t][0]))
            seen[t] = (F(v), tol)
        rich = rich or (not constant and a != center and len(got) >= 3)
        ctx.label('before' if end < center else 'after' if a > center else 'across')
    return rich


EXAMPLES = []
SUBS = [Sub('integrate', cases, integrate, quick=2400, thorough=40000)]
