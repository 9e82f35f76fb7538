"""Decimal rates and doubles survive saving."""
import decimal
import os
import struct
from fractions import Fraction
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation

RULE = 'at least one value stored is not an integer'
ASSUMPTIONS = ['rates are positive, or zero, and at most 2147483647; a decimal is what the nearest double of it stands for']

TOP = 0x7fffffff


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


RATES, DBLS = [], []
for c in R.ALLKINDS:
    for vt in ((1, 2) if c in (b'PRCL', b'PRIT') else (1,)):
        m = L.full_model(c, vt)
        for p, t in L.leaves(c, m):
            if isinstance(t, R.Exp10):
                RATES.append((c, vt, p))
            elif isinstance(t, R.Dbl):
                DBLS.append((c, vt, p))
RATES = [x for x in RATES if x[1] == 1 and x[0] not in (b'ABIN', b'BINF')]


def as_decimal(v):
    """(mantissa, digits) of the shortest decimal with at most six digits that is the double v, or None"""
    x = Fraction(v)
    for k in range(7):
        a = round(x * 10 ** k)
        if abs(a) <= TOP and Fraction(a, 10 ** k).numerator / Fraction(a, 10 ** k).denominator == v:
            return a, k
    return None


def finest(v):
    """the unit of the last digit that fits"""
    for k in range(6, -1, -1):
        if abs(round(Fraction(v) * 10 ** k)) <= TOP:
            return Fraction(1, 10 ** k)
    return None


def plain(v):
    if isinstance(v, tuple):
        if v[0] == 'dec':
            f = Fraction(v[1]) / 10 ** v[2]
            return f.numerator / f.denominator
        if v[0] == 'frac':
            return Fraction(v[1], v[2])
        if v[0] == 'Decimal':
            return decimal.Decimal(v[1]).scaleb(-v[2])
        if v[0] == 'ratio':
            return v[1] / v[2]
    return v


def open_doc(ctx, models, order, how):
    doc = L.wrap(models, order)
    if how == 'create':
        return B.build(doc)
    data, refmap = R.encode_file(doc)
    f = C.open_bytes(data)
    return f, {k: f.read_object(refmap[k]) for k in doc.objs}


def rates(ctx, case):
    items, orders, how = case
    models = [(c, L.full_model(c)) for (c, vt, p), v in items]
    f, objs = open_doc(ctx, models, orders[0], how)
    good = False
    vals = []
    for i, ((c, vt, p), v) in enumerate(items):
        v = plain(v)
        vals.append(v)
        L.lib_put(objs[i + 1], c, models[i][1], p, v)
    try:
        path = ctx.path('r.avb')
        f.write(path, orders[1])
        data = C.read(path)
        dec = R.decode_file(data)
        back = avb.open(path)
        try:
            for i, ((c, vt, p), v) in enumerate(items):
                v = vals[i]
                k = child(dec, 'o%d' % i)
                st_ = L.get(dec.objs[k][1], p)
                stored = R.dec_fraction(st_)
                got = getattr(back.read_object(k), p[0])
                exact = v == int(v) or (isinstance(v, float) and as_decimal(v)) or \
                    (not isinstance(v, float) and any((Fraction(v) * 10 ** n).denominator == 1 and
                                                      abs(Fraction(v) * 10 ** n) <= TOP for n in range(7)))
                if exact:
                    want = Fraction(v).numerator / Fraction(v).denominator
                    need(got == want, '%r.%s: %r saved, %r read back (stored %r)', c, p[0], v, got, tuple(st_))
                    ctx.label('decimal')
                else:
                    u = finest(v)
                    need(abs(stored - Fraction(v)) <= u, '%r.%s: %r stored as %r, off by more than %s', c, p[0], v,
                         tuple(st_), u)
                    need(abs(Fraction(got) - Fraction(v)) <= u * 2, '%r.%s: %r read back as %r', c, p[0], v, got)
                    ctx.label('rounded')
                if v != int(v):
                    good = True
            # what was read back is a decimal: saving it again changes nothing
            first = [L.get(dec.objs[child(dec, 'o%d' % i)][1], it[0][2]) for i, it in enumerate(items)]
            back.write(ctx.path('r2.avb'), orders[0])
            dec2 = R.decode_file(C.read(ctx.path('r2.avb')))
            second = [L.get(dec2.objs[child(dec2, 'o%d' % i)][1], it[0][2]) for i, it in enumerate(items)]
            need([R.dec_fraction(x) for x in first] == [R.dec_fraction(x) for x in second],
                 'saved again: %r, first %r', second, first)
        finally:
            back.close()
    finally:
        clean(ctx)
    return good


def child(dec, name):
    a = dec.objs[dec.objs[dec.root][1]['attributes']][1]['entries']
    for n, t, v in a:
        if n == name:
            return v
    raise Violation('attribute %s lost' % name)


def clean(ctx):
    for x in os.listdir(ctx.scratch):
        if x.endswith('.avb'):
            os.remove(ctx.path(x))


def doubles(ctx, case):
    items, orders, how = case
    models = [(c, L.full_model(c, vt)) for (c, vt, p), v in items]
    f, objs = open_doc(ctx, models, orders[0], how)
    good = False
    vals = [struct.unpack('<d', struct.pack('<Q', v))[0] for x, v in items]
    for i, ((c, vt, p), v) in enumerate(items):
        L.lib_put(objs[i + 1], c, models[i][1], p, vals[i])
    try:
        path = ctx.path('r.avb')
        f.write(path, orders[1])
        dec = R.decode_file(C.read(path))
        with avb.open(path) as back:
            for i, ((c, vt, p), v) in enumerate(items):
                k = child(dec, 'o%d' % i)
                raw = struct.unpack('<Q', struct.pack('<d', L.get(dec.objs[k][1], p)))[0]
                need(raw == v, '%r%s: bits %016x stored as %016x', c, p, v, raw)
                cur = back.read_object(k)
                for e in p:
                    cur = cur[e] if isinstance(e, int) else getattr(cur, e)
                need(isinstance(cur, float), '%r%s read as %r', c, p, cur)
                raw = struct.unpack('<Q', struct.pack('<d', cur))[0]
                need(raw == v, '%r%s: bits %016x read as %016x', c, p, v, raw)
                good = good or vals[i] != vals[i] or vals[i] in (float('inf'), -float('inf')) or vals[i] != int(vals[i])
    finally:
        clean(ctx)
    return good


common_rates = [23.976, 29.97, 59.94, 119.88, 24000 / 1001., 30000 / 1001., 60000 / 1001., 24, 25, 30, 48000, 44100,
                12.5, 14.985, 0.5, 1e-6, 2147483647, 2147483647.0, 214748364.7, 2147.483647, 48048.0, 47952.05, 0.1,
                1 / 3., 2 / 3., 1999.999999, 16777216.5, 0]
rate = st.one_of(
    st.sampled_from(common_rates),
    st.tuples(st.just('dec'), st.integers(0, TOP), st.integers(0, 6)),
    st.tuples(st.just('dec'), st.integers(0, 10 ** 6), st.integers(0, 6)),
    st.tuples(st.just('dec'), st.integers(TOP - 3, TOP), st.integers(0, 6)),
    st.tuples(st.just('ratio'), st.integers(1, 240000), st.sampled_from([1001, 1000, 3, 7, 999])),
    st.tuples(st.just('frac'), st.integers(1, 240000), st.sampled_from([1001, 1000, 3, 8, 64])),
    st.tuples(st.just('Decimal'), st.integers(0, TOP), st.integers(0, 6)),
    st.floats(0, TOP), st.floats(0, 3000), st.floats(0, 1), st.floats(2000, 2200),
    st.integers(0, TOP))


def two_orders():
    o = st.sampled_from(['little', 'big'])
    return st.tuples(o, o)


bits = st.one_of(
    st.sampled_from([0, 1 << 63, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000123,
                     0xfff8000000abcdef, 0x3ff0000000000001, 0x000fffffffffffff, 0x7fefffffffffffff]),
    st.floats(allow_nan=False).map(lambda x: struct.unpack('<Q', struct.pack('<d', x))[0]),
    st.integers(0, 2 ** 64 - 1).filter(lambda i: not (i >> 52 & 0x7ff == 0x7ff and i & ((1 << 52) - 1) and
                                                      not i >> 51 & 1)))


def items(places, values):
    return st.tuples(st.lists(st.tuples(st.sampled_from(places), values), min_size=1, max_size=5), two_orders(),
                     st.sampled_from(['create', 'edit']))


def grid(ctx, case):
    """consecutive decimals, one object for each"""
    start, n, k, place, order = case
    c, vt, p = RATES[place % len(RATES)]
    vals = [Fraction(start + i, 10 ** k) for i in range(n) if start + i <= TOP]
    vals = [x.numerator / x.denominator for x in vals]
    f, objs = B.build(L.wrap([(c, L.full_model(c)) for v in vals], order))
    for i, v in enumerate(vals):
        L.lib_put(objs[i + 1], c, None, p, v)
    try:
        f.write(ctx.path('r.avb'), order)
        dec = R.decode_file(C.read(ctx.path('r.avb')))
        at = {e[0]: e[2] for e in dec.objs[dec.objs[dec.root][1]['attributes']][1]['entries']}
        with avb.open(ctx.path('r.avb')) as back:
            for i, v in enumerate(vals):
                s = L.get(dec.objs[at['o%d' % i]][1], p)
                x = R.dec_fraction(s)
                need(x.numerator / x.denominator == v, '%r.%s: %r stored as %r', c, p[0], v, tuple(s))
                got = getattr(back.read_object(at['o%d' % i]), p[0])
                need(got == v, '%r.%s: %r saved, %r read back', c, p[0], v, got)
    finally:
        clean(ctx)
    ctx.label('grid of %d digits' % k)
    return k > 0


grids = st.one_of(
    st.tuples(st.integers(0, 20000), st.just(120), st.just(2), st.integers(0, 20), st.sampled_from(['little', 'big'])),
    st.tuples(st.integers(0, 121000), st.just(120), st.just(3), st.integers(0, 20), st.sampled_from(['little', 'big'])),
    st.tuples(st.integers(0, TOP), st.just(60), st.integers(0, 6), st.integers(0, 20), st.sampled_from(['little', 'big'])))

SUBS = [
    Sub('grid', grids, grid, quick=300, thorough=6000),
    Sub('rates', items(RATES, rate), rates, quick=4500),
    Sub('doubles', items(DBLS, bits), doubles, quick=2500),
]
EXAMPLES = [('rates', ([(p, v) for p in RATES[:1] for v in common_rates], ('little', 'big'), 'create'))]
EXAMPLES += [('rates', ([(p, 29.97) for p in RATES], ('big', 'little'), 'create'))]
# every rate of two digits below 130, and of three digits below 31 and around 48, 50, 60, 100 and 120
EXAMPLES += [('grid', (i, 500, 2, 0, 'little')) for i in range(0, 13000, 500)]
EXAMPLES += [('grid', (i, 500, 3, i // 500, 'big')) for i in list(range(22000, 31000, 500)) + [14500, 47500, 48000, 49500, 59500, 99500, 119500]]
