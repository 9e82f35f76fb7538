"""Timeline positions, lengths and lookups follow from the component lengths."""
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the sequence has at least three components, one of them a transition or of length zero, and lookups were made'
ASSUMPTIONS = [
    'lookups are judged when every transition has material before and after it and the overlaps of a component do not '
    'exceed its length; positions and lengths are judged always',
    'a sequence without components, or with only empty ones, has nothing to look up',
    'sequences hold components, not null references',
]

CLIPS = [b'SCLP', b'FILL', b'TCCP', b'TKFX', b'SLCT', b'SEQU', b'CTRL']


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


LEN = st.one_of(st.integers(0, 6), st.integers(1, 12), st.just(0), st.just(1), st.integers(0, 2**31 - 1))
SMALL = st.one_of(st.integers(0, 6), st.integers(1, 12), st.just(0), st.just(1))


@st.composite
def comps(draw, n=9):
    """[(class, length)]; transitions mostly with valid overlaps"""
    r = []
    big = draw(st.integers(0, 9)) == 0
    for i in range(draw(st.integers(0, n))):
        if r and r[-1][0] != b'TNFX' and draw(st.integers(0, 2)) == 0:
            r.append((b'TNFX', draw(st.integers(0, 5))))
        else:
            r.append((draw(st.sampled_from(CLIPS)), draw(LEN if big else SMALL)))
    if draw(st.integers(0, 3)):
        # make the overlaps fit
        out = []
        for c, l in r:
            if c == b'TNFX':
                l = min(l, left(out))
                out.append((c, l))
            else:
                if out and out[-1][0] == b'TNFX' and l < out[-1][1]:
                    l = out[-1][1] + l
                out.append((c, l))
        if out and out[-1][0] == b'TNFX':
            out.append((b'FILL', out[-1][1] + draw(st.integers(0, 3))))
        r = out
    if draw(st.integers(0, 3)) == 0:
        r = [(b'FILL', 0)] + r + [(b'FILL', 0)]
    return r


def left(out):
    """length of the last component still free for an overlap"""
    if not out:
        return 0
    l = out[-1][1]
    if len(out) > 1 and out[-2][0] == b'TNFX':
        l -= out[-2][1]
    return max(0, l)


def layout(cs):
    """([start], total)"""
    at, starts = 0, []
    for c, l in cs:
        if c == b'TNFX':
            at -= l
            starts.append(at)
        else:
            starts.append(at)
            at += l
    return starts, at


def valid(cs):
    cs = [x for x in cs if x[1]]
    for i, (c, l) in enumerate(cs):
        if c == b'TNFX':
            if i == 0 or i == len(cs) - 1 or cs[i - 1][0] == b'TNFX' or cs[i + 1][0] == b'TNFX':
                return False
        else:
            over = (cs[i - 1][1] if i and cs[i - 1][0] == b'TNFX' else 0) + \
                (cs[i + 1][1] if i + 1 < len(cs) and cs[i + 1][0] == b'TNFX' else 0)
            if over > l:
                return False
    return bool(cs)


def lookup(cs, t):
    """(index, start) of what covers t"""
    starts, total = layout(cs)
    real = [i for i, (c, l) in enumerate(cs) if l]
    for i in real:
        if cs[i][0] == b'TNFX' and starts[i] <= t < starts[i] + cs[i][1]:
            return i, starts[i]
    hits = [i for i in real if starts[i] <= t < starts[i] + cs[i][1]]
    if len(hits) > 1:
        raise HarnessError('two components cover %d in %r' % (t, cs))
    if hits:
        return hits[0], starts[hits[0]]
    i = real[0] if t < 0 else real[-1]
    return i, starts[i]


def model_of(cid, length, ids):
    """model and its parts: a nested sequence holds material of that length"""
    m = L.full_model(cid)
    if cid == b'SEQU':
        m['components'] = list(ids)
    else:
        m['length'] = length
        if 'tracks' in m and cid != b'SLCT':
            m['tracks'] = []
    return m


def build_models(cs):
    """([(cid, model)], ids of the components)"""
    models, ids = [], []
    for cid, l in cs:
        if cid == b'SEQU':
            # a nested sequence: two halves and an overlap
            a, b = l // 2, l - l // 2
            k = 1 if a and b else 0
            parts = [(b'FILL', a + k), (b'TNFX', k), (b'SCLP', b)]
            for pc, pl in parts:
                models.append((pc, model_of(pc, pl, [])))
            models.append((cid, model_of(cid, l, [len(models) - 2, len(models) - 1, len(models)])))
        else:
            models.append((cid, model_of(cid, l, [])))
        ids.append(len(models))
    return models, ids


@st.composite
def cases(draw):
    cs = draw(comps())
    edits = draw(st.lists(st.tuples(st.sampled_from(['len', 'insert', 'delete', 'move', 'replace']), st.integers(0, 12),
                                    st.sampled_from([b'SCLP', b'FILL', b'TNFX', b'TCCP']), st.integers(0, 9)), max_size=4))
    times = draw(st.lists(st.one_of(st.integers(-3, 60), st.integers(-2**31, 2**40)), max_size=6))
    return cs, edits, times, draw(st.sampled_from(['loaded', 'created'])), draw(st.booleans())


def times_for(cs, extra):
    starts, total = layout(cs)
    ts = set(extra)
    for s, (c, l) in zip(starts, cs):
        ts |= {s - 1, s, s + 1, s + l - 1, s + l, s + l + 1, s + l // 2}
    ts |= {-1, -5, 0, total, total - 1, total + 1, total + 7}
    if total < 60:
        ts |= set(range(-2, total + 3))
    return sorted(ts)


def verify(ctx, seq, cs, extra, when):
    starts, total = layout(cs)
    need(seq.length == total, '%s: length %r, expected %d', when, seq.length, total)
    got = list(seq.positions())
    need(len(got) == len(cs), '%s: %d positions for %d components', when, len(got), len(cs))
    objs = list(seq.components)
    for i, (idx, pos, c) in enumerate(got):
        need(idx == i and pos == starts[i] and c is objs[i], '%s: component %d is reported as %r at %r, expected at %d', when,
             i, idx, pos, starts[i])
        need(c.length == cs[i][1], '%s: component %d has length %r, expected %d', when, i, c.length, cs[i][1])
    if not valid(cs):
        return False
    for t in times_for(cs, extra):
        exp = lookup(cs, t)
        r = tuple(seq.nearest_index_at_time(t))
        need(r == exp, '%s: at %d: component %r, expected %r (components %r at %r)', when, t, r, exp, cs, starts)
        c, p = seq.nearest_component_at_time(t)
        need(c is objs[exp[0]] and p == exp[1], '%s: at %d: another component than its index', when, t)
    return True


def new(f, cid, l):
    o = getattr(f.create, R.KINDS[cid][0])(media_kind='picture')
    m = model_of(cid, l, [])
    m['attributes'] = None
    B.fill(f, o, cid, m, {})
    return o


def timeline(ctx, case):
    cs, edits, extra, src, hold = case
    cs = list(cs)
    models, ids = build_models(cs)
    models.append((b'SEQU', model_of(b'SEQU', 0, ids)))
    doc = L.wrap(models)
    C.set_zone(0)
    if src == 'created':
        f, objs = B.build(doc)
        seq = objs[len(models)]
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        seq = f.read_object(refmap[len(models)])
        keep = [seq.components[i] for i in range(len(cs))] if hold else None
    looked = verify(ctx, seq, cs, extra, 'at first')
    it = seq.positions()
    next(it, None)          # a walk that is never finished must not disturb others
    held = list(seq.components)
    for e in edits:
        how, i, cid, l = e
        if how == 'insert':
            i = i % (len(cs) + 1)
            o = new(f, cid, l)
            held.append(o)
            seq.components.insert(i, o)
            cs.insert(i, (cid, l))
        elif not cs:
            continue
        else:
            i = i % len(cs)
            if how == 'len':
                o = seq.components[i]
                if cs[i][0] == b'SEQU':
                    continue
                o.length = l
                cs[i] = (cs[i][0], l)
            elif how == 'delete':
                del seq.components[i]
                del cs[i]
            elif how == 'move':
                o = seq.components.pop(i)
                seq.components.append(o)
                cs.append(cs.pop(i))
            else:
                o = new(f, cid, l)
                held.append(o)
                seq.components[i] = o
                cs[i] = (cid, l)
        looked = verify(ctx, seq, cs, extra, 'after %r' % (e,)) or looked
    if src == 'loaded':
        p = ctx.path('t.avb')
        f.write(p, 'little')
        g = C.open_bytes(C.read(p))
        os.remove(p)
        verify(ctx, g.content.attributes['o%d' % (len(models) - 1)], cs, extra, 'after reload')
    ctx.label(*[c.decode() for c, l in cs])
    return looked and len(cs) >= 3 and any(c == b'TNFX' or l == 0 for c, l in cs)


EXAMPLES = [
    ('timeline', ([(b'FILL', 10), (b'TNFX', 4), (b'SCLP', 10), (b'SCLP', 1), (b'FILL', 1), (b'SCLP', 5)], [], [], 'loaded', True)),
    ('timeline', ([(b'FILL', 0), (b'FILL', 10), (b'TNFX', 4), (b'FILL', 0), (b'SCLP', 10), (b'FILL', 0)], [], [], 'created', True)),
]

SUBS = [Sub('timeline', cases(), timeline, quick=6000, thorough=100000)]
