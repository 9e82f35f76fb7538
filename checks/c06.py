"""Lazy loading is order-independent and preserves object identity."""
import gc
import io
import os
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import nav as N
from runner import Sub, Violation

RULE = 'at least four accesses, by at least two different routes, were made before the document was compared as a whole'
ASSUMPTIONS = ['the program does not close or write to the file object while the document is in use']


class Minimal(object):
    """a file object offering only what opening needs"""
    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def readinto(self, b):
        return self._b.readinto(b)

    def seek(self, p, w=0):
        return self._b.seek(p, w)

    def tell(self):
        return self._b.tell()

    def close(self):
        self._b.close()


def opened(path, data, how):
    if how[0] == 'path':
        return avb.open(path), None
    if how[0] == 'buffering':
        return avb.open(path, buffering=how[1]), None
    if how[0] == 'bytesio':
        o = io.BytesIO(data)
    elif how[0] == 'file':
        o = open(path, 'rb')
    elif how[0] == 'raw':
        o = open(path, 'rb', buffering=0)
    elif how[0] == 'update':
        o = open(path, 'r+b')
    else:
        o = Minimal(data)
    return avb.open(o), o


@st.composite
def schedules(draw, most=25, maxlist=3, max_objs=9):
    doc = draw(G.documents(G.Opts(maxlist=maxlist, legacy_ids=False), min_objs=2, max_objs=max_objs))
    ks = list(doc.objs)
    key = st.sampled_from(ks)
    classes = st.lists(st.sampled_from(sorted(set(c for c, m in doc.objs.values()))), max_size=4, unique=True)
    op = st.one_of(
        st.tuples(st.just('ref'), key, st.integers(0, 1), st.booleans()),
        st.tuples(st.just('idx'), key, st.booleans()),
        st.tuples(st.just('enum'), classes),
        st.tuples(st.just('chunks')),
        st.tuples(st.just('next'), st.integers(0, 3), st.integers(1, 3)),
        st.tuples(st.just('next'), st.integers(0, 3), st.integers(1, 3)),
        st.tuples(st.just('iter'), key),
        st.tuples(st.just('mobs')),
        st.tuples(st.just('seek'), st.integers(0, 4000)),
        st.tuples(st.just('drop'), key),
        st.tuples(st.just('gc')),
        st.tuples(st.just('chunk'), st.integers(0, len(ks))),
        st.tuples(st.just('save'), st.sampled_from(['little', 'big'])),
        st.tuples(st.just('all')))
    ops = draw(st.lists(op, min_size=4, max_size=most))
    how = draw(st.one_of(st.sampled_from([('path',), ('bytesio',), ('file',), ('raw',), ('minimal',), ('update',)]),
                         st.tuples(st.just('buffering'), st.sampled_from([0, 16, 61, 512, 8192, 1 << 20]))))
    perm = draw(st.permutations(ks)) if draw(st.booleans()) else ks
    return doc, list(perm), how, ops


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


def run(ctx, case):
    doc, order, how, ops = case
    data, refmap = R.encode_file(doc, order)
    pos = list(R.encode_file.positions)
    path = ctx.path('src.avb')
    with open(path, 'wb') as o:
        o.write(data)
    byidx = {v: k for k, v in refmap.items()}
    f, fo = opened(path, data, how)
    held = {}
    kinds = set()
    n = 0
    gens = []

    def shallow(k, obj):
        cid, m = doc.objs[k]
        if k in held and held[k] is not obj:
            raise Violation('a second object for the same %r while the first is alive' % cid)
        if k == doc.root and obj is not f.content:
            raise Violation('a second root object')
        got = B.obj_plain(obj, lambda x: '#')
        if bytes(got[0]) != cid:
            raise Violation('%r read as %r' % (cid, got[0]))
        B.val_eq({a: b for a, b in R.map_refs(cid, m, lambda r: '#').items() if a != '_legacy'}, got[1], cid.decode())
        for acc, c in N.edges(cid, m):
            if c in held and N.step(obj, acc) is not held[c]:
                raise Violation('%r reached through %r of %r is a second object' % (doc.objs[c][0], acc, cid))

    def one_chunk(i, ch):
        c, p, size = pos[i]
        if (bytes(ch.class_id), ch.pos, ch.size) != (c, p, size):
            raise Violation('chunk %d: %r at %d size %d, expected %r' % (i, ch.class_id, ch.pos, ch.size, pos[i]))
        if i and ch.read() != data[p:p + size]:
            raise Violation('chunk %d: wrong bytes' % i)
    try:
        for op in ops:
            w = op[0]
            if w in ('ref', 'idx'):
                k = op[1]
                obj = N.find(f, doc, k, op[2]) if w == 'ref' else f.read_object(refmap[k])
                shallow(k, obj)
                if op[-1]:
                    held[k] = obj
                del obj
            elif w == 'enum':
                want = [byidx[i] for i in sorted(byidx) if doc.objs[byidx[i]][0] in op[1]]
                gens.append(['obj', f.iter_class_ids(op[1]), want])
            elif w == 'chunks':
                gens.append(['chunk', f.chunks(), list(range(len(pos)))])
            elif w == 'iter':
                cid, m = doc.objs[op[1]]
                for t in R.fields_of_reflists(cid):
                    v = m.get(t)
                    if v is not None:
                        o = f.read_object(refmap[op[1]])
                        gens.append(['elem', iter(o if t == 'entries' else getattr(o, t)), list(v)])
            elif w == 'next':
                if not gens:
                    continue
                g = gens[op[1] % len(gens)]
                for i in range(op[2]):
                    try:
                        x = next(g[1])
                    except StopIteration:
                        if g[2]:
                            raise Violation('enumeration ended early')
                        break
                    if not g[2]:
                        raise Violation('enumeration yields too much')
                    k = g[2].pop(0)
                    if g[0] == 'chunk':
                        one_chunk(k, x)
                    elif k is None:
                        if x is not None:
                            raise Violation('null reference read as %r' % x)
                    else:
                        shallow(k, x)
                    del x
            elif w == 'mobs':
                want = [it['mob'] for it in doc.objs[doc.root][1]['items']]
                got = list(f.content.mobs)
                if len(got) != len(want):
                    raise Violation('mobs')
                for k, o in zip(want, got):
                    if (k is None) != (o is None):
                        raise Violation('null mob')
                    if k is not None:
                        shallow(k, o)
                want, got = [k for k in want if k is not None], [o for o in got if o is not None]
                for k, o in zip(want, got):
                    r = f.content.find_by_mob_id(o.mob_id)
                    same = [b for a, b in zip(want, got) if doc.objs[a][1]['mob_id'] == doc.objs[k][1]['mob_id']]
                    if not any(r is s for s in same):
                        raise Violation('find_by_mob_id gives another object')
                got = o = same = r = None
            elif w == 'seek':
                if fo is not None:
                    fo.seek(op[1])
                    if op[1] & 1:
                        fo.read(7)
                else:
                    continue
            elif w == 'drop':
                held.pop(op[1], None)
            elif w == 'gc':
                gc.collect()
            elif w == 'chunk':
                one_chunk(op[1], f.read_chunk(op[1]))
            elif w == 'save':
                C.save_check(ctx, f, doc, op[1])
            elif w == 'all':
                B.match_docs(doc, B.snapshot(f))
            kinds.add(w)
            n += 1
            ctx.label('access:' + w)
        ctx.label('open:' + how[0])
        B.match_docs(doc, B.snapshot(f))
        for k, o in held.items():
            if N.find(f, doc, k) is not o or f.read_object(refmap[k]) is not o:
                raise Violation('a second object for the same %r while the first is alive' % doc.objs[k][0])
    finally:
        held.clear()
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return n >= 4 and len(kinds) >= 2


SUBS = [
    Sub('schedules', schedules(), run, quick=1800),
    Sub('long_schedules', schedules(most=100), run, quick=160),
]
