"""Chunk and class enumeration is complete, exact and in file order."""
import gc
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import nav as N
from runner import Sub, Violation

RULE = 'the file holds at least three objects and an enumeration by class yielded an object; in in_turns: the file was used otherwise while an enumeration was under way'
ASSUMPTIONS = ['the program does not write to or close the file object while enumerating',
               'classes the library does not know are enumerated as chunks only; asking for them by class is refused']


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


UNKNOWN = [b'ZZZZ', b'CLIP', b'    ', b'\0\0\0\0', b'abcd', b'TNMC', b'NIBA', b'AAAA', b'\xff\xfe\xfd\xfc']


@st.composite
def cases(draw, max_objs=8):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=2, max_objs=max_objs))
    full = OrderedDict(doc.objs)
    nid = max(full) + 1
    for i in range(draw(st.integers(0, 4))):     # stored objects nothing refers to
        if draw(st.booleans()):
            cid = draw(st.sampled_from(UNKNOWN))
            full[nid] = (cid, draw(st.sampled_from([b'', b'\3', b'\2\1\3', b'ABCDOBJD\0\0\0\1', draw(G.blobs)])))
        else:
            k = draw(st.sampled_from(list(doc.objs)))
            full[nid] = full[k]
        nid += 1
    order = list(draw(st.permutations(list(full))))
    known = sorted(set(c for c, m in full.values() if not isinstance(m, bytes)))
    absent = [c for c in R.ALLKINDS if c not in known]
    sets = draw(st.lists(st.tuples(
        st.lists(st.one_of(st.sampled_from(known), st.sampled_from(known), st.sampled_from(absent)), max_size=5),
        st.sampled_from(['list', 'tuple', 'set', 'frozenset', 'dict'])), min_size=1, max_size=4))
    edits = draw(st.lists(st.sampled_from(['save', 'new', 'gc', 'seek', 'partial', 'hold']), max_size=4))
    return doc, full, order, sets, edits, draw(st.sampled_from(['path', 'bytes', 'buf0', 'buf9']))


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


def enum_chunks(f, data, pos, forward=True):
    got = list(f.chunks())
    need(len(got) == len(pos), '%d chunks enumerated, the file has %d', len(got), len(pos))
    seq = list(enumerate(got))
    if not forward:
        seq.reverse()
    for i, ch in seq:
        c, p, size = pos[i]
        need(bytes(ch.class_id) == c, 'chunk %d has class %r, expected %r', i, ch.class_id, c)
        need((ch.pos, ch.size) == (p, size), 'chunk %d: %r+%r, expected %r+%r', i, ch.pos, ch.size, p, size)
        need(bytes(ch.read()) == data[p:p + size], 'chunk %d: other bytes', i)
        need(bytes(ch.read()) == data[p:p + size], 'chunk %d: other bytes the second time', i)


def run(ctx, case):
    doc, full, order, sets, edits, how = case
    data, refmap = R.encode_file(R.Doc(full, doc.root, doc.order, doc.last_save, doc.creator), order)
    pos = list(R.encode_file.positions)
    path = ctx.path('s.avb')
    with open(path, 'wb') as o:
        o.write(data)
    if how == 'bytes':
        f = C.open_bytes(data)
    else:
        f = avb.open(path, **{'path': {}, 'buf0': dict(buffering=0), 'buf9': dict(buffering=9)}[how])
    byidx = {v: k for k, v in refmap.items()}
    yielded = 0
    keep = []
    try:
        enum_chunks(f, data, pos)
        for i, (classes, form) in enumerate(sets):
            arg = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
                   'dict': dict.fromkeys}[form](classes)
            want = [j for j in range(1, len(pos)) if pos[j][0] in classes]
            got = list(f.iter_class_ids(arg))
            need([bytes(o.class_id) for o in got] == [pos[j][0] for j in want], 'enumerating %r: %r, expected %r',
                 classes, [o.class_id for o in got], [pos[j][0] for j in want])
            for j, o in zip(want, got):
                k = byidx[j]
                need(f.read_object(j) is o, 'object %d is another object', j)
                p = B.obj_plain(o, lambda x: '#')
                m = R.map_refs(full[k][0], full[k][1], lambda r: '#')
                B.val_eq({a: b for a, b in m.items() if a != '_legacy'}, p[1], pos[j][0].decode())
                # the objects it refers to are the enumerated ones too
                for acc, c in N.edges(*full[k]):
                    need(N.step(o, acc) is f.read_object(refmap[c]), 'reference of object %d leads elsewhere', j)
                if k in doc.objs:
                    need(N.find(f, doc, k) is o, 'object %d reached through references is another object', j)
                yielded += 1
            again = list(f.iter_class_ids(arg))
            need(len(again) == len(got) and all(a is b for a, b in zip(again, got)), 'a second enumeration differs')
            ctx.label('form:' + form)
            if i < len(edits):
                e = edits[i]
                ctx.label('between:' + e)
                if e == 'save':
                    f.write(ctx.path('out.avb'), 'little' if doc.order == 'big' else 'big')
                elif e == 'new':
                    m = f.create.Composition(mob_type='MasterMob')
                    t = f.create.Track()
                    t.component = f.create.Filler(media_kind='picture', edit_rate=25)
                    m.tracks.append(t)
                    keep.append(m)
                elif e == 'gc':
                    got = again = o = None
                    gc.collect()
                elif e == 'seek' and how == 'bytes':
                    f.f.seek(3)
                elif e == 'partial':
                    g = f.iter_class_ids(arg)
                    next(g, None)
                    h = f.chunks()
                    next(h)
                    keep.append((g, h))
                elif e == 'hold':
                    keep.append(got)
            enum_chunks(f, data, pos, forward=bool(i & 1))
        # a saved file, opened again, enumerates as an independent decoder sees it
        out = ctx.path('o2.avb')
        f.write(out, doc.order)
        d2 = C.read(out)
        dec = R.decode_file(d2)
        with avb.open(out) as g:
            enum_chunks(g, d2, dec.positions)
            for c in sorted(set(x[0] for x in dec.positions[1:])):
                need([o.instance_id for o in g.iter_class_ids([c])] ==
                     [j for j in range(1, len(dec.positions)) if dec.positions[j][0] == c],
                     'enumerating %r of the saved file', c)
    finally:
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return len(pos) > 3 and yielded > 0


# ------------------------------------------ enumerations advanced in turns
@st.composite
def turns(draw):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=3, max_objs=8))
    order = list(draw(st.permutations(list(doc.objs))))
    known = sorted(set(c for c, m in doc.objs.values()))
    gens = draw(st.lists(st.one_of(st.none(), st.lists(st.sampled_from(known), min_size=1, max_size=4)), min_size=1,
                         max_size=3))
    step = st.one_of(st.tuples(st.just('next'), st.integers(0, 2)), st.tuples(st.just('next'), st.integers(0, 2)),
                     st.tuples(st.sampled_from(['bytes', 'object', 'seek', 'content', 'save', 'chunk']),
                               st.integers(0, 40)))
    return doc, order, gens, draw(st.lists(step, min_size=6, max_size=50)), draw(st.sampled_from(['path', 'bytes', 'buf0']))


def in_turns(ctx, case):
    """several enumerations under way at once, and the file used in between"""
    doc, order, gens, steps, how = case
    data, refmap = R.encode_file(doc, order)
    pos = list(R.encode_file.positions)
    path = ctx.path('s.avb')
    with open(path, 'wb') as o:
        o.write(data)
    f = C.open_bytes(data) if how == 'bytes' else avb.open(path, **(dict(buffering=0) if how == 'buf0' else {}))
    seen = []

    def check_chunk(i, ch):
        c, p, size = pos[i]
        need((bytes(ch.class_id), ch.pos, ch.size) == (c, p, size), 'chunk %d is %r at %r+%r, expected %r at %r+%r', i,
             ch.class_id, ch.pos, ch.size, c, p, size)

    def check_object(j, o):
        need(bytes(o.class_id) == pos[j][0], 'object %d has class %r, expected %r', j, o.class_id, pos[j][0])
        need(f.read_object(j) is o, 'object %d is another object', j)

    run = []
    for g in gens:
        want = list(range(len(pos))) if g is None else [j for j in range(1, len(pos)) if pos[j][0] in g]
        run.append([f.chunks() if g is None else f.iter_class_ids(g), g, want, 0, False])

    def advance(r):
        it, g, want, n, done = r
        if done:
            return
        x = next(it, None)
        if x is None:
            need(n == len(want), 'the enumeration ended after %d of %d', n, len(want))
            r[4] = True
            return
        need(n < len(want), 'more than %d enumerated', len(want))
        if g is None:
            check_chunk(want[n], x)
            seen.append((want[n], x))
        else:
            check_object(want[n], x)
        r[3] += 1

    mixed = False
    try:
        for s, a in steps:
            ctx.label('turn:' + s)
            if s == 'next':
                advance(run[a % len(run)])
                continue
            mixed = mixed or any(r[3] and not r[4] for r in run)
            if s == 'bytes' and seen:
                i, ch = seen[a % len(seen)]
                need(bytes(ch.read()) == data[pos[i][1]:pos[i][1] + pos[i][2]], 'chunk %d: other bytes', i)
                check_chunk(i, ch)
            elif s == 'object':
                j = 1 + a % (len(pos) - 1)
                check_object(j, f.read_object(j))
            elif s == 'chunk':
                i = a % len(pos)
                check_chunk(i, f.read_chunk(i))
            elif s == 'seek':
                f.f.seek(a * 7)
            elif s == 'content':
                need(bytes(f.content.class_id) == doc.objs[doc.root][0], 'the root object is %r', f.content)
            elif s == 'save':
                f.write(ctx.path('o.avb'), doc.order)
        for r in run:
            while not r[4]:
                advance(r)
        for i, ch in seen:
            check_chunk(i, ch)
            need(bytes(ch.read()) == data[pos[i][1]:pos[i][1] + pos[i][2]], 'chunk %d: other bytes', i)
    finally:
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return mixed


@st.composite
def sample_cases(draw):
    p = draw(st.sampled_from(G.sample_paths() + G.sample_paths(False)))
    return p, draw(st.sampled_from(['path', 'buf0', 'bytes'])), draw(st.lists(st.sampled_from(R.ALLKINDS), max_size=6)), \
        draw(st.integers(0, 3))


def samples(ctx, case):
    p, how, classes, prefetch = case
    data = C.read(p)
    if p not in SAMPLE:
        SAMPLE[p] = R.decode_file(data)
    dec = SAMPLE[p]
    f = C.open_bytes(data) if how == 'bytes' else avb.open(p, **(dict(buffering=0) if how == 'buf0' else {}))
    with f:
        held = [o for o in f.iter_class_ids(classes[:prefetch])]
        enum_chunks(f, data, dec.positions)
        got = list(f.iter_class_ids(classes))
        want = [j for j in range(1, len(dec.positions)) if dec.positions[j][0] in classes]
        need([o.instance_id for o in got] == want, 'enumerating %r of %s', classes, os.path.basename(p))
        for j, o in zip(want, got):
            c, m = dec.objs[j]
            pl = B.obj_plain(o, lambda x: '#')
            m = R.map_refs(c, m, lambda r: '#')
            B.val_eq({a: b for a, b in m.items() if a != '_legacy'}, pl[1], c.decode())
        del held
    return len(got) > 0


SAMPLE = {}

SUBS = [
    Sub('enumerations', cases(), run, quick=2000),
    Sub('many_objects', cases(max_objs=40), run, quick=150),
    Sub('in_turns', turns(), in_turns, quick=1500),
    Sub('samples', sample_cases(), samples, quick=120),
]
