"""A saved file is well-formed and encodes exactly the in-memory document."""
import random
from hypothesis import strategies as st
import gen as G
import refspec as R
import bridge as B
import common as C
from runner import Sub

RULE = 'the document holds at least one object besides the root, and the saved file was decoded by the strict reference decoder'
ASSUMPTIONS = [
    'reference decoder lib/refspec.py, independent of the library',
    'a track without a lock number may be stored with lock number 0',
    'of a creator text longer than 30 characters the first 30 are stored',
    'documents are acyclic object graphs (the library cannot save reference cycles)',
]


def created(ctx, case):
    doc, order, made = case
    C.set_zone(doc.last_save)
    f, objs = B.build(doc)
    with f:
        doc = by(f, doc, made)
        C.save_check(ctx, f, doc, order)
    label(ctx, doc, order)
    return len(doc.objs) > 1


def loaded(ctx, case):
    """loaded from a file that also holds objects nothing refers to, in any file order"""
    doc, order, seed, extra, made = case
    C.set_zone(doc.last_save)
    rnd = random.Random(seed)
    big = R.Doc(type(doc.objs)(doc.objs), doc.root, doc.order, doc.last_save, doc.creator)
    top = max(doc.objs)
    for i, (cid, m) in enumerate(extra):
        big.objs[top + 1 + i] = (cid, m)
    ids = list(big.objs)
    rnd.shuffle(ids)
    data, refmap = R.encode_file(big, ids, noise=lambda n: bytes(rnd.randrange(256) for i in range(n)))
    with C.open_bytes(data) as f:
        doc = by(f, doc, made)
        C.save_check(ctx, f, doc, order)
    label(ctx, doc, order)
    return len(doc.objs) > 1


def by(f, doc, made):
    """the program names itself: the header has room for 30 characters of it"""
    if made is None:
        return doc
    f.creator_version = made
    return R.Doc(doc.objs, doc.root, doc.order, doc.last_save, made[:30])


def label(ctx, doc, order):
    for cid, m in doc.objs.values():
        ctx.label('kind:' + cid.decode(), 'order:' + order)
        for g in R.groups(cid):
            ctx.label('opt:%s.%s:%s' % (cid.decode(), g[0], g[0] in m))


@st.composite
def orphans(draw):
    r = []
    for i in range(draw(st.integers(0, 3))):
        cid = draw(st.sampled_from([b'ATTR', b'FILL', b'SCLP', b'TMBC', b'CMPO']))
        r.append((cid, G.draw_object(draw, cid, G.Pool(), G.Opts())))
    return r


@st.composite
def layers(draw):
    """every object is referred to several times by the next ones: few objects, very many paths"""
    n = draw(st.integers(2, 45))
    times = draw(st.integers(2, 3))
    back = draw(st.integers(0, 2))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    kinds = draw(st.sampled_from([['attr'], ['sequ'], ['prls'], ['attr', 'sequ', 'prls']]))
    objs, attrs, comps, last = {}, [None], [], []

    def new(cid, **kw):
        m = R.zero_model(cid)
        m.update(kw)
        k = len(objs) + 1
        objs[k] = (cid, m)
        return k

    def some(pool):
        r = [pool[-1]] * times + [pool[rnd.randrange(max(0, len(pool) - 5), len(pool))] for i in range(back)]
        rnd.shuffle(r)
        return r
    comps.append(new(b'FILL'))
    last.append(comps[-1])
    for i in range(n):
        k = kinds[i % len(kinds)]
        if k == 'attr':
            attrs.append(new(b'ATTR', entries=[['n%d' % j, 3, x] for j, x in enumerate(some(last))]))
            last.append(attrs[-1])
        elif k == 'sequ':
            comps.append(new(b'SEQU', components=some(comps), attributes=attrs[-1]))
            last.append(comps[-1])
        else:
            item = new(b'PRIT', value_type=4, value=last[-1])
            last.append(new(b'PRLS', entries=[item] * times))
    view = new(b'BVst')
    top = new(b'ATTR', entries=[['a', 3, last[-1]], ['b', 3, comps[-1]]])
    root = new(draw(st.sampled_from([b'ABIN', b'BINF'])), attributes=top, view_setting=view)
    return R.Doc(objs, root, draw(orders), 1500000000, 'x')


def shared(ctx, case):
    doc, order, load = case
    C.set_zone(0)
    if load:
        f = C.open_bytes(R.encode_file(doc)[0])
    else:
        f = B.build(doc)[0]
    with f:
        C.save_check(ctx, f, doc, order)
    ctx.label('layers:%d+' % (len(doc.objs) // 20 * 20))
    return len(doc.objs) > 5


orders = st.sampled_from(['little', 'big'])
makers = st.one_of(st.none(), st.none(), st.text(st.sampled_from(G.MAC_CHARS), min_size=28, max_size=70))
CR = G.Opts(created=True)
SUBS = [
    Sub('created', st.tuples(G.documents(CR), orders, makers), created, quick=1400),
    Sub('created_kind', st.tuples(G.kind_documents(CR), orders, makers), created, quick=2000),
    Sub('created_long', st.tuples(G.long_documents(CR, max_objs=5), orders, makers), created, quick=300),
    Sub('loaded', st.tuples(G.documents(G.Opts()), orders, st.integers(0, 10 ** 6), orphans(), makers), loaded, quick=1000),
    Sub('loaded_kind', st.tuples(G.kind_documents(G.Opts()), orders, st.integers(0, 10 ** 6), st.just([]), makers), loaded,
        quick=1400),
    Sub('shared', st.tuples(layers(), orders, st.booleans()), shared, quick=160),
]
