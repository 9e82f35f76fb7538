"""The native readers give the same document as the reference readers."""
import os
import random
from hypothesis import strategies as st
import gen as G
import refspec as R
import common as C
import leaves as L
import extlib as X
from runner import Sub, Violation, HarnessError

RULE = 'at least three objects of natively read classes with optional or repeated parts, and, where edits are made, at least two of them accepted'
ASSUMPTIONS = [
    'the native readers run under PyPy 3.9, the only interpreter here they build for',
    'the order in which a save stores the objects is not compared: it follows the order of the properties in memory',
]
SHARED = {}
BUDGET = {'quick': 330, 'thorough': 3300}
AS_LIMIT = 16 << 30
NATIVE = [b'CMPO', b'TKFX', b'MDES', b'DIDD', b'CDCI', b'SLCT', b'SEQU', b'FILL', b'SCLP', b'PRCL', b'PRIT', b'TRKR', b'FXPS', b'ATTR']
SERVER = None


def setup(ctx):
    SHARED['src'] = X.build(os.path.join(ctx.scratch, 'native'))


def worker_setup(ctx):
    global SERVER
    SERVER = X.Server(SHARED['src'], ctx.scratch)


def worker_teardown(ctx):
    if SERVER:
        SERVER.stop()


ops = st.tuples(st.sampled_from(['edit'] * 9 + ['list'] * 6 + ['root', 'copy', 'query', 'query', 'save', 'drop', 'drop', 'drop']), st.integers(0, 200), st.integers(0, 60),
                st.integers(0, 40), st.integers(0, 400))
seqs = st.lists(ops, max_size=8)
orders = st.sampled_from(['little', 'little', 'little', 'big'])


def encode(doc, seed):
    rnd = random.Random(seed)
    ids = list(doc.objs)
    if seed & 1:
        rnd.shuffle(ids)
    return R.encode_file(doc, ids, noise=lambda n: bytes(rnd.randrange(256) for i in range(n)),
                         ext_order=(lambda g: rnd.sample(g, len(g))) if seed & 4 else None)[0]


def same(a, b):
    """the two saved files hold the same document"""
    if a == b:
        return
    da, db = R.decode_file(a), R.decode_file(b)
    d = R.diff_docs(db, da)
    if d:
        raise Violation('saved files differ from those of the reference readers: %s' % (d,))
    if da.last_save != db.last_save or da.creator != db.creator or da.order != db.order:
        raise Violation('the headers of the saved files differ')


def ask(ctx, data, edits, order, zone=None):
    if zone:
        SERVER.ask(('zone', zone))
    r = SERVER.ask(('diff', data, list(edits), order))
    if r[0] == 'bad':
        raise Violation(r[1])
    ok, saves, stats = r
    for a, b in saves:
        same(a, b)
    if saves:
        ctx.label('saved')
    ctx.label('edits accepted: %s' % ('none' if not stats['edits'] else '1' if stats['edits'] == 1 else '2 or more'))
    for c in stats['native']:
        ctx.label('native:' + c.decode())
    return stats


def rich(doc):
    """objects of native classes with something optional or repeated in them"""
    n = 0
    for cid, m in doc.objs.values():
        if cid in NATIVE:
            if len(m) > 6 or any(isinstance(v, list) and v for v in m.values()):
                n += 1
    return n


def nontrivial(doc, edits, stats):
    return rich(doc) >= min(3, len([1 for c, m in doc.objs.values() if c in NATIVE]) or 3) and (not edits or stats['edits'] >= min(2, len(edits)))


@st.composite
def doc_cases(draw, docs):
    doc = draw(docs)
    doc.order = draw(orders)
    return doc, draw(seqs), draw(st.sampled_from(['little', 'big'])), \
        draw(st.sampled_from([None] * 6 + ['UTC', 'America/New_York', 'Europe/Lisbon'])), draw(st.integers(0, 255))


def docs(ctx, case):
    """read, edit and save the same file with both readers"""
    doc, edits, order, zone, seed = case
    data = encode(doc, seed)
    stats = ask(ctx, data, edits, order, zone)
    return nontrivial(doc, edits, stats)


# ------------------------------------------------------ every field, every boundary
KEYS = [(c, vt) for c in NATIVE for vt in ((1, 2, 4) if c in (b'PRCL', b'PRIT') else (1,))]
LEAVES = []
for _c, _v in KEYS:
    for _l in L.leaves(_c, L.full_model(_c, _v)):
        if G.scalar(_l[1]) is not None and _l[0][-1] not in ('type', 'value_type') and _l[0][:1] != ('entries',):
            LEAVES.append((_c, _v, _l[0], _l[1]))


@st.composite
def leaf_cases(draw):
    c, v, path, t = LEAVES[draw(st.integers(0, len(LEAVES) - 1))]
    val = draw(G.scalar(t))
    return c, v, path, val, draw(st.booleans())


def leaf(ctx, case):
    """one value of one kind takes any value of its type"""
    c, v, path, val, save = case
    m = L.full_model(c, v)
    L.put(m, path, val)
    if c == b'SLCT':
        m['selected'] = min(m['selected'], len(m['tracks']) - 1)
    doc = L.wrap([(c, m)])
    data, refs = R.encode_file(doc)
    ask(ctx, data, [('save', 0, 0, 0, 0)] if save else [], 'little')
    ctx.label('leaf:%s' % c.decode())
    return True


_long = G.long_documents(G.Opts(), max_cost=40000, kinds=NATIVE, max_objs=3, min_objs=1, orders=('little',))
SUBS = [
    Sub('native', doc_cases(G.documents(G.Opts(), kinds=NATIVE, min_objs=1, max_objs=8)), docs, 2600, 60000),
    Sub('kinds', doc_cases(G.kind_documents(G.Opts(), kinds=NATIVE)), docs, 2000, 50000),
    Sub('mixed', doc_cases(G.documents(G.Opts(), min_objs=1)), docs, 700, 15000),
    Sub('leaves', leaf_cases(), leaf, 2600, 60000),
    Sub('samples', doc_cases(G.sample_documents(G.Opts())), docs, 160, 2500),
    Sub('long', doc_cases(_long), docs, 120, 2500),
]
EXAMPLES = [('leaves', (c, v, p, L.get(L.full_model(c, v), p), True)) for c, v, p, t in LEAVES[::7]]
