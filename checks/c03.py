"""Load-save-load preserves the whole document and re-saving is a fixed point."""
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
from runner import Sub, Violation

RULE = 'at least two saves were made of a document with at least one object besides the root'
ASSUMPTIONS = [
    'values the writers cannot store again are outside the domain: rates needing more than six decimals or 32 bits, '
    'times with fractions of a second, creator text beyond 30 bytes',
    'a track without a lock number may come back with lock number 0',
    'byte-for-byte fixed point is asked of files whose optional fields are in the format\'s usual order',
]


def run(ctx, case):
    doc, steps = case
    C.set_zone(doc.last_save)
    data, refmap = R.encode_file(doc)
    src = ctx.path('src.avb')
    with open(src, 'wb') as o:
        o.write(data)
    f = avb.open(src)
    saved = {}
    saves = 0
    fresh = True      # f was opened from the generated bytes, not from one of our saves
    cur = src
    try:
        for i, step in enumerate(steps):
            if step[0] == 'save':
                order = step[1]
                before = B.snapshot(f) if step[2] else None
                out = C.save_check(ctx, f, doc, order, 'out%d.avb' % i)
                saves += 1
                if not fresh:
                    if order in saved and saved[order] != out:
                        raise Violation('saving again in %s byte order gives other bytes (first difference at %d)' % (
                            order, next((j for j, (a, b) in enumerate(zip(saved[order], out)) if a != b),
                                        min(len(out), len(saved[order])))))
                saved.setdefault(order, out)
                if before is not None:
                    B.match_docs(doc, B.snapshot(f), locks_default=False if fresh else True)
                    now = B.snapshot(f)
                    if [(k, v[0]) for k, v in before.objs.items()] != [(k, v[0]) for k, v in now.objs.items()]:
                        raise Violation('saving changed the document in memory')
                    for k in before.objs:
                        if before.objs[k] != now.objs[k] and repr(before.objs[k]) != repr(now.objs[k]):
                            raise Violation('saving changed %r in memory: %s -> %s' % (
                                before.objs[k][0], R.short(before.objs[k][1]), R.short(now.objs[k][1])))
                last = (ctx.path('out%d.avb' % i), order)
            elif step[0] == 'reload':
                if not saved:
                    continue
                f.close()
                f = avb.open(last[0])
                fresh = False
                # what is in memory now equals the document
                B.match_docs(doc, B.snapshot(f), locks_default=True)
        if C.read(src) != data:
            raise Violation('the source file changed')
    finally:
        f.close()
        for n in os.listdir(ctx.scratch):
            if n.endswith('.avb'):
                os.remove(ctx.path(n))
    for cid, m in doc.objs.values():
        ctx.label('kind:' + cid.decode())
    ctx.label('saves:%d' % saves)
    return saves > 1 and len(doc.objs) > 1


orders = st.sampled_from(['little', 'big'])


@st.composite
def steps(draw, most=6):
    r = [('save', draw(orders), draw(st.booleans())), ('reload',), ('save', draw(orders), draw(st.booleans()))]
    for i in range(draw(st.integers(0, most - 3))):
        r.append(draw(st.sampled_from([('reload',), ('save', 'little', False), ('save', 'big', False),
                                       ('save', 'little', True)])))
    o = r[0][1]
    return r + [('save', o, False)]


W = G.Opts()


LEGACY = [b'SCLP', b'CMPO', b'MSML', b'APOS', b'ABOB', b'DIDP', b'MPGP', b'MCMR', b'TMBC']


def around(cid, m):
    """a bin whose attributes hold one object"""
    bv = R.zero_model(b'ABIN')
    bv['attributes'] = 2
    return R.Doc(OrderedDict([(1, (cid, m)), (2, (b'ATTR', OrderedDict(entries=[['o', 3, 1]]))), (3, (b'ABIN', bv))]),
                 3, 'little', 1000000000, 'x')


def legacy_probe(ctx):
    for cid in LEGACY:
        m = R.zero_model(cid, False)
        m['_legacy'] = (1, 2)
        doc = around(cid, m)
        with C.open_bytes(R.encode_file(doc)[0]) as f:
            C.save_check(ctx, f, doc, 'little')


PROBES = [('legacy-identifiers', legacy_probe)]


def legacy(ctx, case):
    """objects that carry only the old two-word identifier: known finding, saving them is refused;
    anything else than that one refusal is still a violation"""
    doc, order = case
    lacks = [cid for cid, m in doc.objs.values() if cid in LEGACY and 'mob_id' not in m]
    with C.open_bytes(R.encode_file(doc)[0]) as f:
        try:
            C.save_check(ctx, f, doc, order)
        except AttributeError as e:
            if not lacks or 'mob_id' not in str(e):
                raise
            ctx.label('legacy refused')
        B.match_docs(doc, B.snapshot(f))
    return bool(lacks)


SUBS = [
    Sub('documents', st.tuples(G.documents(W), steps()), run, quick=900),
    Sub('each_kind', st.tuples(G.kind_documents(W), steps()), run, quick=1400),
    Sub('samples', st.tuples(G.sample_documents(W), steps(4)), run, quick=48),
    Sub('legacy', st.tuples(G.kind_documents(G.Opts(legacy_ids=True), LEGACY), orders), legacy, quick=200),
    Sub('long', st.tuples(G.long_documents(W, max_objs=5), steps(4)), run, quick=160),
]
EXAMPLES = [('samples', (G.sample_doc(p), [('save', 'big', True), ('reload',), ('save', 'little', False), ('reload',),
                                           ('save', 'little', False)])) for p in G.sample_paths(False)]
