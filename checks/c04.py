"""Edits made through the API are exactly what the next save contains."""
import os
from hypothesis import strategies as st
import avb
import datetime
import gen as G
import refspec as R
import bridge as B
import common as C
import edits as E
from runner import Sub

RULE = 'at least three edits took effect and a save after them was decoded and compared'
ASSUMPTIONS = [
    'the program keeps references to the objects it edits (dropping them is property C05)',
    'edits keep the object graph acyclic; value_type of parameters is fixed at creation; references of lists whose '
    'members must exist (sequence components, bin items) are never null',
]

W = G.Opts(created=True)


@st.composite
def histories(draw, most=14, kinds=None, focus=None, maxlist=3, max_objs=6):
    start = draw(st.sampled_from(['loaded', 'loaded', 'created']))
    opts = G.Opts(created=start == 'created', maxlist=maxlist)
    doc0 = draw(G.documents(opts, max_objs=max_objs, min_objs=1, kinds=kinds))
    doc = E.clone(doc0)
    nid = max(doc.objs) + 1
    ops = []
    for i in range(draw(st.integers(3, most))):
        w = draw(st.integers(0, 19))
        if w < 2:
            ops.append(('save', draw(st.sampled_from(['little', 'big']))))
            continue
        if w == 2:
            ops.append(('save', draw(st.sampled_from(['little', 'big']))))
            ops.append(('reload',))
            E.prune(doc)
            continue
        if w == 3:
            ops.append(('header', draw(st.text(alphabet=st.sampled_from(G.MAC_CHARS), max_size=30)), draw(G.stamps)))
            continue
        if w == 4:
            ops.append(('touch', draw(st.sampled_from(list(doc.objs)))))
            continue
        only = [k for k, (c, m) in doc.objs.items() if c in focus] if focus and draw(st.integers(0, 5)) else None
        op = E.draw_op(draw, doc, W, next_id=nid, only=only or None)
        if op is None:
            continue
        if op[0] == 'new':
            nid += 1
        ops.append(op)
        E.apply_model(doc, op)
        if op[0] == 'new':
            # link it somewhere at once, most of the time
            if draw(st.integers(0, 4)):
                link = link_op(draw, doc, op[1], op[2])
                if link:
                    ops.append(link)
                    E.apply_model(doc, link)
    return start, doc0, ops


def link_op(draw, doc, k, cid):
    places = []
    for x, (c, m) in doc.objs.items():
        if x == k:
            continue
        for n, t, o in G.fields(c)[0]:
            if n not in m:
                continue
            if isinstance(t, R.Ref) and cid in R.REFKINDS[t.kind]:
                places.append(('set', x, n, k))
            elif isinstance(t, R.Lst) and isinstance(t.elem, R.Ref) and cid in R.REFKINDS[t.elem.kind]:
                places.append(('list', x, n, 'append', [k]))
            elif n == 'tracks':
                if cid in R.REFKINDS['comp'] and m[n]:
                    places.append(('sub', x, n, 0, 'component', k))
            elif n == 'items' and cid == b'CMPO':
                it = R.zero(R.BinHead.ITEM)
                it['mob'] = k
                places.append(('list', x, n, 'append', [it]))
        if c == b'ATTR':
            places.append(('attr', x, 'set', ['linked', 3, k]))
    bad = {x for x in doc.objs if x in reach_from(doc, k)}
    places = [p for p in places if p[1] not in bad]
    return draw(st.sampled_from(places)) if places else None


def reach_from(doc, k):
    d = R.Doc(doc.objs, k)
    return set(R.reachable(d))


def mapping(doc, f):
    snap = B.snapshot(f)
    mp = B.match_docs(doc, snap, locks_default=True)
    return {k: snap.keep[mp[k] - 1] for k in mp}


def run(ctx, case):
    start, doc0, ops = case
    C.set_zone(doc0.last_save)
    doc = E.clone(doc0)
    n = 0
    path = ctx.path('src.avb')
    if start == 'created':
        f, objs = B.build(doc)
    else:
        with open(path, 'wb') as o:
            o.write(R.encode_file(doc)[0])
        f = avb.open(path)
        objs = mapping(doc, f)
    last = None
    try:
        for i, op in enumerate(ops):
            if op[0] == 'save':
                last = ctx.path('s%d.avb' % i)
                C.save_check(ctx, f, doc, op[1], 's%d.avb' % i)
            elif op[0] == 'reload':
                f.close()
                f = avb.open(last)
                E.prune(doc)
                objs = mapping(doc, f)
            elif op[0] == 'header':
                f.creator_version, f.last_save = op[1], datetime.datetime.fromtimestamp(op[2])
                doc.creator, doc.last_save = op[1], op[2]
            else:
                E.apply_lib(f, objs, doc, op)
                E.apply_model(doc, op)
                ctx.label('edit:%s' % op[0] + (':' + op[3] if op[0] == 'list' else ':' + op[2] if op[0] == 'attr' else ''))
                n += op[0] != 'touch'
        for order in ('little', 'big'):
            C.save_check(ctx, f, doc, order, 'end.avb')
        with avb.open(ctx.path('end.avb')) as g:
            B.match_docs(doc, B.snapshot(g), locks_default=True)
        B.match_docs(doc, B.snapshot(f), locks_default=True)
    finally:
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return n >= 3


LK = [b'SEQU', b'FILL', b'FILL', b'SCLP', b'PRLS', b'PRIT', b'PRIT', b'TMCS', b'TMBC', b'TMBC', b'MULD', b'PCMA', b'PCMA',
      b'TKDS', b'TKDA', b'TKPS', b'TKPA']
SUBS = [
    Sub('histories', histories(), run, quick=1600),
    Sub('long_histories', histories(most=50), run, quick=160),
    Sub('lists', histories(most=10, kinds=LK, focus=[b'SEQU', b'PRLS', b'TMCS', b'MULD', b'TKDS', b'TKDA', b'TKPS'],
                           maxlist=5, max_objs=10), run, quick=900),
    Sub('mobs', histories(kinds=[b'CMPO', b'SEQU', b'SCLP', b'FILL', b'ATTR', b'TMBC', b'TMCS', b'PRLS', b'PRIT',
                                 b'PRCL', b'SLCT', b'TNFX', b'MULD', b'CDCI', b'TKDA', b'TKDS']), run, quick=900),
]
