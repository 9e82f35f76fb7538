"""Copying to another file reproduces the object and shares nothing with it."""
import datetime
import gc
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.core
import avb.mobid
import gen as G
import refspec as R
import bridge as B
import common as C
import edits as E
import leaves as L
import nav as N
from runner import Sub, Violation, HarnessError

RULE = 'the copied object refers to at least one other object, or at least two edits after the copy were compared'
ASSUMPTIONS = [
    'an object referred to twice may be copied twice: equality is that of the unfolded values',
    'the copied object does not refer back to itself and is not so heavily shared that its unfolding is huge',
]


def tree_size(doc, k, memo=None, limit=400):
    memo = {} if memo is None else memo
    if k not in memo:
        memo[k] = 1 + sum(tree_size(doc, r, memo, limit) for r in R.refs_of(*doc.objs[k]))
    return memo[k]


def acyclic(doc, k):
    state = {}

    def go(x):
        if state.get(x) == 1:
            return False
        if state.get(x) == 2:
            return True
        state[x] = 1
        r = all(go(y) for y in R.refs_of(*doc.objs[x]))
        state[x] = 2
        return r
    return go(k)


def bisim(exp, x0, got, y0, what):
    """same unfolded values"""
    seen = set()
    stack = [(x0, y0, what)]
    while stack:
        x, y, path = stack.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        cx, mx = exp.objs[x]
        cy, my = got.objs[y]
        if cx != cy:
            raise B.Mismatch('%s: %r became %r' % (path, cx, cy))
        mx = OrderedDict((k, v) for k, v in mx.items() if k != '_legacy')
        my = OrderedDict((k, v) for k, v in my.items() if k != '_legacy')
        if set(mx) != set(my):
            raise B.Mismatch('%s: fields differ: missing %s, unexpected %s' % (path, sorted(set(mx) - set(my)),
                                                                              sorted(set(my) - set(mx))))
        rx, ry = [], []
        ax = R.map_refs(cx, B.sort_tracks(mx), lambda r: (rx.append(r), '#')[1])
        ay = R.map_refs(cx, B.sort_tracks(OrderedDict((k, my[k]) for k in mx)), lambda r: (ry.append(r), '#')[1])
        for k in mx:
            B.val_eq(ax[k], ay[k], '%s<%s>.%s' % (path, cx.decode(), k))
        if len(rx) != len(ry):
            raise B.Mismatch('%s: references differ' % path)
        for i, (a, b) in enumerate(zip(rx, ry)):
            stack.append((a, b, (path + '.%d' % i)[-200:]))


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


PARTS = (list, dict, bytearray, avb.mobid.MobID)


def parts(objs):
    """identities of everything changeable inside these library objects"""
    ids = {}

    def walk(v):
        if isinstance(v, PARTS) or hasattr(v, 'property_data'):
            if id(v) in ids:
                return
            ids[id(v)] = v
        if isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif isinstance(v, (list, tuple)):
            for x in list(v):
                walk(x)
        elif hasattr(v, 'property_data'):
            for n in list(v.property_data):
                walk(getattr(v, n))
    for o in objs:
        walk(o)
    return ids


@st.composite
def copy_cases(draw, **kw):
    src = draw(st.sampled_from(['loaded', 'loaded', 'created']))
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False, created=src == 'created'), min_objs=2, max_objs=9, **kw))
    k = draw(st.sampled_from(list(doc.objs)))
    if draw(st.booleans()):
        # prefer something with content
        k = max(doc.objs, key=lambda x: min(tree_size(doc, x), 300) if acyclic(doc, x) and x != doc.root else 0)
    return doc, k, src, draw(st.sampled_from(['empty', 'other', 'self', 'created'])), \
        draw(st.sampled_from(['little', 'big'])), draw(st.lists(st.sampled_from(list(doc.objs)), max_size=4)), draw(st.booleans())


def target(ctx, what, f):
    if what == 'self':
        return f
    if what == 'empty':
        return avb.open()
    doc = L.wrap([(b'FILL', L.full_model(b'FILL')), (b'ATTR', L.full_model(b'ATTR')), (b'CMPO', L.full_model(b'CMPO'))])
    if what == 'other':
        return C.open_bytes(R.encode_file(doc)[0])
    g, objs = B.build(doc)
    return g


def copying(ctx, case):
    doc, k, src, what, order, touch, twice = case
    if not acyclic(doc, k) or tree_size(doc, k) > 300:
        return False
    C.set_zone(doc.last_save)
    if src == 'created':
        f, objs = B.build(doc)
        find = objs.__getitem__
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)

        def find(x):
            return f.read_object(refmap[x])
    for t in touch:
        B.obj_plain(find(t), lambda o: 1)
    g = target(ctx, what, f)
    before = B.snapshot(g)
    keep = list(before.keep)
    try:
        obj = find(k)
        cs = [obj.copy(g)]
        if twice:
            cs.append(obj.copy(g))
        first = None
        for n, c in enumerate(cs):
            s = B.snapshot(g, c)
            bisim(doc, k, s, s.root, 'copy')
            for o in s.keep:
                if o.root is not g:
                    raise Violation('%r of the copy does not belong to the target file' % o.class_id)
            ids = [o.instance_id for o in s.keep] + [o.instance_id for o in keep]
            if len(set(ids)) != len(ids):
                raise Violation('a copied object has the identity of another object of the target file')
            keep += s.keep
            so = B.snapshot(f, obj)
            mine, theirs = parts(s.keep), parts(so.keep)
            for other, name in ((theirs, 'the original'),) + (((first, 'the other copy'),) if first else ()):
                both = [mine[i] for i in set(mine) & set(other)]
                if both:
                    raise Violation('the copy shares %s with %s' % (R.short(both[0]), name))
            if what != 'self' and first is None:
                both = set(mine) & set(parts([f.content]))
                if both:
                    raise Violation('the copy shares %s with the source document' % R.short(mine[both.pop()]))
            first = mine
            # the original is as it was
            bisim(doc, k, so, so.root, 'original')
        # the copy can be saved in the target
        if doc.objs[k][0] in (b'ABIN', b'BINF'):
            g.content = cs[0]
        else:
            if g.content.attributes is None:
                g.content.attributes = g.create.Attributes()
            for i, c in enumerate(cs):
                g.content.attributes['copy %d' % i] = c
        out = ctx.path('out.avb')
        g.write(out, order)
        dec = R.decode_file(C.read(out))
        if doc.objs[k][0] in (b'ABIN', b'BINF'):
            bisim(lock(doc), k, lock(dec), dec.root, 'saved copy')
        else:
            a = dec.objs[dec.objs[dec.root][1]['attributes']][1]['entries']
            for i in range(len(cs)):
                r = [e for e in a if e[0] == 'copy %d' % i][0]
                bisim(lock(doc), k, lock(dec), r[2], 'saved copy')
    finally:
        f.close()
        g.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    ctx.label('kind:' + doc.objs[k][0].decode(), 'target:' + what)
    return tree_size(doc, k) > 1


def lock(doc):
    for c, m in doc.objs.values():
        for t in m.get('tracks') or ():
            t.setdefault('lock_number', 0)
    return doc


# ------------------------------------------------------------------- independence
def unfold(doc, k, limit=25):
    """[(cid, model)] of the tree below k, in order of need, with references as list positions + 1"""
    out = []

    def go(x):
        cid, m = doc.objs[x]
        q = R.map_refs(cid, G.copy_model(m), lambda r: go(r))
        q.pop('_legacy', None)
        out.append((cid, q))
        return len(out)
    go(k)
    return out


inplace = st.integers(0, 1 << 16)


@st.composite
def edit_cases(draw, most=10, kinds=None):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False, created=True), min_objs=2, max_objs=7, kinds=kinds))
    ok = [k for k in doc.objs if k != doc.root and acyclic(doc, k) and tree_size(doc, k) <= 30 and
          doc.objs[k][0] not in (b'ABIN', b'BINF')]
    if not ok:
        return None
    k = max(ok, key=lambda x: tree_size(doc, x)) if draw(st.booleans()) else draw(st.sampled_from(ok))
    models = unfold(doc, k)
    n = len(models)
    A = lock(L.wrap(models, draw(st.sampled_from(['little', 'big']))))
    # only the copied object hangs on the bin
    A.objs[n + 2][1]['entries'][:] = [['o', 3, n]]
    Bd = E.clone(A)
    start = E.clone(A)
    ops = []
    nid = {0: n + 10, 1: n + 10}
    for i in range(draw(st.integers(2, most))):
        side = draw(st.integers(0, 1))
        d = (A, Bd)[side]
        if draw(st.integers(0, 5)) == 0:
            ops.append((side, ('inplace', draw(st.integers(1, n)), draw(inplace))))
            do_inplace(None, d, ops[-1][1])
            continue
        live = [x for x in R.reachable(d) if x <= n]
        op = E.draw_op(draw, d, G.Opts(created=True), only=live or None, next_id=nid[side])
        if op is None:
            continue
        if op[0] == 'new':
            nid[side] += 1
        ops.append((side, op))
        E.apply_model(d, op)
    return draw(st.sampled_from(['loaded', 'created'])), start, n, ops


def do_inplace(objs, doc, op):
    """change something inside a value: a MobID, a byte array, a list"""
    k, pick = op[1:]
    cid, m = doc.objs[k]
    cand = []
    if cid == b'ATTR':
        cand = [('entry', i) for i, e in enumerate(m['entries']) if e[1] == 4]
    else:
        for n, t, o in R.fields(cid):
            if n in m and (isinstance(t, R.MobIDT) or isinstance(t, R.Blob) or
                           isinstance(t, R.Lst) and isinstance(t.elem, R.Blob) or isinstance(t, (R.AvupData,))):
                cand.append((n, t))
    if not cand:
        return
    n, t = cand[pick % len(cand)]
    obj = objs[k] if objs is not None else None
    if n == 'entry':
        e = m['entries'][t]
        if obj is not None:
            obj[e[0]].append(pick & 255)
        e[2] = bytes(e[2]) + bytes([pick & 255])
    elif isinstance(t, R.MobIDT):
        v = bytearray(m[n])
        v[12] = pick & 255
        if obj is not None:
            getattr(obj, n).length = pick & 255
        m[n] = bytes(v)
    elif isinstance(t, R.AvupData) or isinstance(t, R.Blob):
        if obj is not None:
            x = getattr(obj, n)
            if not isinstance(x, bytearray):
                return
            if len(x):
                x[pick % len(x)] ^= 255
        v = bytearray(m[n])
        if len(v):
            v[pick % len(v)] ^= 255
        m[n] = bytes(v)


def independent(ctx, case):
    if case is None:
        return False
    src, doc, n, ops = case
    C.set_zone(doc.last_save)
    A, Bd = E.clone(doc), E.clone(doc)
    if src == 'created':
        f, oa = B.build(A)
    else:
        data, refmap = R.encode_file(A)
        f = C.open_bytes(data)
        oa = {k: f.read_object(refmap[k]) for k in A.objs}
    rest = R.Doc(OrderedDict((k, v) for k, v in Bd.objs.items() if k > n), Bd.root, Bd.order, Bd.last_save, Bd.creator)
    rest.objs[n + 2] = (b'ATTR', OrderedDict(entries=[]))
    g, ob = B.build(rest)
    try:
        c = oa[n].copy(g)
        ob[n + 2]['o'] = c
        snap = B.snapshot(g)
        mp = B.match_docs(Bd, snap, locks_default=True)
        ob = {k: snap.keep[mp[k] - 1] for k in mp}
        done = 0
        for side, op in ops:
            d, o, file = ((A, oa, f), (Bd, ob, g))[side]
            if op[0] == 'inplace':
                do_inplace(o, d, op)
            else:
                E.apply_lib(file, o, d, op)
                E.apply_model(d, op)
            done += 1
        for d, file, name in ((A, f, 'original'), (Bd, g, 'copy')):
            try:
                B.match_docs(d, B.snapshot(file), locks_default=True)
                C.save_check(ctx, file, d, 'little', name + '.avb')
            except B.Mismatch as e:
                raise Violation('the %s was changed by edits of the other: %s' % (name, e))
    finally:
        f.close()
        g.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return done >= 2


# ---------------------------------------------------- copies among edited objects
@st.composite
def edited_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=2, max_objs=9))
    d = E.clone(doc)
    ops = []
    for i in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(list(doc.objs)))
        op = E.draw_op(draw, d, G.Opts(), only=[k])
        if op is None or op[0] not in ('set', 'attr') or R.refs_of(*d.objs[k]):
            continue
        e = E.clone(d)
        E.apply_model(e, op)
        if R.refs_of(*e.objs[k]):
            continue
        ops.append(op)
        d = e
    ks = draw(st.lists(st.sampled_from(list(doc.objs)), min_size=1, max_size=4))
    return doc, ops, ks, draw(st.sampled_from(['reassign', 'reverse', 'extend'])), draw(st.booleans())


def lists_of(o):
    r = [o] if isinstance(o, avb.core.AVBRefList) else []
    for v in (getattr(o, 'property_data', None) or {}).values():
        if isinstance(v, avb.core.AVBRefList):
            r.append(v)
    return r


def among_edited(ctx, case):
    """edits of a loaded document, then copies into it: what is done to the copies' lists leaves the edits alone"""
    doc, ops, ks, how, same = case
    C.set_zone(doc.last_save)
    data, refmap = R.encode_file(doc)
    f, g = C.open_bytes(data), C.open_bytes(data)
    exp = E.clone(doc)
    try:
        for op in ops:
            k = op[1]
            E.apply_lib(g, {k: g.read_object(refmap[k])}, exp, op)
            E.apply_model(exp, op)
        gc.collect()
        copies = []
        n = 0
        for k in ks:
            if not acyclic(doc, k) or tree_size(doc, k) > 100:
                continue
            c = (g if same and not ops else f).read_object(refmap[k]).copy(g)
            copies.append(c)
            for o in B.snapshot(g, c).keep:
                for l in lists_of(o):
                    n += 1
                    if how == 'reassign':
                        l[:] = list(l)
                    elif how == 'reverse':
                        l.reverse()
                    else:
                        l.append(None)
        gc.collect()
        try:
            B.match_docs(exp, B.snapshot(g), locks_default=True)
            C.save_check(ctx, g, exp, 'little', 'e.avb')
            B.match_docs(doc, B.snapshot(f), locks_default=True)
        except B.Mismatch as e:
            raise Violation('the document copied into was changed by edits of the copies: %s' % e)
    finally:
        f.close()
        g.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    ctx.label('lists of copies edited' if n else 'no lists')
    return bool(n and ops)


SUBS = [
    Sub('among_edited', edited_cases(), among_edited, quick=1500),
    Sub('copies', copy_cases(), copying, quick=3500),
    Sub('independence', edit_cases(), independent, quick=2500),
]
