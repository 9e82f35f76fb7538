"""An edit survives dropping every reference to the edited object; reading is not an edit."""
import gc
import os
import weakref
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import edits as E
import leaves as L
import nav as N
from c04 import link_op
from runner import Sub, Violation

RULE = 'at least two edits were made to objects other than the root, each found again from the root and dropped at once'
ASSUMPTIONS = [
    'edits inside plain Python values an object holds (helper objects such as tracks and control points, ordinary '
    'lists, byte arrays) are the known findings; edits of fields, reference lists and attribute sets are covered',
]
OV = {(b'CMPO', 'mob_type_id'): st.sampled_from([1, 2, 3])}      # printing a mob of unknown type is refused
W = G.Opts(created=True, overrides=OV)


@st.composite
def histories(draw, most=12, kinds=None, focus=None, maxlist=3, max_objs=8, back=4):
    doc0 = draw(G.documents(G.Opts(maxlist=maxlist, overrides=OV), max_objs=max_objs, min_objs=2, kinds=kinds))
    doc = E.clone(doc0)
    nid = max(doc.objs) + 1
    ops = []
    for i in range(draw(st.integers(2, most))):
        w = draw(st.integers(0, 23))
        if w == 0:
            ops.append(('save', draw(st.sampled_from(['little', 'big']))))
            continue
        if w == 1:
            ops.append(('save', draw(st.sampled_from(['little', 'big']))))
            ops.append(('reload',))
            continue
        if w in (2, 3):
            ops.append(('collect',))
            continue
        if w in (4, 5, 6):
            ops.append(('touch', draw(st.sampled_from(list(doc.objs)))))
            continue
        only = [k for k, (c, m) in doc.objs.items() if c in focus] if focus and draw(st.integers(0, 5)) else \
            [k for k in doc.objs if k != doc.root] if draw(st.integers(0, 3)) else None
        via = draw(st.integers(0, back)) == 0
        op = E.draw_op(draw, doc, W, next_id=nid, only=only or None, helpers=via)
        if op is None or op[0] == 'set' and op[2] == 'mob_type_id' and op[3] not in (1, 2, 3):
            continue
        if via and op[0] in ('sub', 'item', 'list') and doc.objs[op[1]][0] not in E.LISTS:
            # changed in place, then assigned back
            ops.append(('via', op, draw(st.booleans())))
            E.apply_model(doc, op)
            E.prune(doc)
            continue
        if op[0] == 'new':
            E.apply_model(doc, op)
            nid += 1
            link = link_op(draw, doc, op[1], op[2])
            if link and link[0] in ('sub',) or link and link[0] == 'list' and link[2] in ('items', 'tracks'):
                link = None
            if link is None:
                del doc.objs[op[1]]
                continue
            ops.append(op)
            ops.append(link)
            E.apply_model(doc, link)
        else:
            ops.append(op)
            E.apply_model(doc, op)
        E.prune(doc)
    return doc0, ops, draw(st.integers(0, 1))


def assign_back(f, nav, doc, op, copied):
    """the value of a field is changed in place, and the field is assigned it, or a copy of it"""
    k, name = op[1], op[2]
    obj = nav[k]
    E.apply_lib(f, {k: obj} if op[0] == 'item' else Held(nav, k, obj), doc, op)
    v = getattr(obj, name)
    if copied and type(v) in (list, bytearray):
        v = v[:]
    setattr(obj, name, v)


class Held(object):
    def __init__(self, nav, k, obj):
        self.nav, self.k, self.obj = nav, k, obj

    def __getitem__(self, k):
        return self.obj if k == self.k else self.nav[k]

    def __contains__(self, k):
        return True


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


def run(ctx, case):
    doc0, ops, pick = case
    doc = E.clone(doc0)
    path = ctx.path('src.avb')
    with open(path, 'wb') as o:
        o.write(R.encode_file(doc)[0])
    f = avb.open(path)
    nav = N.Nav(f, doc, pick)
    n = 0
    last = None
    try:
        for i, op in enumerate(ops):
            if op[0] == 'save':
                last = ctx.path('s%d.avb' % i)
                C.save_check(ctx, f, doc, op[1], 's%d.avb' % i)
            elif op[0] == 'reload':
                f.close()
                f = avb.open(last)
                nav = N.Nav(f, doc, pick)
            elif op[0] == 'collect':
                gc.collect()
            elif op[0] == 'touch':
                if op[1] in doc.objs:
                    look(nav[op[1]])
            else:
                if op[0] == 'via':
                    assign_back(f, nav, doc, op[1], op[2])
                    op = op[1]
                    ctx.label('assigned back')
                else:
                    E.apply_lib(f, nav, doc, op)
                E.apply_model(doc, op)
                if op[0] != 'new':
                    nav.pending.clear()
                    E.prune(doc)
                    n += op[1] != doc.root
                if op[0] != 'new' and op[1] in doc.objs:
                    # visited again: the edit is there
                    gc.collect()
                    cid, m = doc.objs[op[1]]
                    got = B.obj_plain(nav[op[1]], lambda o: '#')
                    exp = R.map_refs(cid, m, lambda r: '#')
                    if bytes(got[0]) != cid:
                        raise Violation('the object found again is a %r' % got[0])
                    for k in exp:
                        if k == '_legacy' or k == 'tracks':
                            continue
                        B.val_eq(exp[k], got[1].get(k), k)
                ctx.label('edit:%s' % op[0] + (':' + op[3] if op[0] == 'list' else ':' + op[2] if op[0] == 'attr' else ''))
        gc.collect()
        for order in ('little', 'big'):
            C.save_check(ctx, f, doc, order, 'end.avb')
        B.match_docs(doc, B.snapshot(f), locks_default=True)
    finally:
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return n >= 2


def look(o):
    """every way of reading that is not an edit"""
    repr(o)
    str(o)
    o == o
    o != None
    bool(o) if not isinstance(o, (list, dict)) else len(o)
    try:
        hash(o)
    except TypeError:
        pass
    if isinstance(o, dict):
        list(o.keys()), list(o.values()), list(o.items()), o.get('none'), o.get('none', 5), 'x' in o, o == dict(o)
        repr(o), list(o), [o[k] for k in o]
        for k in o:
            o.get(k)
    elif isinstance(o, list):
        list(o), o[:], o[::-1], o == list(o), o + [], len(o), o * 1, list(reversed(o)), o.count(None), None in o
        [o[i] for i in range(len(o))]
    else:
        for n in list(o.property_data):
            v = getattr(o, n)
            o.get(n, None)
            if isinstance(v, (int, float, str, dict, bytes, bytearray)):
                repr(v)
            if isinstance(v, list):
                list(v), len(v), v == v, v[:], v[::-1], v.count(None)
                if v:
                    v[0], v[-1], v.index(v[0])
        hasattr(o, 'nothing')
        o.media_kind
        o.get('nothing', 1)
        if o.class_id == b'CMPO':
            o.mob_type_id, o.usage
    return o


def reading(ctx, case):
    """a document that was only read: objects are reclaimed, and it saves as if nothing had been read"""
    doc, order, times = case
    data, refmap = R.encode_file(doc)
    p = ctx.path('src.avb')
    with open(p, 'wb') as o:
        o.write(data)
    with avb.open(p) as g:
        plain = C.save(g, ctx.path('plain.avb'), order)
    with avb.open(p) as f:
        refs = []
        for t in range(times):
            for k in doc.objs:
                o = f.read_object(refmap[k])
                look(o)
                if k != doc.root:
                    refs.append(weakref.ref(o))
                del o
            for o in f.iter_class_ids([c for c, m in doc.objs.values()]):
                look(o)
            o = None
            for ch in f.chunks():
                ch.read(), ch.hex()
            B.match_docs(doc, B.snapshot(f))
        gc.collect()
        alive = [r() for r in refs if r() is not None]
        if alive:
            raise Violation('%s is kept as if it had been edited' % R.short(alive[0]))
        B.match_docs(doc, B.snapshot(f))
        if C.save(f, ctx.path('out.avb'), order) != plain:
            raise Violation('reading changed what is saved')
        C.check_bytes(doc, plain, order)
    return len(doc.objs) > 2


# ------------------------------------------------------------ one operation
REFLISTS = [(c, n, R.REFKINDS[t.elem.kind][0] if t.elem.kind != 'any' else b'FILL') for c in R.ALLKINDS for n, t, o in R.fields(c)
            if isinstance(t, R.Lst) and isinstance(t.elem, R.Ref)]


def setitem(l, i, x):
    l[i] = x


def delitem(l, i):
    del l[i]


def iadd(l, x):
    l += x


def imul(l, x):
    l *= x


def ior(d, x):
    d |= x


# the same function is applied to the library's list and to a plain one; x, y: other elements, num: a number for each element
LISTOPS = OrderedDict([
    ('append', lambda l, x, y, num: l.append(x)), ('extend', lambda l, x, y, num: l.extend([x, y])), ('extend nothing', lambda l, x, y, num: l.extend([])),
    ('extend iterator', lambda l, x, y, num: l.extend(iter([y]))), ('insert 0', lambda l, x, y, num: l.insert(0, x)),
    ('insert -1', lambda l, x, y, num: l.insert(-1, x)), ('insert end', lambda l, x, y, num: l.insert(99, x)),
    ('remove', lambda l, x, y, num: l.remove(l[-1])), ('pop', lambda l, x, y, num: l.pop()), ('pop 0', lambda l, x, y, num: l.pop(0)),
    ('clear', lambda l, x, y, num: l.clear()), ('sort', lambda l, x, y, num: l.sort(key=num)),
    ('sort down', lambda l, x, y, num: l.sort(key=num, reverse=True)), ('sort same', lambda l, x, y, num: l.sort(key=lambda o: 0, reverse=True)),
    ('reverse', lambda l, x, y, num: l.reverse()), ('set 0', lambda l, x, y, num: setitem(l, 0, x)), ('set -1', lambda l, x, y, num: setitem(l, -1, y)),
    ('set same', lambda l, x, y, num: setitem(l, 0, l[0])), ('set all', lambda l, x, y, num: setitem(l, slice(None), [])),
    ('set all reversed', lambda l, x, y, num: setitem(l, slice(None), list(l)[::-1])), ('set slice', lambda l, x, y, num: setitem(l, slice(1, 1), [x, y])),
    ('set step', lambda l, x, y, num: setitem(l, slice(0, None, 2), [x] * len(l[::2]))), ('del 0', lambda l, x, y, num: delitem(l, 0)),
    ('del -1', lambda l, x, y, num: delitem(l, -1)), ('del all', lambda l, x, y, num: delitem(l, slice(None))),
    ('del step', lambda l, x, y, num: delitem(l, slice(None, None, 2))), ('iadd', lambda l, x, y, num: iadd(l, [x])),
    ('iadd nothing', lambda l, x, y, num: iadd(l, [])), ('imul 0', lambda l, x, y, num: imul(l, 0)), ('imul 1', lambda l, x, y, num: imul(l, 1)),
    ('imul 2', lambda l, x, y, num: imul(l, 2)), ('imul -1', lambda l, x, y, num: imul(l, -1))])


DICTOPS = OrderedDict([
    ('set new', lambda d, x, v: setitem(d, 'new', v)), ('set first', lambda d, x, v: setitem(d, next(iter(d)), v)),
    ('set last', lambda d, x, v: setitem(d, list(d)[-1], v)), ('set same', lambda d, x, v: setitem(d, list(d)[-1], d[list(d)[-1]])),
    ('set ref', lambda d, x, v: setitem(d, list(d)[0], x)), ('del first', lambda d, x, v: delitem(d, list(d)[0])),
    ('del last', lambda d, x, v: delitem(d, list(d)[-1])), ('pop', lambda d, x, v: d.pop(list(d)[0])), ('pop none', lambda d, x, v: d.pop('absent', 1)),
    ('popitem', lambda d, x, v: d.popitem()), ('popitem first', lambda d, x, v: d.popitem(last=False)), ('clear', lambda d, x, v: d.clear()),
    ('update', lambda d, x, v: d.update({'new': v, 'other': x})), ('update pairs', lambda d, x, v: d.update([(list(d)[0], v)])),
    ('update keywords', lambda d, x, v: d.update(new=v)), ('update nothing', lambda d, x, v: d.update({})),
    ('setdefault new', lambda d, x, v: d.setdefault('new', v)), ('setdefault old', lambda d, x, v: d.setdefault(list(d)[0], v)),
    ('to end', lambda d, x, v: d.move_to_end(list(d)[0])), ('to front', lambda d, x, v: d.move_to_end(list(d)[-1], last=False)),
    ('ior', lambda d, x, v: ior(d, {'new': v}))])


def one_op(ctx, case):
    place, content, opname, extra, val, order, dups = case
    C.set_zone(0)
    cid, name, elem = REFLISTS[place % len(REFLISTS)] if opname in LISTOPS else (b'ATTR', 'entries', b'FILL')
    models = [(elem, L.full_model(elem)) for i in range(5)]
    holder = L.full_model(cid)
    if cid == b'ATTR':
        vals = [['k%d' % i, {'i': 1, 's': 2, 'r': 3, 'b': 4}[t], {'i': n, 's': 'x' * n, 'r': n % 3 + 1, 'b': bytes(n)}[t]] for i, (t, n) in enumerate(content)]
        holder['entries'] = vals
    else:
        if not dups:
            content = list(OrderedDict.fromkeys(n % 4 + 1 for t, n in content))
        else:
            content = [n % 4 + 1 for t, n in content]
        holder[name] = content
    models.append((cid, holder))
    doc = L.wrap(models, order)
    data, refmap = R.encode_file(doc)
    f = C.open_bytes(data)
    find = lambda k: f.content.attributes['o%d' % (k - 1)]
    h = 6
    hold = [find(k) for k in range(1, 6)] if extra & 1 else []
    # elements from the file, or new ones
    if extra & 2:
        x, y = getattr(f.create, R.KINDS[elem][0])(), find(5)
        m = OrderedDict(models[0][1])
        B.fill(f, x, elem, m, {})
        nx = doc.root + 1
        doc.objs[nx] = (elem, m)
    else:
        x, y, nx = find(4), find(5), 4
    want = None
    try:
        if cid == b'ATTR':
            v = {'i': val, 's': 'y' * val, 'b': bytearray(val), 'r': y}['isbr'[extra // 8 % 4]]
            mv = {'i': [1, val], 's': [2, 'y' * val], 'b': [4, bytes(val)], 'r': [3, 5]}['isbr'[extra // 8 % 4]]
            want = OrderedDict((a, (b, c)) for a, b, c in holder['entries'])
            args = ((3, nx), tuple(mv))
            get = lambda: find(h)
            lib = lambda o: DICTOPS[opname](o, x, v)
            ref = lambda o: DICTOPS[opname](o, *args)
        else:
            want = list(content)
            get = lambda: find(h) if cid in E.LISTS else getattr(find(h), name)
            lib = lambda o: LISTOPS[opname](o, x, y, lambda o: -o.instance_id)
            ref = lambda o: LISTOPS[opname](o, nx, 5, lambda k: -(refmap[k] if k in refmap else 10 ** 9))
        try:
            ref(want)
            ok = True
        except (IndexError, KeyError, StopIteration, ValueError):
            ok = False
        if extra & 4:
            # through a reference to the list alone
            o = get()
            gc.collect()
        else:
            o = get()
        try:
            lib(o)
            lok = True
        except (IndexError, KeyError, StopIteration, ValueError):
            lok = False
        if ok != lok:
            raise Violation('%s: refused %r, the plain one %r' % (opname, lok, ok))
        del o, x, y, get, lib
        v = None
        hold = None
        gc.collect()
        if cid == b'ATTR':
            doc.objs[h][1]['entries'] = [[a, b, c] for a, (b, c) in want.items()]
        else:
            doc.objs[h][1][name] = want
        exp = E.clone(doc)
        E.prune(exp)
        B.match_docs(exp, B.snapshot(f), locks_default=True)
        gc.collect()
        C.save_check(ctx, f, exp, order, 'one.avb')
    finally:
        f.close()
        if os.path.exists(ctx.path('one.avb')):
            os.remove(ctx.path('one.avb'))
    ctx.label('one:' + opname)
    return ok


one_ops = st.tuples(st.integers(0, 20), st.lists(st.tuples(st.sampled_from('isrb'), st.integers(0, 3)), max_size=4),
                    st.sampled_from(list(LISTOPS) + list(DICTOPS)), st.integers(0, 79), st.integers(0, 3), st.sampled_from(['little', 'big']), st.booleans())


# ------------------------------------------------------------ known findings
def one_mob():
    m = R.zero_model(b'CMPO')
    m['mob_type_id'] = 2
    m['tracks'] = [OrderedDict(index=1, lock_number=0)]
    b = R.zero_model(b'ABIN')
    it = R.zero(R.BinHead.ITEM)
    it['mob'] = 1
    b['items'] = [it]
    return R.Doc(OrderedDict([(1, (b'CMPO', m)), (2, (b'ABIN', b))]), 2, 'little', 1000000000, 'x')


def probe_helper(ctx):
    with C.open_bytes(R.encode_file(one_mob())[0]) as f:
        f.content.items[0].mob.tracks[0].index = 7
        gc.collect()
        if f.content.items[0].mob.tracks[0].index != 7:
            raise Violation('edit of a track is lost')


def probe_list(ctx):
    with C.open_bytes(R.encode_file(one_mob())[0]) as f:
        f.content.items[0].mob.tracks.append(f.create.Track())
        gc.collect()
        if len(f.content.items[0].mob.tracks) != 2:
            raise Violation('appended track is lost')


def probe_value(ctx):
    with C.open_bytes(R.encode_file(one_mob())[0]) as f:
        f.content.items[0].mob.mob_id.length = 9
        gc.collect()
        if f.content.items[0].mob.mob_id.length != 9:
            raise Violation('edit of the MobID is lost')


PROBES = [('helper-objects', probe_helper), ('plain-lists', probe_list), ('mutable-values', probe_value)]
RL = [b'SEQU', b'FILL', b'FILL', b'SCLP', b'PRLS', b'PRIT', b'PRIT', b'TMCS', b'TMBC', b'TMBC', b'MULD', b'PCMA', b'PCMA',
      b'TKDS', b'TKDA', b'TKPS', b'TKPA', b'ATTR', b'ATTR']
HL = [b'CMPO', b'CMPO', b'CMPO', b'TKFX', b'FXPS', b'PRCL', b'PRCL', b'CDCI', b'CTRL', b'ASPI',
      b'EQMB', b'TMBC', b'SPED', b'BVst', b'FILL', b'SCLP']
SUBS = [
    Sub('one_op', one_ops, one_op, quick=2500, thorough=30000),
    Sub('histories', histories(), run, quick=700),
    Sub('lists', histories(kinds=RL, focus=[b'SEQU', b'PRLS', b'TMCS', b'MULD', b'TKDS', b'TKDA', b'TKPS', b'ATTR'],
                           maxlist=4, max_objs=10), run, quick=700),
    Sub('assigned_back', histories(kinds=HL, focus=sorted(set(HL)), back=0, max_objs=6), run, quick=400),
    Sub('long_histories', histories(most=40), run, quick=64),
    Sub('reading', st.tuples(G.documents(G.Opts(overrides=OV)), st.sampled_from(['little', 'big']), st.integers(1, 2)), reading,
        quick=500),
]
