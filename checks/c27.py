"""The generic views of an object agree with its attributes; walking and printing see everything and change nothing."""
import contextlib
import copy
import importlib.util
import io
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.core
import gen as G
import refspec as R
import bridge as B
import common as C
import nav as N
from runner import Sub, Violation, REPO

RULE = 'the document holds at least three objects, one of which lacks an optional field or refers to another object'
ASSUMPTIONS = [
    'the mapping of an object\'s fields is used for looking things up; fields are set through the attributes, and taken out of the mapping '
    'only while the program holds the object',
    'the order of the fields in the mapping is not specified',
    'identifiers cannot be taken away (known finding legacy-identifiers of C03)',
    'printing is required to work for objects of well-formed files and for objects with all their mandatory fields set',
]
MISSING = object()
CONSTANT = {b'AVUP': ['byte_order']}      # the library may keep it although it has one value only


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


def same(a, b):
    return a is b or (not hasattr(a, 'class_id') and type(a) is type(b) and (a == b or a != a))


def present(cid, m):
    return [n for n in m if not n.startswith('_')]


def raises(exc, fn, what, *a):
    try:
        v = fn()
    except exc:
        return
    raise Violation((what % a) + ': %r, expected an error' % (v,))


def check_fields(o, names, defs, what):
    """every generic view of an object whose fields are the ones named"""
    pd = o.property_data
    keys = list(pd)
    names = list(names) + [n for n in CONSTANT.get(getattr(o, 'class_id', None), []) if n in keys]
    need(sorted(keys) == sorted(names), '%s: fields %r, expected %r', what, sorted(keys), sorted(names))
    need(len(pd) == len(keys) and list(pd.keys()) == keys and bool(pd) == bool(keys), '%s: number or order of the fields', what)
    need(list(reversed(pd)) == keys[::-1], '%s: backwards', what)
    vals = [getattr(o, n) for n in keys]
    items, values = list(pd.items()), list(pd.values())
    need([k for k, v in items] == keys and len(values) == len(keys), '%s: names of the items', what)
    for k, v, (k2, v2), v3 in zip(keys, vals, items, values):
        for how, x in (('item', v2), ('value', v3), ('index', pd[k]), ('get', pd.get(k)), ('get with default', pd.get(k, MISSING)),
                       ('object.get', o.get(k, MISSING)), ('attribute', getattr(o, k))):
            need(same(x, v), '%s.%s: %s gives %r, the attribute %r', what, k, how, x, v)
        need(k in pd and hasattr(o, k), '%s.%s: not found', what, k)
        need(not isinstance(v, (avb.utils.AVBObjectRef,)), '%s.%s: an unresolved reference', what, k)
    for k in [n for n in defs if n not in keys] + ['no_such_field', '']:
        need(k not in pd and not hasattr(o, k) or k in dir(type(o)), '%s.%s: found but not there', what, k)
        need(pd.get(k) is None and pd.get(k, MISSING) is MISSING and o.get(k, MISSING) is MISSING, '%s.%s: not there but has a value', what, k)
        raises(KeyError, lambda: pd[k], '%s[%s]', what, k)
        if k not in dir(type(o)):
            raises(AttributeError, lambda: getattr(o, k), '%s.%s', what, k)
    seen = [d.name for d in o.propertydefs]
    need(len(set(seen)) == len(seen) and set(keys) <= set(seen), '%s: fields without a definition %r', what, sorted(set(keys) - set(seen)))
    for d in o.propertydefs:
        need(o.get_property_def(d.name) is d, '%s: definition of %s', what, d.name)
    need(o.get_property_def('no_such_field') is None, '%s: definition of nothing', what)
    # a copy of the mapping is a dictionary of the values
    c = OrderedDict(pd.items())
    need(pd == c and not pd != c and c == pd, '%s: differs from its items', what)
    for d in (pd.copy(), OrderedDict(pd), copy.copy(pd)):
        need(list(d) == keys, '%s: a copy has the fields %r', what, list(d))
        for k, v in zip(keys, vals):
            need(same(d[k], v), '%s.%s: in a copy %r', what, k, d[k])
    d = pd.copy()
    for k, v in list(zip(keys, vals))[::-2]:
        need(same(d.pop(k), v), '%s.%s: popped from a copy', what, k)
    need(d.pop('no_such_field', MISSING) is MISSING, '%s: popped something else', what)
    while len(d):
        k, v = list(d.items())[-1]
        k2, v2 = d.popitem()
        need(k == k2 and same(v, v2), '%s.%s: popitem gives %r', what, k, (k2, v2))
    need(list(pd) == keys, '%s: changed along with a copy', what)
    if keys:
        d = pd.copy()
        d[keys[0]] = MISSING
        need(not d == pd and d != pd, '%s: equal to something else', what)


def check_print(o, what):
    for s in (repr(o), str(o)):
        need(isinstance(s, str) and (isinstance(o, list) or type(o).__name__ in s), '%s: printed as %r', what, s)


def subs_of(o, cid, m):
    """objects stored inside this one"""
    if 'tracks' in m:
        for i, t in enumerate(m['tracks']):
            yield o.tracks[i], [n for n in t], 'tracks[%d]' % i, R.TrackT.fields
    if cid == b'PRCL':
        for i, cp in enumerate(m['control_points']):
            x = o.control_points[i]
            yield x, ['offset', 'timescale', 'value', 'pp'], 'control_points[%d]' % i, ()
            for j, p in enumerate(cp['pp']):
                yield x.pp[j], ['code', 'type', 'value'], 'control_points[%d].pp[%d]' % (i, j), ()


def check_walk(o, want, what):
    """want: the objects reachable, each with those it refers to"""
    pos = {}
    seq = []
    for i, x in enumerate(avb.core.walk_references(o)):
        pos.setdefault(id(x), i)
        seq.append(x)
        if len(seq) > 20000:
            raise Violation('%s: walking does not end' % what)
    need(seq and seq[-1] is o, '%s: walking ends at %r', what, seq[-1:])
    need(set(pos) == set(want), '%s: walking visits %d objects, %d are reachable', what, len(pos), len(want))
    for k, (obj, refs) in want.items():
        for r in refs:
            need(pos[r] < pos[k], '%s: an object is visited before one it refers to', what)


def examine(ctx, f, doc, objs, header):
    interesting = False
    refs = {}
    before = {k: B.obj_plain(o, lambda x: '#') for k, o in objs.items()}
    for k, (cid, m) in doc.objs.items():
        o = objs[k]
        what = cid.decode()
        es = [v for a, v in N.edges(cid, m)]
        refs[k] = set(es)
        interesting = interesting or bool(es)
        check_print(o, what)
        if 'entries' in m:
            continue
        defs = [d.name for d in o.propertydefs]
        need(set(present(cid, m)) <= set(defs), '%s: undefined fields', what)
        check_fields(o, present(cid, m), defs, what)
        interesting = interesting or len(present(cid, m)) < len(defs)
        for x, names, w, fields in subs_of(o, cid, m):
            check_fields(x, names, [d.name for d in x.propertydefs], what + '.' + w)
            check_print(x, what + '.' + w)
        if cid == b'SLCT':
            have = [t for t in m['tracks'] if 'component' in t]
            if len(have) == len(m['tracks']):
                need([id(x) for x in o.components()] == [id(t.component) for t in o.tracks], '%s: components', what)
    # reachable from each object
    reach = {}
    for k in doc.objs:          # children have been generated first
        s = {k}
        for c in refs[k]:
            s |= reach[c] if c in reach else closure(refs, c)
        reach[k] = s
    if len(doc.objs) <= 14:
        for k in doc.objs:
            check_walk(objs[k], {id(objs[x]): (objs[x], [id(objs[y]) for y in refs[x]]) for x in reach[k]}, doc.objs[k][0].decode())
    for k, o in objs.items():
        need(B.obj_plain(o, lambda x: '#') == before[k] or repr(B.obj_plain(o, lambda x: '#')) == repr(before[k]),
             '%s: changed by being looked at', doc.objs[k][0].decode())
    return interesting and len(doc.objs) >= 3


def closure(refs, k):
    s, q = set(), [k]
    while q:
        x = q.pop()
        if x not in s:
            s.add(x)
            q += refs[x]
    return s


def loaded(ctx, case):
    """objects of a file"""
    doc, how, order = case
    data, refmap = R.encode_file(doc, list(doc.objs))
    path = ctx.path('s.avb')
    with open(path, 'wb') as o:
        o.write(data)
    with (avb.open(path) if how else C.open_bytes(data)) as f:
        objs = OrderedDict((k, f.read_object(refmap[k])) for k in doc.objs)
        r = examine(ctx, f, doc, objs, True)
        need(not f.modified_objects, 'looking counts as modifying %r', f.modified_objects)
        C.save_check(ctx, f, doc, order)
    for cid, m in doc.objs.values():
        ctx.label('kind:' + cid.decode())
    os.remove(path)
    return r


def created(ctx, case):
    """objects made by the program; optional fields taken away again and set anew"""
    doc, order, picks = case
    C.set_zone(doc.last_save)
    f, objs = B.build(doc)
    with f:
        r = examine(ctx, f, doc, objs, False)
        hidden = []
        spots = [(k, n) for k, (cid, m) in doc.objs.items() if cid not in (b'ATTR', b'PRLS', b'TMCS') for n, t, opt in R.fields(cid)
                 if opt and n in m and alone(cid, n) and n != 'mob_id']
        for p in picks:
            if not spots:
                break
            k, n = spots.pop(p % len(spots))
            o = objs[k]
            pd = o.property_data
            v = getattr(o, n)
            if p & 64:
                del pd[n]
            else:
                need(same(pd.pop(n), v), '%s.%s: taken out', doc.objs[k][0].decode(), n)
            hidden.append((k, n, v))
            ctx.label('taken out')
        if hidden:
            d2 = R.Doc(OrderedDict((k, (c, OrderedDict(m))) for k, (c, m) in doc.objs.items()), doc.root, doc.order, doc.last_save, doc.creator)
            for k, n, v in hidden:
                del d2.objs[k][1][n]
                need(not hasattr(objs[k], n), '%s.%s is still there', doc.objs[k][0].decode(), n)
            live = C.save(f, ctx.path('x.avb'), order)
            got = R.decode_file(live)
            for k, n, v in hidden:
                pass
            need(len([1 for c, m in got.objs.values()]) <= len(doc.objs), 'more objects than there were')
            C.check_bytes(unlinked(d2), live, order)
            for k, n, v in hidden[::-1]:
                setattr(objs[k], n, v)
        C.save_check(ctx, f, doc, order)
    return r


def unlinked(d):
    """without the objects nothing refers to any more"""
    refs = {k: set(v for a, v in N.edges(*d.objs[k])) for k in d.objs}
    keep = closure(refs, d.root)
    return R.Doc(OrderedDict((k, x) for k, x in d.objs.items() if k in keep), d.root, d.order, d.last_save, d.creator)


def alone(cid, n):
    """the field can be present or absent by itself"""
    for g in R.groups(cid):
        names = g if isinstance(g, (list, tuple)) else [g]
        if n in names:
            return len(names) == 1
    return False


# ------------------------------------------------------------ the dump tool
def dump_tool():
    if 'dump' not in TOOL:
        p = os.path.join(REPO, 'examples', 'dump.py')
        if not os.path.exists(p):
            TOOL['dump'] = None
        else:
            spec = importlib.util.spec_from_file_location('verif_dump_tool', p)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            TOOL['dump'] = mod.dump
    return TOOL['dump']


TOOL = {}


def dumped(ctx, case):
    """a tool that knows nothing but the field definitions lists every field of every object"""
    doc, how = case
    data, refmap = R.encode_file(doc, list(doc.objs))
    with C.open_bytes(data) as f:
        seen = []

        def see(v):
            if isinstance(v, avb.core.AVBObject):
                seen.append(v)
                for d in v.propertydefs:
                    if d.name in v.property_data:
                        fields.append((bytes(v.class_id or b''), d.name))
                        see(v.property_data[d.name])
            elif isinstance(v, dict):
                seen.append(v)
                for k in sorted(v.keys()):
                    see(v[k])
            elif isinstance(v, list):
                seen.append(v)
                for x in v:
                    see(x)
        fields = []
        see(f.content)
        ids = set(id(x) for x in seen)
        have = set(fields)
        for k, (cid, m) in doc.objs.items():
            o = N.find(f, doc, k)
            need(id(o) in ids, 'object %s is not found by walking the field definitions', cid.decode())
            if 'entries' not in m:
                for n in present(cid, m):
                    need((cid, n) in have, '%s.%s is not among the field definitions', cid.decode(), n)
        tool = dump_tool()
        if tool and how:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                tool(f.content)
            txt = out.getvalue()
            for cid, m in doc.objs.values():
                for n in present(cid, m):
                    if n != 'entries' and m[n] is not None:
                        need(n + ':' in txt, 'the dump lacks %s.%s', cid.decode(), n)
        need(not f.modified_objects, 'walking counts as modifying %r', f.modified_objects)
    return len(doc.objs) >= 3


orders = st.sampled_from(['little', 'big'])
picks = st.lists(st.integers(0, 200), max_size=5)
SMALL = G.Opts(maxlist=3, legacy_ids=False)
CR = G.Opts(created=True, maxlist=3)
SUBS = [
    Sub('loaded', st.tuples(G.documents(SMALL), st.booleans(), orders), loaded, quick=800),
    Sub('loaded_kind', st.tuples(G.kind_documents(SMALL), st.booleans(), orders), loaded, quick=1200),
    Sub('created', st.tuples(G.documents(CR), orders, picks), created, quick=500),
    Sub('created_kind', st.tuples(G.kind_documents(CR), orders, picks), created, quick=900),
    Sub('dumped', st.tuples(st.one_of(G.documents(SMALL), G.kind_documents(SMALL)), st.booleans()), dumped, quick=600),
]
