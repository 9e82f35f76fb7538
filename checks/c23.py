"""Reference lists behave as lists and attribute sets as ordered dictionaries."""
import gc
import os
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'at least three operations changed the container, which held an object reference at some point'
ASSUMPTIONS = [
    'the model is a plain list / OrderedDict of the very same library objects',
    'Attributes | dict and fromkeys, which need an attribute set without a document, are not offered',
    'list.copy is the copy of the objects into another document (C14)',
    'no container holds itself',
]


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


LISTS = [(b'PRLS', 'entries'), (b'TMCS', 'entries')] + \
    [(c, n) for c in sorted(R.ALLKINDS) for n in R.fields_of_reflists(c)]
NPOOL = 8


def pool():
    """objects to refer to; some are equal without being the same"""
    attr = lambda v: (b'ATTR', OrderedDict(entries=v))
    fill = L.full_model(b'FILL')
    return [(b'FILL', dict_with(fill, length=1)), (b'FILL', dict_with(fill, length=2)),
            attr([['n', 1, 1]]), attr([['n', 1, 1]]), attr([]),
            (b'PRLS', OrderedDict(entries=[])), (b'PRLS', OrderedDict(entries=[1])),
            (b'TCCP', dict_with(L.full_model(b'TCCP'), start=77))]


def dict_with(m, **kw):
    m = G.copy_model(m)
    m.update(kw)
    return m


TOK = st.one_of(st.none(), st.integers(0, NPOOL - 1), st.integers(0, NPOOL - 1))
TOKS = st.lists(TOK, max_size=5)
IDX = st.integers(-9, 9)
OPT = st.one_of(st.none(), IDX)
SLICE = st.tuples(OPT, OPT, st.sampled_from([None, None, None, 1, 2, 3, -1, -2]))

KEYS = {'length': lambda o: getattr(o, 'length', -1) if not isinstance(o, (list, dict, type(None))) else -2,
        'kind': lambda o: type(o).__name__, 'const': lambda o: 0, 'fail': lambda o: 1 // (0 if o is None else 1),
        'none': None}


def list_ops():
    T = st.tuples
    j = st.just
    return st.one_of(
        T(j('append'), TOK), T(j('append'), TOK), T(j('insert'), IDX, TOK), T(j('extend'), TOKS), T(j('extendgen'), TOKS),
        T(j('iadd'), TOKS), T(j('extendself')), T(j('imul'), st.integers(-1, 2)), T(j('delitem'), IDX), T(j('delslice'), SLICE),
        T(j('setitem'), IDX, TOK), T(j('setslice'), SLICE, TOKS), T(j('setslicegen'), SLICE, TOKS), T(j('remove'), TOK),
        T(j('pop'), OPT), T(j('clear')), T(j('sort'), st.sampled_from(sorted(KEYS)), st.booleans()), T(j('reverse')),
        T(j('getitem'), IDX), T(j('getslice'), SLICE), T(j('index'), TOK, OPT, OPT), T(j('count'), TOK), T(j('contains'), TOK),
        T(j('iter')), T(j('reversed')), T(j('eq'), TOKS), T(j('eqsame'), st.booleans()), T(j('eqtwin')), T(j('add'), TOKS), T(j('radd'), TOKS),
        T(j('mul'), st.integers(-1, 2), st.booleans()), T(j('lenbool')), T(j('unpack')), T(j('sorted'), st.sampled_from(sorted(KEYS))),
        T(j('while_iter'), IDX, TOK), T(j('appendbad')), T(j('minmax')), T(j('nexts'), st.integers(0, 4), TOK))


def apply_list(v, op, obj, islib):
    """the operation on a list or a library list; returns what is observed"""
    n = op[0]
    if n == 'append':
        return v.append(obj(op[1]))
    if n == 'insert':
        return v.insert(op[1], obj(op[2]))
    if n == 'extend':
        return v.extend([obj(x) for x in op[1]])
    if n == 'extendgen':
        return v.extend(obj(x) for x in op[1])
    if n == 'extendself':
        if len(v) < 12:
            v.extend(v)
        return None
    if n == 'iadd':
        w = v
        w += [obj(x) for x in op[1]]
        return w is v
    if n == 'imul':
        w = v
        w *= op[1] if len(v) < 12 else 1
        return w is v
    if n == 'delitem':
        del v[op[1]]
        return None
    if n == 'delslice':
        del v[slice(*op[1])]
        return None
    if n == 'setitem':
        v[op[1]] = obj(op[2])
        return None
    if n == 'setslice':
        v[slice(*op[1])] = [obj(x) for x in op[2]]
        return None
    if n == 'setslicegen':
        v[slice(*op[1])] = (obj(x) for x in op[2])
        return None
    if n == 'remove':
        return v.remove(obj(op[1]))
    if n == 'pop':
        return v.pop() if op[1] is None else v.pop(op[1])
    if n == 'clear':
        return v.clear()
    if n == 'sort':
        if op[1] == 'none':
            return v.sort(reverse=op[2])
        return v.sort(key=KEYS[op[1]], reverse=op[2])
    if n == 'reverse':
        return v.reverse()
    if n == 'getitem':
        return v[op[1]]
    if n == 'getslice':
        return list(v[slice(*op[1])])
    if n == 'index':
        args = [x for x in op[2:] if x is not None]
        return v.index(obj(op[1]), *args)
    if n == 'count':
        return v.count(obj(op[1]))
    if n == 'contains':
        return (obj(op[1]) in v, obj(op[1]) not in v)
    if n == 'iter':
        return [x for x in v]
    if n == 'reversed':
        return list(reversed(v))
    if n == 'eq':
        other = [obj(x) for x in op[1]]
        return (v == other, v != other, other == v, other != v, v == (), v == None)
    if n == 'eqsame':
        other = list(v)
        return (v == other, other == v, v != other, v == v) if op[1] else (v == other[:-1], v != other[:-1])
    if n == 'eqtwin':
        # equal elements that are not the same
        a, b = obj(2), obj(3)
        other = [b if x is a else a if x is b else x for x in v]
        return (v == other, other == v, v != other, a in v, b in v, v.count(a), v.count(b))
    if n == 'add':
        return list(v + [obj(x) for x in op[1]])
    if n == 'radd':
        return list([obj(x) for x in op[1]] + v)
    if n == 'mul':
        return list(v * op[1] if op[2] else op[1] * v)
    if n == 'lenbool':
        return (len(v), bool(v))
    if n == 'unpack':
        a, *b = v
        return [a, b]
    if n == 'sorted':
        return sorted(v, key=KEYS[op[1]])
    if n == 'while_iter':
        # the list changes while it is walked
        out = []
        for i, x in enumerate(v):
            out.append(x)
            if i == abs(op[1]) % 3:
                v.append(obj(op[2]))
            if i == abs(op[1]) % 4:
                del v[0]
            if i > 30:
                break
        return out
    if n == 'appendbad':
        try:
            v.extend(3)
        except TypeError:
            return 'TypeError'
        return 'accepted'
    if n == 'minmax':
        k = KEYS['kind']
        return (max(v, key=k, default=None), min(v, key=k, default=None), any(x is None for x in v), list(zip(v, range(3))))
    if n == 'nexts':
        # an iterator held across an edit
        it = iter(v)
        out = []
        for i in range(op[1]):
            out.append(next(it, 'end'))
        v.append(obj(op[2]))
        out.append(next(it, 'end'))
        return out
    raise HarnessError(n)


def dict_ops():
    T = st.tuples
    j = st.just
    K = st.sampled_from(['a', 'b', 'c', 'd', 'e', u'\u00e9', '', 'o0'])
    V = st.one_of(st.tuples(st.just('obj'), TOK), st.tuples(st.just('int'), st.sampled_from([0, 1, -1, 2**31 - 1, -2**31])),
                  st.tuples(st.just('str'), st.sampled_from(['', 'x', u'\u00e9\u00e9'])),
                  st.tuples(st.just('blob'), st.sampled_from([b'', b'\0\1\xff'])))
    P = st.lists(st.tuples(K, V), max_size=4)
    return st.one_of(
        T(j('set'), K, V), T(j('set'), K, V), T(j('set'), K, V), T(j('del'), K), T(j('get'), K), T(j('getd'), K, V), T(j('item'), K), T(j('pop'), K),
        T(j('popd'), K, V), T(j('popitem'), st.booleans()), T(j('move'), K, st.booleans()), T(j('clear')),
        T(j('update'), P), T(j('updatedict'), P), T(j('updatekw'), V), T(j('ior'), P), T(j('setdefault'), K, V), T(j('setdefault0'), K), T(j('contains'), K), T(j('iter')),
        T(j('keys')), T(j('values')), T(j('items')), T(j('reversed')), T(j('lenbool')), T(j('eq'), P), T(j('eqsame'), st.integers(0, 3)),
        T(j('todict')), T(j('while_iter'), K, V), T(j('popbad')), T(j('unpackkw')), T(j('updateself')))


def apply_dict(d, op, val, islib):
    n = op[0]
    if n == 'set':
        d[op[1]] = val(op[2])
        return None
    if n == 'del':
        del d[op[1]]
        return None
    if n == 'get':
        return d.get(op[1])
    if n == 'getd':
        return d.get(op[1], val(op[2]))
    if n == 'item':
        return d[op[1]]
    if n == 'pop':
        return d.pop(op[1])
    if n == 'popd':
        return d.pop(op[1], val(op[2]))
    if n == 'popitem':
        return list(d.popitem(last=op[1]))
    if n == 'move':
        return d.move_to_end(op[1], last=op[2])
    if n == 'clear':
        return d.clear()
    if n == 'update':
        return d.update([(k, val(v)) for k, v in op[1]])
    if n == 'updatedict':
        return d.update(OrderedDict((k, val(v)) for k, v in op[1]))
    if n == 'updatekw':
        return d.update(kw=val(op[1]))
    if n == 'updateself':
        return d.update(d)
    if n == 'ior':
        w = d
        w |= OrderedDict((k, val(v)) for k, v in op[1])
        return w is d
    if n == 'setdefault':
        return d.setdefault(op[1], val(op[2]))
    if n == 'setdefault0':
        return d.setdefault(op[1])
    if n == 'contains':
        return (op[1] in d, op[1] not in d)
    if n == 'iter':
        return [k for k in d]
    if n == 'keys':
        return list(d.keys())
    if n == 'values':
        return list(d.values())
    if n == 'items':
        return [list(x) for x in d.items()]
    if n == 'reversed':
        return list(reversed(d))
    if n == 'lenbool':
        return (len(d), bool(d))
    if n == 'eq':
        p = [(k, val(v)) for k, v in op[1]]
        return (d == dict(p), d != dict(p), dict(p) == d, d == OrderedDict(p), OrderedDict(p) == d, d != OrderedDict(p), d == 3)
    if n == 'eqsame':
        items = list(d.items())
        if op[1] == 1:
            items.reverse()
        if op[1] == 2:
            items = items[:-1]
        return (d == dict(items), d == OrderedDict(items), OrderedDict(items) == d, dict(items) == d,
                d != dict(items), d != OrderedDict(items))
    if n == 'todict':
        return [list(x) for x in dict(d).items()]
    if n == 'unpackkw':
        return [list(x) for x in dict(**d).items()]
    if n == 'while_iter':
        # a new key while the keys are walked is an error, as with a dictionary
        out = []
        for k in d.keys():
            out.append(k)
            d[op[1]] = val(op[2])
            if len(out) > 40:
                break
        return out
    if n == 'popbad':
        return d.pop('no such key', 'dflt')
    raise HarnessError(n)


def run(fn, *a):
    try:
        return ('ok', fn(*a))
    except Exception as e:
        return ('raised', type(e).__name__)


def same(a, b):
    if isinstance(a, (list, tuple)) and type(a) in (list, tuple) and type(b) is type(a):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, bytearray, bytes, type(None), bool)):
        return type(a) is type(b) and a == b
    return a is b


def check_list(v, model, when):
    got = [x for x in v]
    need(len(v) == len(model), '%s: %d elements, expected %d', when, len(v), len(model))
    need(same(got, list(model)), '%s: the elements are %r, expected %r', when, got, model)
    for i in range(len(model)):
        need(v[i] is model[i], '%s: element %d is %r, expected %r', when, i, v[i], model[i])


def reload_check(ctx, f, order, find, names, expected):
    """the saved file read back, by the decoder and by the library"""
    p = ctx.path('x.avb')
    f.write(p, order)
    data = C.read(p)
    os.remove(p)
    got = R.decode_file(data)
    g = C.open_bytes(data)
    return got, g


def doc_for(models):
    return L.wrap(pool() + models)


def tag_of(got, k):
    """which pool object this stored object is, up to equality"""
    cid, m = got.objs[k]
    if cid in (b'FILL', b'TCCP'):
        return (cid, m['length'], m.get('start'))
    if cid == b'ATTR':
        return (cid, repr(m['entries']))
    return (cid, len(m['entries']))


def setup_doc(models, src):
    """(file, library objects of the pool, extra objects); loaded or created"""
    doc = doc_for(models)
    C.set_zone(doc.last_save)
    if src == 'created':
        f, objs = B.build(doc)
        return doc, f, objs, objs.__getitem__
    data, refmap = R.encode_file(doc)
    f = C.open_bytes(data)
    return doc, f, None, lambda k: f.read_object(refmap[k])


def lists(ctx, case):
    (cid, field), init, ops, src, order, keep = case
    if src == 'created' and field != 'entries':
        src = 'loaded'
    m = L.full_model(cid) if field != 'entries' else OrderedDict(entries=[])
    m[field] = [None if t is None else t + 1 for t in init]
    doc, f, objs, find = setup_doc([(cid, m)], src)
    poolobjs = [find(i + 1) for i in range(NPOOL)]

    def obj(t):
        return None if t is None else poolobjs[t]
    holder = find(NPOOL + 1)
    v = holder if field == 'entries' else getattr(holder, field)
    if not keep:
        # the container is not held through the edits, only by what the document remembers
        back = None
    model = [obj(t) for t in init]
    changes = 0
    refs = any(x is not None for x in model)
    check_list(v, model, 'at first')
    for i, op in enumerate(ops):
        before = list(model)
        a = run(apply_list, model, op, obj, False)
        if not keep:
            v = holder = None
            gc.collect() if len(ops) < 3 else None
            holder = f.content.attributes['o%d' % NPOOL]
            v = holder if field == 'entries' else getattr(holder, field)
        b = run(apply_list, v, op, obj, True)
        need(a[0] == b[0] and same(a[1], b[1]), 'operation %d %r: got %r, a list gives %r', i, op, b, a)
        check_list(v, model, 'after operation %d %r' % (i, op))
        changes += not same(before, model)
        refs = refs or any(x is not None for x in model)
        ctx.label(op[0])
    p = ctx.path('x.avb')
    v = holder = None
    f.write(p, order)
    data = C.read(p)
    os.remove(p)
    exp = [None if x is None else [y is x for y in poolobjs].index(True) + 1 for x in model]
    m2 = G.copy_model(m)
    m2[field] = exp
    want = doc_for([(cid, m2)])
    C.check_bytes(want, data, order)
    g = C.open_bytes(data)
    h = g.content.attributes['o%d' % NPOOL]
    w = h if field == 'entries' else getattr(h, field)
    gp = [g.content.attributes['o%d' % i] for i in range(NPOOL)]
    check_list(w, [None if e is None else gp[e - 1] for e in exp], 'after reload')
    return changes >= 3 and refs


def dicts(ctx, case):
    init, ops, src, order, keep = case

    def val(x):
        return obj(x[1]) if x[0] == 'obj' else bytearray(x[1]) if x[0] == 'blob' else x[1]
    m = OrderedDict(entries=entries(init.items(), lambda t: None if t is None else t + 1))
    doc, f, objs, find = setup_doc([(b'ATTR', m)], src)
    poolobjs = [find(i + 1) for i in range(NPOOL)]

    def obj(t):
        return None if t is None else poolobjs[t]
    d = find(NPOOL + 1)
    model = OrderedDict((k, val(x)) for k, x in init.items())
    changes = 0
    refs = any(hasattr(x, 'class_id') for x in model.values())
    check_dict(d, model, 'at first')
    for i, op in enumerate(ops):
        before = [list(x) for x in model.items()]
        cache = {}

        def value(x):       # the same bytearray for both sides
            if x[0] != 'blob':
                return val(x)
            return cache.setdefault(x[1], bytearray(x[1]))
        a = run(apply_dict, model, op, value, False)
        if not keep:
            d = None
            gc.collect() if len(ops) < 3 else None
            d = f.content.attributes['o%d' % NPOOL]
        b = run(apply_dict, d, op, value, True)
        need(a[0] == b[0] and same(a[1], b[1]), 'operation %d %r: got %r, an ordered dictionary gives %r', i, op, b, a)
        check_dict(d, model, 'after operation %d %r' % (i, op))
        changes += not same(before, [list(x) for x in model.items()])
        refs = refs or any(hasattr(x, 'class_id') for x in model.values())
        ctx.label('dict ' + op[0])
    d = None
    p = ctx.path('x.avb')
    f.write(p, order)
    data = C.read(p)
    os.remove(p)

    def place(x):
        return None if x is None else [y is x for y in poolobjs].index(True)
    toks = [(k, ('int', x) if isinstance(x, int) else ('str', x) if isinstance(x, str) else
             ('blob', bytes(x)) if isinstance(x, bytearray) else ('obj', place(x))) for k, x in model.items()]
    want = doc_for([(b'ATTR', OrderedDict(entries=entries(toks, lambda t: None if t is None else t + 1)))])
    C.check_bytes(want, data, order)
    g = C.open_bytes(data)
    gp = [g.content.attributes['o%d' % i] for i in range(NPOOL)]
    check_dict(g.content.attributes['o%d' % NPOOL],
               OrderedDict((k, (None if x[1] is None else gp[x[1]]) if x[0] == 'obj' else bytearray(x[1])
                            if x[0] == 'blob' else x[1]) for k, x in toks), 'after reload')
    return changes >= 3 and refs


def entries(items, ref):
    r = []
    for k, x in items:
        if x[0] == 'obj':
            r.append([k, 3, ref(x[1])])
        elif x[0] == 'int':
            r.append([k, 1, x[1]])
        elif x[0] == 'str':
            r.append([k, 2, x[1]])
        else:
            r.append([k, 4, x[1]])
    return r


def check_dict(d, model, when):
    need(len(d) == len(model), '%s: %d entries, expected %d', when, len(d), len(model))
    need(list(d) == list(model) and list(d.keys()) == list(model), '%s: keys %r, expected %r', when, list(d), list(model))
    need(same([list(x) for x in d.items()], [list(x) for x in model.items()]), '%s: entries differ: %r, expected %r', when,
         list(d.items()), list(model.items()))
    for k in model:
        need(same(d[k], model[k]), '%s: %r is %r, expected %r', when, k, d[k], model[k])


SRC = st.sampled_from(['loaded', 'loaded', 'created'])
ORD = st.sampled_from(['little', 'big'])
VAL = st.one_of(st.tuples(st.just('obj'), TOK), st.tuples(st.just('int'), st.integers(-2**31, 2**31 - 1)),
                st.tuples(st.just('str'), st.text(alphabet='ab', max_size=3)),
                st.tuples(st.just('blob'), st.binary(max_size=3)))

SUBS = [
    Sub('lists', st.tuples(st.sampled_from(LISTS), st.lists(TOK, max_size=6), st.lists(list_ops(), min_size=1, max_size=14), SRC,
                           ORD, st.booleans()), lists, quick=8000, thorough=120000),
    Sub('dicts', st.tuples(st.dictionaries(st.sampled_from(['a', 'b', 'c', 'd', 'o0', u'\u00e9', '']), VAL, max_size=5),
                           st.lists(dict_ops(), min_size=1, max_size=14), SRC, ORD, st.booleans()),
        dicts, quick=8000, thorough=120000),
]
