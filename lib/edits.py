"""Random edit histories: one description applied to the model document and to library objects.

Ops (tuples):
  ('set', k, name, value)            assign a field (value: model value)
  ('group', k, [(name, value)..])    give an object an optional group of fields it lacks
  ('sub', k, list, i, name, value)   assign a field of a helper object inside a list
  ('item', k, name, i, value)        assign one element of a fixed-size list (rect, colour, pair)
  ('list', k, name, how, args)       operate on a list field; name 'entries' on a list object
  ('attr', k, how, args)             operate on an attribute set
  ('new', k, cid, model)             create an object through the factory (initially unlinked)
  ('touch', k)                       read every field
"""
from collections import OrderedDict
from hypothesis import strategies as st
import refspec as R
import gen as G
import bridge as B

LISTS = (b'PRLS', b'TMCS')
FIXED_NAMES = {'value_type', 'large_bin'}


def ftypes(cid):
    return {n: t for n, t, o in G.fields(cid)[0]}


def elem_type(t):
    if isinstance(t, R.Lst):
        return t.elem
    if isinstance(t, R.LineMap):
        return R.S32
    return None


def clone(doc):
    d = R.Doc(OrderedDict((k, (c, G.copy_model(m))) for k, (c, m) in doc.objs.items()), doc.root, doc.order,
              doc.last_save, doc.creator)
    return d


# ---------------------------------------------------------------- list model
def list_apply(v, how, args):
    """the effect of a list operation on a plain list"""
    if how == 'append':
        v.append(args[0])
    elif how == 'insert':
        v.insert(args[0], args[1])
    elif how == 'extend':
        v.extend(args[0])
    elif how == 'iadd':
        v += args[0]
    elif how == 'delitem':
        del v[args[0]]
    elif how == 'delslice':
        del v[args[0]:args[1]]
    elif how == 'pop':
        v.pop(args[0])
    elif how == 'setitem':
        v[args[0]] = args[1]
    elif how == 'setslice':
        v[args[0]:args[1]] = args[2]
    elif how == 'reverse':
        v.reverse()
    elif how == 'clear':
        del v[:]
    elif how == 'clearm':
        v.clear()
    elif how == 'permute':
        v[:] = [v[i] for i in args[0]]
    elif how == 'imul':
        v *= args[0]
    elif how == 'remove':       # by value of element i
        v.remove(v[args[0]])
    else:
        raise ValueError(how)
    return v


def conv_args(how, args, conv):
    """replace the element values in args by conv(value)"""
    if how in ('append',):
        return [conv(args[0])]
    if how in ('insert', 'setitem'):
        return [args[0], conv(args[1])]
    if how in ('extend', 'iadd'):
        return [[conv(x) for x in args[0]]]
    if how == 'setslice':
        return [args[0], args[1], [conv(x) for x in args[2]]]
    return list(args)


# -------------------------------------------------------------------- model
def apply_model(doc, op):
    kind, k = op[0], op[1]
    if kind == 'new':
        doc.objs[k] = (op[2], G.copy_model(op[3]))
        # the root stays last in drawing order
        return
    if kind == 'touch':
        return
    cid, m = doc.objs[k]
    if kind == 'set':
        m[op[2]] = G.copy_model(op[3])
    elif kind == 'group':
        for n, v in op[2]:
            m[n] = G.copy_model(v)
        # model dictionaries are compared without order
    elif kind == 'sub':
        m[op[2]][op[3]][op[4]] = G.copy_model(op[5])
    elif kind == 'item':
        m[op[2]][op[3]] = op[4]
    elif kind == 'list':
        list_apply(m[op[2]], op[3], G.copy_model(list(op[4])))
    elif kind == 'attr':
        how, args = op[2], op[3]
        e = m['entries']
        if how in ('set', 'update'):
            for n, t, v in ([args] if how == 'set' else args):
                for x in e:
                    if x[0] == n:
                        x[1:] = [t, v]
                        break
                else:
                    e.append([n, t, v])
        elif how in ('del', 'pop'):
            e[:] = [x for x in e if x[0] != args]
        elif how == 'setdefault':
            n, t, v = args
            if all(x[0] != n for x in e):
                e.append([n, t, v])
        elif how == 'popitem':
            e.pop(-1 if args else 0)
        elif how == 'clear':
            del e[:]
        elif how == 'move':
            x = [x for x in e if x[0] == args][0]
            e.remove(x)
            e.append(x)
        else:
            raise ValueError(how)
    else:
        raise ValueError(kind)


# ---------------------------------------------------------------------- lib
def attr_value(t, v, objs):
    if t == 3:
        return objs[v] if v is not None else None
    return bytearray(v) if t == 4 else v


def apply_lib(f, objs, doc, op):
    """objs: {model id: library object}; doc: the model BEFORE the edit.  Returns the object a 'new' op creates."""
    kind, k = op[0], op[1]
    if kind == 'new':
        o = getattr(f.create, R.KINDS[op[2]][0])()
        objs[k] = o
        B.fill(f, o, op[2], op[3], objs)
        return o
    obj = objs[k]
    cid, m = doc.objs[k]
    ft = ftypes(cid)
    if kind == 'set':
        setattr(obj, op[2], B.from_plain(f, ft[op[2]], op[3], objs, m))
    elif kind == 'group':
        for n, v in op[2]:
            setattr(obj, n, B.from_plain(f, ft[n], v, objs, m))
    elif kind == 'sub':
        et = elem_type(ft[op[2]]) if op[2] != 'tracks' else R.TrackT()
        if isinstance(et, R.Struct) and et.cls is None:
            getattr(obj, op[2])[op[3]][op[4]] = op[5]
        else:
            setattr(getattr(obj, op[2])[op[3]], op[4], B.from_plain(f, dict(et.fields)[op[4]], op[5], objs))
    elif kind == 'item':
        getattr(obj, op[2])[op[3]] = op[4]
    elif kind == 'list':
        t = ft[op[2]]
        lst = obj if cid in LISTS else getattr(obj, op[2])
        if isinstance(t, R.ParamValues):
            def conv(v):
                return B.from_plain(f, t, [v], objs, m)[0]
        else:
            et = elem_type(t)

            def conv(v):
                return B.from_plain(f, et, v, objs, m)
        lib_list(lst, op[3], conv_args(op[3], op[4], conv))
    elif kind == 'attr':
        how, args = op[2], op[3]
        if how == 'set':
            obj[args[0]] = attr_value(args[1], args[2], objs)
        elif how == 'update':
            obj.update([(n, attr_value(t, v, objs)) for n, t, v in args])
        elif how == 'setdefault':
            obj.setdefault(args[0], attr_value(args[1], args[2], objs))
        elif how == 'del':
            del obj[args]
        elif how == 'pop':
            obj.pop(args)
        elif how == 'move':
            obj.move_to_end(args)
        elif how == 'popitem':
            obj.popitem(last=args)
        elif how == 'clear':
            obj.clear()
    elif kind == 'touch':
        B.obj_plain(obj, lambda o: id(o))


def lib_list(lst, how, args):
    if how == 'permute':
        cur = [x for x in lst]
        lst[:] = [cur[i] for i in args[0]]
    elif how == 'remove':
        lst.remove(lst[args[0]])
    elif how == 'iadd':
        lst.__iadd__(args[0])
    elif how == 'imul':
        lst.__imul__(args[0])
    else:
        list_apply(lst, how, args)


# ------------------------------------------------------------------ drawing
def reaching(doc, k):
    """ids from which object k can be reached"""
    memo = {}

    def go(x):
        if x not in memo:
            memo[x] = False
            memo[x] = x == k or any(go(r) for r in set(R.refs_of(*doc.objs[x])))
        return memo[x]
    return {x for x in doc.objs if go(x)}


def pool_for(doc, k):
    """objects that k may refer to without closing a cycle"""
    bad = reaching(doc, k) if k in doc.objs else set()
    p = G.Pool()
    for x, (cid, m) in doc.objs.items():
        if x not in bad and x != doc.root:
            p.add(x, cid)
    return p


def draw_list_op(draw, n, draw_elem, allow_shrink=True, null=False, remove_ok=True):
    """an operation on a list of n elements; draw_elem() gives a new element or raises LookupError"""
    hows = ['reverse', 'permute']
    grow = ['append', 'insert', 'extend', 'iadd', 'append', 'insert']
    if allow_shrink:
        hows += ['clear', 'clearm', 'delslice']
        if n:
            hows += ['delitem', 'pop', 'delitem']
            if remove_ok:
                hows.append('remove')
    try:
        first = draw_elem()
        hows += grow + ['setslice'] * allow_shrink
        if n:
            hows += ['setitem']
    except LookupError:
        first = None
    how = draw(st.sampled_from(hows))
    idx = st.integers(-n, n - 1) if n else None
    pos = st.integers(-n - 1, n + 1)
    if how == 'append':
        return how, [first]
    if how == 'insert':
        return how, [draw(pos), first]
    if how in ('extend', 'iadd'):
        return how, [[first] + ([draw_elem()] if draw(st.booleans()) else [])]
    if how in ('delitem', 'pop', 'remove'):
        return how, [draw(idx)]
    if how == 'setitem':
        return how, [draw(idx), first]
    if how == 'delslice':
        return how, [draw(pos), draw(pos)]
    if how == 'setslice':
        return how, [draw(pos), draw(pos), [first] if draw(st.booleans()) else []]
    if how == 'permute':
        return how, [draw(st.permutations(list(range(n))))]
    return how, []


def draw_op(draw, doc, opts, only=None, helpers=True, next_id=None, kinds=None):
    """an edit valid on doc, or None"""
    ks = [k for k in doc.objs if only is None or k in only]
    k = draw(st.sampled_from(ks))
    cid, m = doc.objs[k]
    fs, gs = G.fields(cid)
    what = draw(st.integers(0, 9))
    if what == 9 and next_id is not None:
        ncid = draw(st.sampled_from(kinds or [x for x in R.ALLKINDS if x not in (b'ABIN', b'BINF')]))
        return ('new', next_id, ncid, G.draw_object(draw, ncid, pool_for(doc, -1), opts))
    pool = pool_for(doc, k)
    if cid == b'ATTR':
        names = [x[0] for x in m['entries']]
        hows = ['set', 'set', 'update', 'setdefault'] + (['del', 'pop', 'move', 'set', 'popitem'] if names else []) + \
            (['clear'] if what == 8 else [])
        how = draw(st.sampled_from(hows))
        if how in ('del', 'pop', 'move'):
            return ('attr', k, how, draw(st.sampled_from(names)))
        if how == 'clear':
            return ('attr', k, how, None)
        if how == 'popitem':
            return ('attr', k, how, draw(st.booleans()))

        def entry():
            nm = draw(st.sampled_from(names)) if names and draw(st.booleans()) else draw(G.mactext)
            t = draw(st.sampled_from([1, 2, 3, 4, 3]))
            v = (G.draw_value(draw, G.ANYREF, pool, opts) if t == 3 else
                 draw({1: G.ints(-2 ** 31, 2 ** 31 - 1), 2: G.mactext, 4: G.blobs}[t]))
            return [nm, t, v]
        if how == 'update':
            return ('attr', k, how, [entry(), entry()])
        return ('attr', k, how, entry())
    cand = [(n, t) for n, t, o in fs if n in m and n not in FIXED_NAMES]
    if cid in LISTS:
        name, t = cand[0]
    else:
        absent = [g for g in gs if g and g[0] not in m]
        if absent and what == 8:
            g = draw(st.sampled_from(absent))
            ft = dict((n, t) for n, t, o in fs)
            return ('group', k, [(n, G.draw_value(draw, ft[n], pool, opts, m)) for n in g])
        # object references, lists and the like carry most of the structure: favour them
        heavy = [(n, t) for n, t in cand if isinstance(t, (R.Ref, R.Lst, R.ParamValues))]
        if heavy and what < 6:
            cand = heavy
        if not cand:
            return None
        name, t = draw(st.sampled_from(cand))
    islist = isinstance(t, (R.Lst, R.LineMap, R.ParamValues))
    if islist and (cid in LISTS or what % 3):
        v = m[name]
        reflist = isinstance(t, R.Lst) and t.reflist
        if not helpers and cid == b'SLCT' and name == 'tracks':
            return None
        if not helpers and not reflist:
            return ('set', k, name, G.draw_value(draw, t, pool, opts, m))
        if isinstance(t, R.Lst) and isinstance(t.elem, (R.Struct, R.TrackT)) and v and what in (1, 4):
            i = draw(st.integers(0, len(v) - 1))
            efs = R.TrackT.fields if isinstance(t.elem, R.TrackT) else t.elem.fields
            n2, t2 = draw(st.sampled_from(efs))
            if isinstance(t2, R.Ref) and t2.kind in ('mob', 'comp1') and not pool.options(t2.kind):
                return None
            return ('sub', k, name, i, n2, G.draw_value(draw, t2, pool, opts))

        def elem():
            if isinstance(t, R.ParamValues):
                for i in range(20):
                    r = G.draw_points(draw, m['value_type'], pool, opts)
                    if r:
                        return r[0]
                raise LookupError
            et = elem_type(t)
            if isinstance(et, R.TrackT):
                return G.draw_tracks(draw, 1, pool, opts)[0]
            if isinstance(et, R.Ref) and et.kind in ('comp1', 'mob') and not pool.options(et.kind):
                raise LookupError
            if isinstance(et, R.Struct) and any(isinstance(x, R.Ref) and x.kind == 'mob' for n, x in et.fields) and \
               not pool.options('mob'):
                raise LookupError
            return G.draw_value(draw, et, pool, opts)
        how, args = draw_list_op(draw, len(v), elem, allow_shrink=not (cid == b'SLCT' and name == 'tracks'),
                                 remove_ok=False)
        return ('list', k, name, how, args)
    if isinstance(t, R.Fix) and isinstance(t.elem, R.Int) and m[name] and helpers and what % 2:
        return ('item', k, name, draw(st.integers(0, t.n - 1)), draw(G.scalar(t.elem)))
    if cid == b'SLCT' and name == 'selected':
        return ('set', k, name, draw(st.integers(0, len(m['tracks']) - 1)))
    if cid == b'SLCT' and name == 'tracks':
        return None
    if isinstance(t, R.Lst) and isinstance(t.elem, R.Struct) and \
       any(isinstance(x, R.Ref) and x.kind == 'mob' for n, x in t.elem.fields) and not pool.options('mob'):
        return ('set', k, name, [])
    if isinstance(t, R.Lst) and t.reflist:
        # a reference list of the library keeps its own type: replace its contents
        v = G.draw_value(draw, t, pool, opts, m)
        return ('list', k, name, 'setslice', [0, len(m[name]), v])
    return ('set', k, name, G.draw_value(draw, t, pool, opts, m))


def prune(doc):
    keep = set(R.reachable(doc))
    for k in list(doc.objs):
        if k not in keep:
            del doc.objs[k]
