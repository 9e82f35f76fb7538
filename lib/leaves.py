"""Positions of scalar values inside model objects, and models with at least one value everywhere."""
from collections import OrderedDict
import refspec as R

ANY = R.Ref('any')


def sub(t, v, path, m):
    """yields (path, type) of every scalar inside value v of type t"""
    if isinstance(t, (R.Lst, R.Fix)):
        for i, x in enumerate(v):
            for r in sub(t.elem, x, path + (i,), None):
                yield r
    elif isinstance(t, R.Pair):
        for i, (a, x) in enumerate(zip(t.elems, v)):
            for r in sub(a, x, path + (i,), None):
                yield r
    elif isinstance(t, R.PPT):
        yield path + ('code',), R.S16
        yield path + ('type',), R.S16
        yield path + ('value',), R.Dbl() if v['type'] == 2 else R.S32
    elif isinstance(t, (R.Struct, R.TrackT, R.CtrlPoint, R.PluginChunk)):
        for n, ft in t.fields:
            if n in v:
                for r in sub(ft, v[n], path + (n,), None):
                    yield r
    elif isinstance(t, R.ParamValues):
        vt = t.vt(m)
        for i, cp in enumerate(v):
            p = path + (i,)
            yield p + ('offset', 0), R.S32
            yield p + ('offset', 1), R.S32
            yield p + ('timescale',), R.S32
            yield p + ('value',), vt
            for r in sub(R.Lst('h', R.PPT()), cp['pp'], p + ('pp',), None):
                yield r
    elif isinstance(t, R.ItemValue):
        yield path, {1: R.S32, 2: R.Dbl(), 4: R.Ref('comp')}[m['value_type']]
    elif isinstance(t, R.AttrItem):
        for i, (n, et, x) in enumerate(v):
            yield path + (i, 0), R.Str()
            yield path + (i, 2), {1: R.S32, 2: R.Str(), 3: ANY, 4: R.Blob('I')}[et]
    elif isinstance(t, R.LineMap):
        for i in range(len(v)):
            yield path + (i,), R.S32
    elif isinstance(t, R.MpgFields):
        for i in range(len(v)):
            yield path + (i, 0), R.U8
            yield path + (i, 1), R.U32
    elif isinstance(t, (R.PixelLayout, R.FormatDescs)):
        for i in range(len(v)):
            for n, ft in t.elem_fields:
                yield path + (i, n), ft
    else:
        yield path, t


def leaves(cid, m):
    for n, t, o in R.fields(cid):
        if n in m:
            for r in sub(t, m[n], (n,), m):
                yield r


def get(m, path):
    for k in path:
        m = m[k]
    return m


def put(m, path, v):
    m = get(m, path[:-1])
    m[path[-1]] = v


def one(t, m=None):
    """a value of type t with one element in every list"""
    if isinstance(t, R.Lst):
        if isinstance(t.elem, R.Ref):
            return []
        if isinstance(t.elem, R.TrackT):
            return [OrderedDict((n, R.zero(ft)) for n, ft in R.TrackT.fields)]
        return [one(t.elem)]
    if isinstance(t, R.Fix):
        return [one(t.elem) for i in range(t.n)]
    if isinstance(t, R.Pair):
        return [one(x) for x in t.elems]
    if isinstance(t, R.LineMap):
        return [0]
    if isinstance(t, R.MpgFields):
        return [[0, 0]]
    if isinstance(t, (R.PixelLayout, R.FormatDescs)):
        return [OrderedDict((n, R.zero(ft)) for n, ft in t.elem_fields)]
    if isinstance(t, R.AttrItem):
        return [['number', 1, 0], ['text', 2, ''], ['bytes', 4, b''], ['ref', 3, None]]
    if isinstance(t, R.ItemValue):
        return {1: 0, 2: 0.0, 4: None}[m['value_type']]
    if isinstance(t, R.ParamValues):
        v = 0.0 if m['value_type'] == 2 else None if m['value_type'] == 4 else 0
        return [OrderedDict([('offset', [0, 1]), ('timescale', 1), ('value', v), ('pp', [
            OrderedDict([('code', 5), ('type', 1), ('value', 0)]),
            OrderedDict([('code', 6), ('type', 2), ('value', 0.0)])])])]
    if isinstance(t, (R.Struct, R.CtrlPoint, R.PluginChunk)):
        return OrderedDict((n, one(x)) for n, x in t.fields)
    return R.zero(t)


def full_model(cid, value_type=1):
    """a valid model of a class: every optional field there, one element in every list"""
    m = OrderedDict()
    for n, t, o in R.fields(cid):
        if n == 'value_type':
            m[n] = value_type
        elif n == 'mob_type_id':
            m[n] = 1
        else:
            m[n] = one(t, m)
    if cid in (b'ABIN', b'BINF'):
        m['items'] = []
    return m


def wrap(models, order='little', large=False, stamp=1500000000, root=None):
    """a document of a bin holding the given [(cid, model)] in its attributes"""
    objs = OrderedDict()
    entries = []
    for i, (cid, m) in enumerate(models):
        objs[i + 1] = (cid, m)
        entries.append(['o%d' % i, 3, i + 1])
    n = len(models)
    objs[n + 1] = (b'BVst', full_model(b'BVst'))
    objs[n + 2] = (b'ATTR', OrderedDict(entries=entries))
    rcid, b = root or (b'ABIN', R.zero_model(b'ABIN'))
    b['large_bin'] = large
    b['view_setting'], b['attributes'] = n + 1, n + 2
    objs[n + 3] = (rcid, b)
    return R.Doc(objs, n + 3, order, stamp, 'leaves')


def lib_put(obj, cid, m, path, v):
    """the same change as put(m, path, v), on the library's object; v is what the program assigns"""
    if cid == b'ATTR':
        name = m['entries'][path[1]][0]
        if path[2] == 0:
            old = obj.pop(name)
            obj[v] = old
        else:
            obj[name] = v
        return
    if cid in (b'PRLS', b'TMCS'):
        if len(path) == 1:
            obj[:] = v
        else:
            obj[path[1]] = v
        return
    cur = obj
    for k in path[:-1]:
        cur = cur[k] if isinstance(k, int) or isinstance(cur, dict) else getattr(cur, k)
    k = path[-1]
    if isinstance(k, int) or isinstance(cur, dict):
        cur[k] = v
    else:
        setattr(cur, k, v)
