"""Between library objects and model values; uses only the library's public surface."""
import datetime
import uuid
from collections import OrderedDict
import refspec as R


class Mismatch(Exception):
    """a value observed on a library object has no meaning in the model"""


def stamp_of(dt):
    """seconds since the epoch of a naive local datetime, harness side"""
    return int(dt.replace(microsecond=0).timestamp())


def to_plain(t, v, idof, m=None):
    if isinstance(t, R.Ref):
        return None if v is None else idof(v)
    if isinstance(t, R.Int):
        if isinstance(v, bool) or not isinstance(v, int):
            raise Mismatch('integer expected, got %r' % (v,))
        return int(v)
    if isinstance(t, R.Bool):
        if v not in (True, False):
            raise Mismatch('bool expected, got %r' % (v,))
        return bool(v)
    if isinstance(t, (R.Dbl, R.Exp10)):
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Mismatch('number expected, got %r' % (v,))
        return float(v) if isinstance(t, R.Dbl) else v
    if isinstance(t, R.Str):
        if v is None and t.none:
            return None
        if not isinstance(v, str):
            raise Mismatch('text expected, got %r' % (v,))
        return v or None if t.none else v
    if isinstance(t, R.MobIDT):
        return bytes(v.bytes_le)
    if isinstance(t, R.RawUUID):
        return v.bytes
    if isinstance(t, R.Dt):
        if not isinstance(v, datetime.datetime):
            raise Mismatch('date expected, got %r' % (v,))
        return v
    if isinstance(t, (R.FourCC, R.Bytes, R.Blob, R.AvupData, R.PresetPath)):
        return bytes(v)
    if isinstance(t, R.Fix):
        return [to_plain(t.elem, x, idof) for x in v]
    if isinstance(t, R.Pair):
        if len(v) != len(t.elems):
            raise Mismatch('length of %r' % (v,))
        return [to_plain(a, x, idof) for a, x in zip(t.elems, v)]
    if isinstance(t, R.Lst):
        return [to_plain(t.elem, x, idof) for x in v]
    if isinstance(t, R.LineMap):
        return [to_plain(R.S32, x, idof) for x in v]
    if isinstance(t, R.MpgFields):
        return [[to_plain(R.U8, a, idof), to_plain(R.U32, b, idof)] for a, b in v]
    if isinstance(t, (R.PixelLayout, R.FormatDescs)):
        return [dict_plain(t.elem_fields, x, idof) for x in v]
    if isinstance(t, R.Struct) and t.cls is None:
        return dict_plain(t.fields, v, idof)
    if isinstance(t, R.TrackT):
        return OrderedDict((n, to_plain(ft, getattr(v, n), idof)) for n, ft in t.fields if hasattr(v, n))
    if isinstance(t, R.PPT):
        r = OrderedDict(code=to_plain(R.S16, v.code, idof))
        r['type'] = to_plain(R.S16, v.type, idof)
        r['value'] = to_plain(R.Dbl() if v.type == 2 else R.S32, v.value, idof)
        return r
    if isinstance(t, (R.Struct, R.CtrlPoint, R.PluginChunk)):
        return OrderedDict((n, to_plain(ft, getattr(v, n), idof)) for n, ft in t.fields)
    if isinstance(t, R.ItemValue):
        return to_plain({1: R.S32, 2: R.Dbl(), 4: R.Ref()}[m['value_type']], v, idof)
    if isinstance(t, R.ParamValues):
        r = []
        for cp in v:
            d = OrderedDict()
            d['offset'] = [to_plain(R.S32, x, idof) for x in cp.offset]
            d['timescale'] = to_plain(R.S32, cp.timescale, idof)
            d['value'] = to_plain({1: R.S32, 2: R.Dbl(), 4: R.Ref()}[m['value_type']], cp.value, idof)
            d['pp'] = [to_plain(R.PPT(), x, idof) for x in cp.pp]
            r.append(d)
        return r
    raise TypeError(t)


def dict_plain(fields, v, idof):
    if set(v.keys()) != {n for n, t in fields}:
        raise Mismatch('keys %r' % (sorted(v.keys()),))
    return OrderedDict((n, to_plain(t, v[n], idof)) for n, t in fields)


def attr_plain(obj, idof):
    r = []
    for k, v in obj.items():
        if not isinstance(k, str):
            raise Mismatch('attribute name %r' % (k,))
        if isinstance(v, bool):
            raise Mismatch('attribute %r is a bool' % k)
        if isinstance(v, int):
            r.append([k, 1, int(v)])
        elif isinstance(v, str):
            r.append([k, 2, str(v)])
        elif isinstance(v, (bytearray, bytes)):
            r.append([k, 4, bytes(v)])
        else:
            r.append([k, 3, None if v is None else idof(v)])
    return r


def obj_plain(obj, idof):
    cid = bytes(obj.class_id)
    m = OrderedDict()
    if cid not in R.KINDS:
        raise Mismatch('object of unknown class %r' % cid)
    if cid == b'ATTR':
        m['entries'] = attr_plain(obj, idof)
        return cid, m
    if cid in (b'PRLS', b'TMCS'):
        m['entries'] = [None if x is None else idof(x) for x in obj]
        return cid, m
    for n, t, opt in R.fields(cid):
        if not hasattr(obj, n):
            continue
        try:
            m[n] = to_plain(t, getattr(obj, n), idof, m)
        except Mismatch as e:
            raise Mismatch('%s.%s: %s' % (cid.decode(), n, e))
    return cid, m


class Snap(R.Doc):
    pass


def snapshot(f, root=None):
    """walk everything reachable from the document's content, through attributes only"""
    ids = {}
    keep = []
    objs = OrderedDict()
    queue = []

    def idof(o):
        k = id(o)
        if k not in ids:
            if not hasattr(o, 'class_id') or not o.class_id:
                raise Mismatch('reference to %r' % (o,))
            ids[k] = len(ids) + 1
            keep.append(o)
            queue.append(o)
        return ids[k]
    r = idof(f.content if root is None else root)
    while queue:
        o = queue.pop()
        objs[ids[id(o)]] = obj_plain(o, idof)
    s = Snap(objs, r, None, stamp_of(f.last_save), f.creator_version)
    s.keep = keep
    return s


# ------------------------------------------------------------------ comparing
def fdec(d):
    """nearest double of a decimal"""
    f = R.dec_fraction(d)
    return f.numerator / f.denominator if f.denominator != 1 else float(f.numerator)


def val_eq(exp, got, where, strict_dec=False):
    """exp: model value, got: observed plain value; raises Mismatch"""
    if isinstance(exp, R.Dec):
        e = fdec(exp)
        if isinstance(got, R.Dec):
            ok = R.dec_fraction(exp) == R.dec_fraction(got)
        elif strict_dec:
            ok = got == e
        else:
            ok = abs(got - e) <= 1e-12 * max(abs(e), 1e-300)
        if not ok:
            raise Mismatch('%s: rate %r expected, got %r' % (where, e, got))
        return
    if isinstance(got, datetime.datetime) and isinstance(exp, int):
        want = datetime.datetime.fromtimestamp(exp)
        if got != want or got.fold != want.fold:
            raise Mismatch('%s: date %s expected, got %s' % (where, want, got))
        return
    if isinstance(exp, float) and isinstance(got, (float, int)):
        if R.canon(None, exp) != R.canon(None, float(got)):
            raise Mismatch('%s: %r expected, got %r' % (where, exp, got))
        return
    if isinstance(exp, dict):
        if set(exp) != set(got):
            raise Mismatch('%s: fields present differ: expected %s, got %s' % (where, sorted(exp), sorted(got)))
        for k in exp:
            val_eq(exp[k], got[k], '%s.%s' % (where, k), strict_dec)
        return
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            raise Mismatch('%s: %s expected, got %s' % (where, R.short(exp), R.short(got)))
        for i, (a, b) in enumerate(zip(exp, got)):
            val_eq(a, b, '%s[%d]' % (where, i), strict_dec)
        return
    if isinstance(exp, (bytes, bytearray)):
        if bytes(exp) != got:
            raise Mismatch('%s: %s expected, got %s' % (where, R.short(exp), R.short(got)))
        return
    if type(exp) is not type(got) or exp != got:
        raise Mismatch('%s: %s expected, got %s' % (where, R.short(exp), R.short(got)))


def match_docs(exp, got, locks_default=False, header=True, strict_dec=False):
    """exp: model Doc; got: Snap or model Doc.  Raises Mismatch unless isomorphic."""
    mp, inv = {}, {}
    stack = [(exp.root, got.root, 'root')]
    while stack:
        x, y, path = stack.pop()
        if x in mp:
            if mp[x] != y:
                raise Mismatch('%s: refers to the wrong object' % path)
            continue
        if y in inv:
            raise Mismatch('%s: two objects became one' % path)
        mp[x] = y
        inv[y] = x
        cx, mx = exp.objs[x]
        cy, my = got.objs[y]
        where = '%s<%s>' % (path, cx.decode())
        if cx != cy:
            raise Mismatch('%s: became a %r' % (where, cy))
        mx = OrderedDict((k, v) for k, v in mx.items() if k != '_legacy')
        my = OrderedDict((k, v) for k, v in my.items() if k != '_legacy')
        if locks_default:
            for mm in (mx, my):
                if 'tracks' in mm:
                    mm['tracks'] = [OrderedDict(list(t.items()) + ([] if 'lock_number' in t else [('lock_number', 0)]))
                                    for t in mm['tracks']]
        if set(mx) != set(my):
            raise Mismatch('%s: fields present differ: missing %s, unexpected %s' % (
                where, sorted(set(mx) - set(my)), sorted(set(my) - set(mx))))
        rx, ry = [], []
        keys = list(mx)

        def ordered(mm, out):
            q = OrderedDict((k, mm[k]) for k in keys)
            return R.map_refs(cx, q, lambda r: (out.append(r), '#')[1])
        try:
            ax, ay = ordered(sort_tracks(mx), rx), ordered(sort_tracks(my), ry)
        except (TypeError, AttributeError, KeyError, ValueError) as e:
            raise Mismatch('%s: malformed value (%s)' % (where, e))
        for k in keys:
            val_eq(ax[k], ay[k], '%s.%s' % (where, k), strict_dec)
        if len(rx) != len(ry):
            raise Mismatch('%s: number of references differs' % where)
        for i in range(len(rx)):
            stack.append((rx[i], ry[i], '%s.%d' % (where, i)))
        if len(path) > 4000:
            path = '...' + path[-200:]
    if header:
        if exp.last_save != got.last_save:
            raise Mismatch('last save time: %r expected, got %r' % (exp.last_save, got.last_save))
        if exp.creator.rstrip(' \0') != got.creator.rstrip(' \0').lstrip('\0') and \
           exp.creator.strip('\0').rstrip(' ') != got.creator.rstrip(' '):
            raise Mismatch('creator: %r expected, got %r' % (exp.creator, got.creator))
    return mp


_TORDER = [n for _, n, _ in R.TRACK_FIELDS] + ['lock_number']


def sort_tracks(m):
    if 'tracks' not in m:
        return m
    m = OrderedDict(m)
    m['tracks'] = [OrderedDict((n, t[n]) for n in _TORDER if n in t) for t in m['tracks']]
    return m


# ------------------------------------------------------------------- building
def from_plain(f, t, v, objs, m=None):
    import avb
    from avb import mobid
    if isinstance(t, R.Ref):
        return None if v is None else objs[v]
    if isinstance(t, R.Exp10):
        return fdec(v) if isinstance(v, R.Dec) else v
    if isinstance(t, R.MobIDT):
        return mobid.MobID(bytes_le=v)
    if isinstance(t, R.RawUUID):
        return uuid.UUID(bytes=v)
    if isinstance(t, R.Dt):
        return datetime.datetime.fromtimestamp(v) if isinstance(v, int) else v
    if isinstance(t, (R.Blob, R.Bytes, R.AvupData, R.PresetPath)):
        return bytearray(v)
    if isinstance(t, R.Fix):
        return [from_plain(f, t.elem, x, objs) for x in v]
    if isinstance(t, R.Pair):
        return [from_plain(f, a, x, objs) for a, x in zip(t.elems, v)]
    if isinstance(t, R.Lst):
        return [from_plain(f, t.elem, x, objs) for x in v]
    if isinstance(t, R.MpgFields):
        return [list(x) for x in v]
    if isinstance(t, (R.PixelLayout, R.FormatDescs)):
        return [dict(x) for x in v]
    if isinstance(t, R.LineMap):
        return list(v)
    if isinstance(t, R.Struct) and t.cls is None:
        return {n: from_plain(f, ft, v[n], objs) for n, ft in t.fields}
    if isinstance(t, R.PPT):
        o = f.create.ParamControlPointProperty()
        o.code, o.type, o.value = v['code'], v['type'], v['value']
        return o
    if isinstance(t, (R.Struct, R.CtrlPoint, R.PluginChunk, R.TrackT)):
        o = getattr(f.create, t.cls)()
        for n, ft in t.fields:
            if n in v:
                setattr(o, n, from_plain(f, ft, v[n], objs))
        return o
    if isinstance(t, R.ItemValue):
        return objs[v] if m['value_type'] == 4 and v is not None else v
    if isinstance(t, R.ParamValues):
        r = []
        for cp in v:
            o = f.create.ParamControlPoint()
            o.offset = list(cp['offset'])
            o.timescale = cp['timescale']
            o.value = objs[cp['value']] if m['value_type'] == 4 and cp['value'] is not None else cp['value']
            o.pp = [from_plain(f, R.PPT(), x, objs) for x in cp['pp']]
            r.append(o)
        return r
    return v


def fill(f, obj, cid, m, objs):
    if cid == b'ATTR':
        for n, t, v in m['entries']:
            obj[n] = (objs[v] if v is not None else None) if t == 3 else bytearray(v) if t == 4 else v
        return
    if cid in (b'PRLS', b'TMCS'):
        for v in m['entries']:
            obj.append(None if v is None else objs[v])
        return
    for n, t, o in R.fields(cid):
        if n in m:
            setattr(obj, n, from_plain(f, t, m[n], objs, m))


def build(doc, f=None):
    """create the model document through the creation API of a new file"""
    import avb
    if f is None:
        f = avb.open()
    objs = OrderedDict()
    for k, (cid, m) in doc.objs.items():
        if k == doc.root and cid == b'ABIN' and bytes(f.content.class_id) == b'ABIN':
            obj = f.content
        else:
            obj = getattr(f.create, R.KINDS[cid][0])()
        fill(f, obj, cid, m, objs)
        objs[k] = obj
    f.content = objs[doc.root]
    f.last_save = datetime.datetime.fromtimestamp(doc.last_save)
    f.creator_version = doc.creator
    f._keep = objs
    return f, objs
