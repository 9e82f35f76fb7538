"""Unsavable values are refused, never silently saved as something else."""
import datetime
import os
import uuid
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.mobid
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the value put into the document is outside what its field can store'
ASSUMPTIONS = ['a truth value field stores the truth of whatever it is given',
               'None and empty text are the same, and so are a byte string and a byte array of the same bytes, '
               'and equal numbers of different types']


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


PLACES = {}
for c in R.ALLKINDS:
    for vt in ((1, 2, 4) if c in (b'PRCL', b'PRIT') else (1,)):
        m = L.full_model(c, vt)
        PLACES[c, vt] = [(p, t) for p, t in L.leaves(c, m)]
KEYS = list(PLACES)
KEY_LIST = [(k, i) for k in KEYS for i in range(len(PLACES[k]))]
# several positions of one type are alike: an index by type, so rare types come up as often as integers
BYTYPE = {}
for k, i in KEY_LIST:
    BYTYPE.setdefault(type(PLACES[k][i][1]).__name__, []).append((k, i))


class Odd(object):
    pass


odd = st.sampled_from([('odd', x) for x in ('none', 'object', 'list', 'dict', 'set', 'complex', 'str', 'bytes', 'nan',
                                            'float', 'type', 'foreign', 'self', 'int', 'tuple', 'numstr')])


def bad_for(t):
    if isinstance(t, R.Int):
        return st.one_of(st.sampled_from([t.hi + 1, t.lo - 1, t.hi * 2 + 1, t.hi * 2 + 2, 2 ** 64, -2 ** 63 - 1, t.lo * 2,
                                          2 ** 31, 2 ** 32, -1, 256, 65536, 70000]),
                         st.integers(t.hi + 1, t.hi * 4 + 4), st.integers(-2 ** 65, t.lo - 1), odd)
    if isinstance(t, R.Str):
        return st.one_of(st.tuples(st.just('text'), st.sampled_from(['\ud800', '\u65e5', '\U0001F3AC', 'a\0', '\0a', '\0',
                                                                     '\u0301', 'x' * 40]), st.sampled_from(
                                                                         [1, 1, 65535, 65536, 65533, 70000, 131073])), odd)
    if isinstance(t, R.Blob):
        hi = t.maxlen
        return st.one_of(odd, st.tuples(st.just('blob'), st.sampled_from([0, 1] + ([hi + 1, hi + 2, 2 * hi + 2, hi + 300]
                                                                                  if hi < 70000 else [66000]))))
    if isinstance(t, (R.Bytes, R.FourCC)):
        return st.one_of(odd, st.tuples(st.just('blob'), st.integers(0, 20)))
    if isinstance(t, R.Dt):
        return st.one_of(odd, st.tuples(st.just('date'), st.integers(1, 9998), st.integers(0, 86400 * 365)))
    if isinstance(t, (R.Exp10, R.Dbl)):
        return st.one_of(odd, st.sampled_from([2147483648, 2147483647.5, 1e10, 1e300, float('inf'), -float('inf'),
                                               float('nan'), -2147483649, -3e9, 10 ** 400]), st.integers(2 ** 31, 2 ** 40))
    return odd


@st.composite
def cases(draw):
    tn = draw(st.sampled_from(sorted(BYTYPE)))
    key, i = draw(st.sampled_from(BYTYPE[tn]))
    p, t = PLACES[key][i]
    return key, i, draw(bad_for(t)), draw(st.sampled_from(['little', 'big'])), draw(st.sampled_from(['create', 'edit']))


_foreign = []


def foreign():
    if not _foreign:
        g = avb.open()
        h = C.open_bytes(R.encode_file(L.wrap([(b'FILL', L.full_model(b'FILL'))]))[0])
        _foreign.extend([g, g.create.Filler(media_kind='picture', edit_rate=25), h, h.content.attributes['o0']])
    return _foreign


def value(spec, obj, t):
    if not isinstance(spec, tuple):
        return spec
    if spec[0] == 'text':
        return spec[1] * spec[2]
    if spec[0] == 'blob':
        return bytearray(spec[1])
    if spec[0] == 'date':
        return datetime.datetime(spec[1], 1, 1) + datetime.timedelta(seconds=spec[2])
    n = spec[1]
    return {'none': None, 'object': Odd(), 'list': [1, 2, 3], 'dict': {'a': 1}, 'set': {3}, 'complex': 1j, 'str': 'abcd',
            'bytes': b'abcd', 'nan': float('nan'), 'float': 1.5, 'type': int, 'foreign': foreign()[1], 'int': 7,
            'self': foreign()[3], 'tuple': (1, 2), 'numstr': '25'}[n]


def fresh(key, order, how):
    c, vt = key
    m = L.full_model(c, vt)
    if c in (b'ABIN', b'BINF'):
        doc = L.wrap([], order, root=(c, m))
        k = doc.root
    else:
        doc = L.wrap([(c, m)], order)
        k = 1
    if how == 'create':
        f, objs = B.build(doc)
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        objs = {x: f.read_object(refmap[x]) for x in doc.objs}
    return doc, k, m, f, objs


def same(t, v, got):
    """v was in memory, got is what the file says"""
    if isinstance(t, R.Str):
        return (v or '') == (got or '') if v is None or isinstance(v, str) else False
    if isinstance(t, (R.Blob, R.Bytes, R.FourCC, R.AvupData, R.PresetPath)):
        return isinstance(v, (bytes, bytearray)) and bytes(v) == got or (v is None and got == b'')
    if isinstance(t, R.Bool):
        return bool(v) == got
    if isinstance(t, R.MobIDT):
        return isinstance(v, avb.mobid.MobID) and bytes(v.bytes_le) == got
    if isinstance(t, R.RawUUID):
        return isinstance(v, uuid.UUID) and v.bytes == got
    if isinstance(t, R.Dt):
        return isinstance(v, datetime.datetime) and v.timestamp() == got
    if isinstance(t, R.Exp10):
        # rounding to the digits there are is C11's
        x = R.dec_fraction(got)
        return isinstance(v, (int, float)) and v == v and abs(v) != float('inf') and abs(x - R.Fraction(v)) <= 1
    if isinstance(t, R.Dbl):
        return isinstance(v, (int, float)) and (v == got or (v != v and got != got))
    if isinstance(t, R.Int):
        return isinstance(v, (int, float)) and v == got
    if isinstance(t, R.Ref):
        return v is None and got is None
    raise HarnessError('type %r' % t)


def inside(t, v):
    """is v a value the field stores?"""
    if isinstance(t, R.Int):
        return type(v) is int and t.lo <= v <= t.hi
    if isinstance(t, R.Bool):
        return True
    if isinstance(t, R.Str):
        if not isinstance(v, str):
            return v is None
        try:
            b = v.encode('utf-8' if t.utf8 else 'mac_roman')
        except UnicodeError:
            return False
        return len(b) <= 30000 and v == v.strip('\0')
    return False


def clean(ctx):
    for x in os.listdir(ctx.scratch):
        if x.endswith('.avb') or x.endswith('.tmp'):
            os.remove(ctx.path(x))


def run(ctx, case):
    key, i, spec, order, how = case
    p, t = PLACES[key][i]
    doc, k, m, f, objs = fresh(key, order, how)
    c = key[0]
    v = value(spec, objs[k], t)
    name = '%s.%s' % (c.decode(), '.'.join(map(str, p)))
    try:
        try:
            L.lib_put(objs[k], c, m, p, v)
        except Exception:
            ctx.label('refused when set')
            return True
        out = ctx.path('b.avb')
        try:
            f.write(out, order)
        except Exception as e:
            if isinstance(t, (R.Int, R.Str)) and inside(t, v) and p[-1] not in ('type', 'value_type', 'selected') and \
                    not (c == b'ATTR' and p[2] == 0):
                raise
            need(not os.path.exists(out), '%s: a refused save left a file behind', name)
            ctx.label('refused:' + type(t).__name__)
            return True
        ctx.label('saved:' + type(t).__name__)
        data = C.read(out)
        try:
            dec = R.decode_file(data)
        except R.FormatError as e:
            raise Violation('%s = %s is saved as a file that cannot be read: %s' % (name, R.short(v), e))
        o = dec.objs[dec.root]
        if k == 1:
            kk = [x for x in dec.objs if dec.objs[x][0] == b'ATTR' and dec.objs[x][1]['entries'] and
                  dec.objs[x][1]['entries'][0][0] == 'o0'][-1]
            o = dec.objs[dec.objs[kk][1]['entries'][0][2]]
        if c == b'ATTR' and p[2] == 2:
            e = [x for x in o[1]['entries'] if x[0] == m['entries'][p[1]][0]]
            need(e and attr_same(v, e[0]), '%s = %s is saved as %s', name, R.short(v), e and R.short(e[0][2]))
            return not isinstance(v, (int, str, bytes, bytearray))
        if c == b'ATTR':
            need(any(x[0] == v for x in o[1]['entries']), 'attribute name %s saved as %r', R.short(v),
                 [x[0] for x in o[1]['entries']])
            return True
        try:
            got = L.get(o[1], p)
        except (KeyError, IndexError):
            raise Violation('%s = %s is lost by saving' % (name, R.short(v)))
        need(same(t, v, got), '%s = %s is saved as %s', name, R.short(v), R.short(got))
        # the rest is as it was
        L.put(m, p, got)
        C.check_bytes(doc, data, order)
        return not inside(t, v)
    finally:
        f.close()
        clean(ctx)


def attr_same(v, e):
    n, t, got = e
    if isinstance(v, (bytes, bytearray)):
        return t == 4 and bytes(v) == got
    if isinstance(v, str):
        return t == 2 and v == got
    if isinstance(v, int):
        return t == 1 and v == got
    return v is None and t == 3 and got is None


# ------------------------------------------------------- lists and fixed-shape values
def containers(t, v, path, m):
    if isinstance(t, (R.Fix, R.Pair, R.Lst, R.MpgFields, R.LineMap, R.FormatDescs, R.PixelLayout, R.ParamValues)):
        yield path, t
    if isinstance(t, (R.Lst, R.Fix)):
        for i, x in enumerate(v):
            for r in containers(t.elem, x, path + (i,), None):
                yield r
    elif isinstance(t, R.Pair):
        for i, (a, x) in enumerate(zip(t.elems, v)):
            for r in containers(a, x, path + (i,), None):
                yield r
    elif isinstance(t, R.ParamValues):
        for i, cp in enumerate(v):
            yield path + (i, 'offset'), R.Fix(2, R.S32)
            yield path + (i, 'pp'), R.Lst('h', R.PPT())
    elif isinstance(t, R.MpgFields):
        for i in range(len(v)):
            yield path + (i,), R.Pair(R.U8, R.U32)
    elif isinstance(t, (R.Struct, R.TrackT, R.CtrlPoint, R.PluginChunk)) and not isinstance(t, R.PPT):
        for n, ft in t.fields:
            if n in v:
                for r in containers(ft, v[n], path + (n,), None):
                    yield r


BOXES = []
for c, vt in KEYS:
    m = L.full_model(c, vt)
    for n, t, o in R.fields(c):
        BOXES += [((c, vt), p, tt) for p, tt in containers(t, m[n], (n,), m)]
SMALL = [b for b in BOXES if isinstance(b[2], R.Lst) and b[2].fmt in 'hH' or isinstance(b[2], (R.FormatDescs, R.MpgFields))]
HOWS = ['short', 'long', 'longer', 'none', 'int', 'empty', 'nested', 'withnone', 'withodd', 'tuple', 'foreign']


@st.composite
def shapes_cases(draw):
    i = draw(st.integers(0, len(BOXES) - 1))
    return i, draw(st.sampled_from(HOWS)), draw(st.sampled_from(['little', 'big'])), draw(st.sampled_from(['create', 'edit']))


def judge(ctx, f, order, name, refused_ok=True):
    """save; what was saved, if it was, must be what is in memory"""
    out = ctx.path('b.avb')
    try:
        f.write(out, order)
    except Exception:
        need(not os.path.exists(out), '%s: a refused save left a file behind', name)
        ctx.label('refused')
        return False
    ctx.label('saved')
    data = C.read(out)
    try:
        dec = R.decode_file(data)
    except R.FormatError as e:
        raise Violation('%s is saved as a file that cannot be read: %s' % (name, e))
    try:
        B.match_docs(locks(dec), B.snapshot(f))
    except (B.Mismatch, TypeError, ValueError, AttributeError) as e:
        raise Violation('%s is saved as something else: %s' % (name, e))
    back = C.open_bytes(data)
    B.match_docs(locks(dec), B.snapshot(back))
    return True


def locks(doc):
    for c, m in doc.objs.values():
        for t in m.get('tracks') or ():
            t.setdefault('lock_number', 0)
    return doc


def shapes(ctx, case):
    i, how, order, src = case
    key, p, t = BOXES[i]
    doc, k, m, f, objs = fresh(key, order, src)
    for e in m.get('tracks') or ():
        e.setdefault('lock_number', 0)
    cur = L.get(m, p)
    v = B.from_plain(f, t, cur, objs, m)
    v = list(v)
    e = v[-1:] or [1]
    if how == 'withnone' and ((isinstance(t, R.Pair) and isinstance(t.elems[-1], R.Str)) or
                              (isinstance(t, R.Lst) and isinstance(t.elem, R.Str))):
        return False            # None is empty text
    v = {'short': v[:-1], 'long': v + e, 'longer': v + e * 3, 'none': None, 'int': 3, 'empty': [], 'nested': [v],
         'withnone': v[:-1] + [None], 'withodd': v[:-1] + [Odd()], 'tuple': tuple(v),
         'foreign': v[:-1] + [foreign()[1]]}[how]
    name = '%s.%s %s' % (key[0].decode(), '.'.join(map(str, p)), how)
    try:
        try:
            L.lib_put(objs[k], key[0], m, p, v)
        except Exception:
            ctx.label('refused when set')
            return True
        return not judge(ctx, f, order, name)
    finally:
        f.close()
        clean(ctx)


@st.composite
def long_cases(draw):
    key, p, t = draw(st.sampled_from(SMALL))
    hi = 32767 if isinstance(t, (R.FormatDescs, R.MpgFields)) else R.Int(t.fmt).hi
    n = hi + draw(st.sampled_from([1, 1, 2, 0, 100, hi, hi + 1, hi + 2]))
    return key, p, n, draw(st.sampled_from(['little', 'big'])), draw(st.sampled_from(['create', 'edit']))


def long_lists(ctx, case):
    key, p, n, order, src = case
    doc, k, m, f, objs = fresh(key, order, src)
    t = [b[2] for b in SMALL if b[0] == key and b[1] == p][0]
    v = list(B.from_plain(f, t, L.get(m, p), objs, m))
    if not v and isinstance(t.elem, R.Ref):
        v = [None]
    if key[0] == b'ABIN' or key[0] == b'BINF':
        ctx.label('bin')
    v = (v * (n // len(v) + 1))[:n] if v else v
    try:
        L.lib_put(objs[k], key[0], m, p, v)
        r = judge(ctx, f, order, '%s.%s of %d elements' % (key[0].decode(), '.'.join(map(str, p)), n))
        return not r
    finally:
        f.close()
        clean(ctx)


# ------------------------------------------------------- fields nobody set
@st.composite
def partial_cases(draw):
    key = draw(st.sampled_from([k for k in KEYS if k[0] not in (b'ATTR', b'PRLS', b'TMCS') and
                                    R.fields(k[0])]))
    names = [n for n, t, o in R.fields(key[0])]
    few = draw(st.booleans())
    if few:
        out = draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))
    else:
        keep = draw(st.lists(st.sampled_from(names), max_size=6, unique=True))
        out = [n for n in names if n not in keep]
    gs = [g for g in R.groups(key[0]) if len(g) > 1]
    if gs and draw(st.booleans()):
        g = draw(st.sampled_from(gs))
        keep = draw(st.lists(st.sampled_from(g), min_size=1, max_size=len(g) - 1, unique=True))
        out = sorted(set(out) - set(g) | set(n for n in g if n not in keep))
    return key, out, draw(st.sampled_from(['little', 'big']))


def partial(ctx, case):
    key, out, order = case
    m = L.full_model(*key)
    for n in out:
        m.pop(n, None)
    if 'value_type' not in m:
        m.pop('value', None)
        m.pop('control_points', None)
    if key[0] in (b'ABIN', b'BINF'):
        doc = L.wrap([], order)
        f = avb.open()
        root = f.content if key[0] == b'ABIN' else f.create.BinFirst()
        B.fill(f, root, key[0], m, {})
        f.content = root
    else:
        f = avb.open()
        obj = getattr(f.create, R.KINDS[key[0]][0])()
        B.fill(f, obj, key[0], m, {})
        for n in ('last_modified', 'creation_time'):      # dates are stored to the second
            if hasattr(obj, n):
                setattr(obj, n, getattr(obj, n).replace(microsecond=0))
        f.content.attributes = f.create.Attributes()
        f.content.attributes['o0'] = obj
    try:
        return not judge(ctx, f, order, '%s without %s' % (key[0].decode(), ', '.join(out)))
    finally:
        clean(ctx)


# ------------------------------------------------------- value types and attributes
@st.composite
def typed_cases(draw):
    val = st.sampled_from([0, 5, -1, 1.5, 2.0, float('inf'), None, 'x', b'x', 2 ** 31, 2 ** 63, 2 ** 64, 'object', True])
    what = draw(st.sampled_from(['point', 'pp', 'item']))
    return what, draw(st.sampled_from([0, 1, 2, 3, 4, 5, -1, 256, None])), draw(val), draw(st.sampled_from(['little', 'big']))


def typed(ctx, case):
    what, vt, v, order = case
    f = avb.open()
    if v == 'object':
        v = f.create.Filler(media_kind='picture', edit_rate=25)
    if what == 'item':
        o = f.create.ParameterItem()
        B.fill(f, o, b'PRIT', L.full_model(b'PRIT', 1), {})
        o.value_type, o.value = vt, v
    else:
        o = f.create.ParamClip()
        B.fill(f, o, b'PRCL', L.full_model(b'PRCL', 1), {})
        cp = o.control_points[0]
        if what == 'point':
            o.value_type, cp.value = vt, v
        else:
            cp.pp[0].type, cp.pp[0].value = vt, v
    f.content.attributes = f.create.Attributes()
    f.content.attributes['o0'] = o
    try:
        if v is True:
            return False
        return not judge(ctx, f, order, '%s of type %r with value %r' % (what, vt, v)) or True
    finally:
        clean(ctx)


class SubInt(int):
    pass


class SubStr(str):
    pass


def attr_values(f, g, h):
    return {'int': 7, 'neg': -2 ** 31, 'big': 2 ** 31, 'huge': 2 ** 70, 'negbig': -2 ** 31 - 1, 'float': 1.5, 'float1': 1.0,
            'none': None, 'text': 'abc', 'uni': '\u65e5', 'sur': '\ud800', 'bytearray': bytearray(b'xyz'), 'bytes': b'xyz',
            'list': [1], 'elist': [], 'tuple': (1,), 'dict': {}, 'set': {1}, 'complex': 1j, 'memory': memoryview(b'ab'),
            'object': f.create.Filler(media_kind='picture', edit_rate=25), 'foreign': g.create.Attributes(),
            'foreignread': h.content.attributes, 'helper': f.create.Track(), 'type': int, 'function': len, 'odd': Odd(),
            'subint': SubInt(5), 'substr': SubStr('five'), 'date': datetime.datetime(2020, 1, 1), 'uuid': uuid.UUID(int=5),
            'mobid': avb.mobid.MobID(), 'file': f, 'otherfile': g, 'longtext': 'x' * 70000, 'edge': 'y' * 65534,
            'edge1': 'y' * 65535, 'nul': 'a\0', 'fraction': R.Fraction(1, 2)}


NAMES = ['a', '', '\u65e5', 5, None, b'a', 'x' * 65534, 'x' * 65535, 'x\0', '\0', 'caf\u00e9', 1.5, ('a',), 'b', True, '\ud800']
VALS = sorted(attr_values(avb.open(), avb.open(), C.open_bytes(R.encode_file(L.wrap([(b'FILL', L.full_model(b'FILL'))]))[0])))


def attrs(ctx, case):
    entries, depth, order = case
    f, g = avb.open(), avb.open()
    h = C.open_bytes(R.encode_file(L.wrap([(b'FILL', L.full_model(b'FILL'))]))[0])
    vals = attr_values(f, g, h)
    a = f.create.Attributes()
    f.content.attributes = a
    for i in range(depth):
        b = f.create.Attributes()
        a['sub'] = b
        a = b
    try:
        for n, v in entries:
            a[n] = vals[v]
    except Exception:
        ctx.label('refused when set')
        return True
    try:
        judge(ctx, f, order, 'attributes %s' % R.short(entries))
        return any(v not in ('int', 'text', 'object', 'bytearray', 'none') for n, v in entries) or any(
            n not in ('a', 'b', '') for n, v in entries)
    finally:
        clean(ctx)


# ------------------------------------------------------- objects of other files
@st.composite
def foreign_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=2, max_objs=7))
    where = []
    for k, (c, m) in doc.objs.items():
        for p, t in ref_places(c, m):
            where.append((k, p))
    # putting something else there must not make the holder itself unreachable
    where = [(k, p) for k, p in where if k in held(doc, k, p)]
    w = [draw(st.sampled_from(where))] if where else []
    return doc, w, draw(st.sampled_from(['new', 'read', 'root', 'closed'])), draw(st.sampled_from(['create', 'edit'])), \
        draw(st.sampled_from(['little', 'big']))


def held(doc, k, p):
    c, m = doc.objs[k]
    old = L.get(m, p)
    L.put(m, p, None)
    try:
        return R.reachable(doc)
    finally:
        L.put(m, p, old)


def ref_places(c, m):
    r = [(p, t) for p, t in L.leaves(c, m) if isinstance(t, R.Ref)]
    return r


def foreign_refs(ctx, case):
    doc, where, what, src, order = case
    if not where:
        return False
    if src == 'create':
        f, objs = B.build(doc)
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        objs = {x: f.read_object(refmap[x]) for x in doc.objs}
    g, new, h, read = foreign()
    if what == 'closed':
        h = C.open_bytes(R.encode_file(L.wrap([(b'FILL', L.full_model(b'FILL'))]))[0])
        bad = h.content.attributes['o0']
        h.close()
    else:
        bad = {'new': new, 'read': read, 'root': h.content}[what]
    try:
        for k, p in where:
            c, m = doc.objs[k]
            L.lib_put(objs[k], c, m, p, bad)
    except Exception:
        ctx.label('refused when set')
        f.close()
        return True
    out = ctx.path('b.avb')
    try:
        try:
            f.write(out, order)
        except Exception:
            need(not os.path.exists(out), 'a refused save left a file behind')
            ctx.label('refused')
            return True
        raise Violation('a document with an object of another file at %r is saved' % (where,))
    finally:
        f.close()
        clean(ctx)


place = st.tuples(st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(VALS)), min_size=1, max_size=4),
                  st.integers(0, 2), st.sampled_from(['little', 'big']))

SUBS = [
    Sub('one_value', cases(), run, quick=8000),
    Sub('shapes', shapes_cases(), shapes, quick=3000),
    Sub('long_lists', long_cases(), long_lists, quick=60),
    Sub('partial', partial_cases(), partial, quick=2500),
    Sub('typed', typed_cases(), typed, quick=1500),
    Sub('attributes', place, attrs, quick=2500),
    Sub('foreign', foreign_cases(), foreign_refs, quick=1500),
]
