"""Hypothesis strategies for model values and whole documents (no avb import)."""
import struct
from collections import OrderedDict
from hypothesis import strategies as st
import refspec as R

MAC_CHARS = bytes(range(1, 256)).decode('mac_roman')
_cache = {}


def memo(fn):
    def w(*a):
        k = (fn.__name__,) + a
        if k not in _cache:
            _cache[k] = fn(*a)
        return _cache[k]
    return w


@memo
def ints(lo, hi):
    edge = sorted({x for x in (0, 1, 2, 3, -1, -2, lo, lo + 1, hi, hi - 1, 127, 128, 255, 256, 32767, 32768, 65535,
                               65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 0x01020304, 0x0102030405060708)
                   if lo <= x <= hi}, key=abs)
    return st.one_of(st.sampled_from(edge), st.integers(lo, hi))


mactext = st.one_of(
    st.sampled_from(['', 'a', 'V1.new.01', 'Untitled', u'caf\u00e9', u'\u03c0\u221e\uf8ff', 'x y/z']),
    st.text(alphabet=st.sampled_from(MAC_CHARS), max_size=8))
unitext = st.one_of(
    st.sampled_from(['', 'a', u'\u65e5\u672c\u8a9e', u'\U0001F3AC', u'/Volumes/Media\u00e9']),
    st.text(alphabet=st.characters(exclude_categories=['Cs'], exclude_characters='\0'), max_size=8))
macname = mactext.map(lambda s: s or None)

doubles = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, -1.5, 23.976, 1e-310, 1.7976931348623157e308, float('inf')]),
    st.floats(allow_nan=False),
    st.integers(0, 2 ** 64 - 1).map(lambda i: struct.unpack('<d', struct.pack('<Q', i))[0]).filter(
        lambda x: x == x))

# rates: mantissa 32 bit, up to six fractional digits (what the format's writers use)
rates = st.one_of(
    st.sampled_from([R.Dec(25, 0), R.Dec(24, 0), R.Dec(30, 0), R.Dec(23976, -3), R.Dec(2997, -2), R.Dec(29970, -3),
                     R.Dec(59940, -3), R.Dec(48000, 0), R.Dec(44100, 0), R.Dec(0, 0), R.Dec(1, -6),
                     R.Dec(2 ** 31 - 1, 0), R.Dec(12500, -3)]),
    st.tuples(ints(0, 2 ** 31 - 1), st.integers(-6, 0)).map(lambda t: R.Dec(*t)),
    st.tuples(st.integers(0, 200000), st.integers(-4, 0)).map(lambda t: R.Dec(*t)))
blobs = st.binary(max_size=12)
mobids = st.one_of(st.binary(min_size=32, max_size=32),
                   st.binary(min_size=16, max_size=16).map(
                       lambda b: bytes.fromhex('060a2b340101010101010f0013000000') + b))
uuids = st.binary(min_size=16, max_size=16)
stamps = st.one_of(st.sampled_from([0, 1, 946684800, 1604210400, 1604214000, 1604210401, 1604213999, 1603587600, 1603591199, 1584255600, 2 ** 31, 2 ** 32 - 1]),
                   st.integers(0, 2 ** 32 - 1))
fourccs = st.one_of(st.sampled_from([b'AVHD', b'\0\0\0\0', b'abcd']), st.binary(min_size=4, max_size=4))


class Pool(object):
    """objects generated so far, by class"""
    def __init__(self):
        self.by = OrderedDict()
        self.n = 0
        self.used = set()

    def add(self, k, cid):
        self.by.setdefault(cid, []).append(k)

    def options(self, kindname):
        r = []
        for cid in R.REFKINDS[kindname]:
            r += self.by.get(cid, [])
        return r


class Opts(object):
    """generation switches
    created: only shapes reachable through the creation API (always-present groups)
    wide:    reading-only domain (values that occur in files but which saving normalises)
    """
    def __init__(self, created=False, maxlist=3, strict_refs=True, force=None, null_p=True, overrides=None,
                 legacy_ids=False):
        self.created, self.maxlist, self.strict_refs = created, maxlist, strict_refs
        self.force = force
        self.overrides = overrides or {}
        self.legacy_ids = legacy_ids


def scalar(t):
    if isinstance(t, R.Int):
        return ints(t.lo, t.hi)
    if isinstance(t, R.Bool):
        return st.booleans()
    if isinstance(t, R.Dbl):
        return doubles
    if isinstance(t, R.Exp10):
        return rates
    if isinstance(t, R.Str):
        return macname if t.none else (unitext if t.utf8 else mactext)
    if isinstance(t, R.MobIDT):
        return mobids
    if isinstance(t, R.RawUUID):
        return uuids
    if isinstance(t, R.Dt):
        return stamps
    if isinstance(t, R.FourCC):
        return fourccs
    if isinstance(t, R.Bytes):
        return st.binary(min_size=t.n, max_size=t.n)
    if isinstance(t, (R.Blob, R.AvupData, R.PresetPath)):
        return blobs
    if isinstance(t, R.LineMap):
        return st.lists(ints(-2 ** 31, 2 ** 31 - 1), max_size=3)
    if isinstance(t, R.MpgFields):
        return st.lists(st.tuples(ints(0, 255), ints(0, 2 ** 32 - 1)).map(list), max_size=3)
    if isinstance(t, R.PixelLayout):
        return st.lists(st.tuples(ints(0, 255), ints(0, 255)).map(
            lambda p: OrderedDict([('Code', p[0]), ('Size', p[1])])), max_size=4)
    if isinstance(t, R.FormatDescs):
        return st.lists(st.tuples(ints(-32768, 32767), unitext).map(
            lambda p: OrderedDict([('vcid_free_column_id', p[0]), ('format_descriptor', p[1])])), max_size=3)
    return None


_sc = {}


def draw_value(draw, t, pool, opts, m=None):
    key = id(t)
    s = _sc.get(key, 0)
    if s == 0:
        s = scalar(t)
        _sc[key] = s
        _cache[('keep', key)] = t
    if s is not None:
        return draw(s)
    if isinstance(t, R.Ref):
        c = pool.options(t.kind)
        if not c:
            return None
        if t.kind == 'comp1' or t.kind == 'mob':
            k = draw(st.sampled_from(c))
        else:
            k = draw(st.sampled_from([None] + c))
        if k is not None:
            pool.used.add(k)
        return k
    if isinstance(t, R.Fix):
        return [draw_value(draw, t.elem, pool, opts) for i in range(t.n)]
    if isinstance(t, R.Pair):
        return [draw_value(draw, x, pool, opts) for x in t.elems]
    if isinstance(t, R.Lst):
        if isinstance(t.elem, R.Ref) and t.elem.kind in ('comp1', 'mob') and not pool.options(t.elem.kind):
            return []
        n = draw(st.integers(0, opts.maxlist))
        if isinstance(t.elem, R.TrackT):
            return draw_tracks(draw, n, pool, opts)
        return [draw_value(draw, t.elem, pool, opts) for i in range(n)]
    if isinstance(t, R.CtrlPoint):
        return OrderedDict((n, draw_value(draw, x, pool, opts)) for n, x in t.fields)
    if isinstance(t, (R.Struct, R.PluginChunk)):
        return OrderedDict((n, draw_value(draw, x, pool, opts)) for n, x in t.fields)
    if isinstance(t, R.AttrItem):
        return draw_attrs(draw, pool, opts)
    if isinstance(t, R.ItemValue):
        vt = m['value_type']
        return draw_value(draw, {1: R.S32, 2: R.Dbl(), 4: R.Ref('comp')}[vt], pool, opts) if vt != 2 else draw(doubles)
    if isinstance(t, R.ParamValues):
        return draw_points(draw, m['value_type'], pool, opts)
    raise TypeError(t)


def draw_tracks(draw, n, pool, opts):
    lock = draw(st.booleans())
    r = []
    for i in range(n):
        tr = OrderedDict()
        for bit, name, t in R.TRACK_FIELDS:
            if draw(st.booleans()):
                tr[name] = draw_value(draw, t, pool, opts)
        # all or none of the tracks in a file; any of them while a document is being made
        if lock if not opts.created else draw(st.integers(0, 2)):
            tr['lock_number'] = draw(ints(-32768, 32767))
        r.append(tr)
    return r


def draw_attrs(draw, pool, opts):
    n = draw(st.integers(0, opts.maxlist))
    names = []
    r = []
    for i in range(n):
        nm = draw(mactext)
        if nm in names:
            continue
        names.append(nm)
        t = draw(st.integers(1, 4))
        if t == 3:
            v = draw_value(draw, ANYREF, pool, opts)
        else:
            v = draw({1: ints(-2 ** 31, 2 ** 31 - 1), 2: mactext, 4: blobs}[t])
        r.append([nm, t, v])
    return r


ANYREF = R.Ref('any')


def draw_points(draw, vt, pool, opts):
    r = []
    for i in range(draw(st.integers(0, opts.maxlist))):
        cp = OrderedDict()
        cp['offset'] = [draw(ints(-2 ** 31, 2 ** 31 - 1)), draw(ints(-2 ** 31, 2 ** 31 - 1))]
        cp['timescale'] = draw(ints(-2 ** 31, 2 ** 31 - 1))
        cp['value'] = (draw(ints(-2 ** 31, 2 ** 31 - 1)) if vt == 1 else draw(doubles) if vt == 2 else
                       draw_value(draw, ANYREF, pool, opts))
        pps = []
        for j in range(draw(st.integers(0, 2))):
            pt = draw(st.sampled_from([1, 2]))
            pps.append(OrderedDict([('code', draw(st.one_of(st.sampled_from([5, 6, 7, 8, 9, 14]),
                                                           ints(-32768, 32767)))), ('type', pt),
                                    ('value', draw(ints(-2 ** 31, 2 ** 31 - 1)) if pt == 1 else draw(doubles))]))
        cp['pp'] = pps
        r.append(cp)
    return r


# groups that the creation API always fills in / that saving requires
ALWAYS = {b'CMPO': {'mob_id', 'creation_time'}, b'SCLP': {'mob_id'}, b'BVst': {'format_descriptors'}}
NEED_MOBID = {b'CMPO', b'SCLP', b'MSML', b'APOS', b'ABOB', b'DIDP', b'MPGP', b'MCMR', b'TMBC'}
_fields = {}


def fields(cid):
    if cid not in _fields:
        _fields[cid] = (R.fields(cid), R.groups(cid))
    return _fields[cid]


def draw_object(draw, cid, pool, opts):
    fs, gs = fields(cid)
    absent = set()
    for g in gs:
        if opts.created and g[0] in ALWAYS.get(cid, ()):
            continue
        if g[0] == 'mob_id' and cid in NEED_MOBID and not opts.legacy_ids:
            continue
        if not draw(st.booleans()):
            absent.update(g)
    m = OrderedDict()
    for n, t, o in fs:
        if n in absent:
            continue
        if n == 'value_type':
            m[n] = draw(st.sampled_from([1, 2, 4]))
        elif (cid, n) in opts.overrides:
            m[n] = draw(opts.overrides[cid, n])
        elif n == 'selected' and cid == b'SLCT':
            while not m['tracks']:
                m['tracks'] = draw_tracks(draw, 1, pool, opts)
            m[n] = draw(st.integers(0, len(m['tracks']) - 1))
        elif n == 'mob_type_id':
            m[n] = draw(st.one_of(st.sampled_from([1, 2, 3]), ints(0, 255)))
        elif n == 'media_kind_id':
            m[n] = draw(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 16]), ints(-32768, 32767)))
        else:
            m[n] = draw_value(draw, t, pool, opts, m)
    if opts.legacy_ids and cid in NEED_MOBID and 'mob_id' not in m:
        m['_legacy'] = (draw(ints(0, 2 ** 32 - 1)), draw(ints(0, 2 ** 32 - 1)))
    return m


ORPHAN = 'o%d'


def draw_document(draw, opts, kinds=None, max_objs=8, min_objs=0, root=None, orders=('little', 'big')):
    order = draw(st.sampled_from(orders))
    pool = Pool()
    objs = OrderedDict()
    kinds = list(kinds or [k for k in R.ALLKINDS if k not in (b'ABIN', b'BINF')])
    n = draw(st.integers(min_objs, max_objs))
    nid = 0
    for i in range(n):
        cid = draw(st.sampled_from(kinds))
        m = draw_object(draw, cid, pool, opts)
        nid += 1
        objs[nid] = (cid, m)
        pool.add(nid, cid)
    # a view setting and the attribute set that keeps every object reachable
    if opts.created or draw(st.booleans()):
        nid += 1
        objs[nid] = (b'BVst', draw_object(draw, b'BVst', pool, opts))
        pool.add(nid, b'BVst')
    rcid = root or draw(st.sampled_from([b'ABIN', b'BINF']))
    rm = draw_object(draw, rcid, pool, opts)
    if rm['view_setting'] is None and pool.by.get(b'BVst'):
        rm['view_setting'] = pool.by[b'BVst'][-1]
    keep = []
    used = set(pool.used)
    used.add(rm['view_setting'])
    for k in objs:
        if k not in used:
            keep.append([ORPHAN % k, 3, k])
    nid += 1
    if keep:
        if rm['attributes'] is not None:
            keep.append(['', 3, rm['attributes']])
        objs[nid] = (b'ATTR', OrderedDict(entries=keep))
        rm['attributes'] = nid
        nid += 1
    objs[nid] = (rcid, rm)
    return R.Doc(objs, nid, order, draw(stamps), draw(st.text(alphabet=st.sampled_from(MAC_CHARS), max_size=30)))


@st.composite
def documents(draw, opts=None, **kw):
    return draw_document(draw, opts or Opts(), **kw)


# ----------------------------------------------------------- long variants
SIZES = [4, 5, 9, 17, 33, 100, 127, 128, 129, 255, 256, 257, 300, 1000]
BIG = [32766, 32767, 32768, 40000, 65534, 65535, 65536, 70000]


def limit(t, m=None):
    """most elements the format can store for a value of type t (None: not a variable-length type)"""
    if isinstance(t, R.Lst):
        return R.Int(t.fmt).hi
    if isinstance(t, R.Blob):
        return t.maxlen
    if isinstance(t, R.Str):
        return 65532 // (4 if t.utf8 else 1)
    if isinstance(t, (R.MpgFields,)):
        return 16383
    if isinstance(t, R.FormatDescs):
        return 32767
    if isinstance(t, (R.LineMap, R.PixelLayout, R.AvupData, R.PresetPath, R.ParamValues)):
        return 1 << 31
    if isinstance(t, R.AttrItem):
        return None
    return None


def cost(t):
    if isinstance(t, (R.Blob, R.Str, R.AvupData, R.PresetPath)):
        return 1
    if isinstance(t, (R.Lst,)):
        return 30 if isinstance(t.elem, (R.Struct, R.CtrlPoint, R.TrackT, R.PluginChunk)) else 6
    return 30 if isinstance(t, R.ParamValues) else 4


def grow(v, n):
    """v repeated up to n elements"""
    if not v:
        return v
    return (v * (n // len(v) + 1))[:n]


def stretchable(doc):
    """(object id, field name, type) whose value can be made long; only non-empty ones"""
    r = []
    for k, (cid, m) in doc.objs.items():
        for n, t, o in fields(cid)[0]:
            if n in m and m[n] and limit(t) and n != 'tracks':
                r.append((k, n, t))
        if m.get('tracks'):
            r.append((k, 'tracks', R.Lst('i', R.TrackT())))
    return r


def draw_long(draw, doc, max_cost=70000, count=1):
    """make up to count values of doc long; returns doc"""
    for i in range(count):
        c = stretchable(doc)
        c += [(k, 'entries', None) for k, (cid, m) in doc.objs.items() if cid == b'ATTR' and m['entries']]
        if not c:
            return doc
        k, n, t = draw(st.sampled_from(c))
        cid, m = doc.objs[k]
        if t is None:
            # attribute names are unique
            old = m['entries']
            names = set(e[0] for e in old)
            m['entries'] = old + [['%s%d' % (e[0], j), e[1], e[2]] for j in range(draw(st.sampled_from([4, 20, 70, 130, 260])) // len(old) + 1)
                                  for e in old if '%s%d' % (e[0], j) not in names]
            seen = set()
            m['entries'] = [e for e in m['entries'] if not (e[0] in seen or seen.add(e[0]))]
            continue
        lim = limit(t)
        if n == 'items':
            lim = 2 ** 32 if m['large_bin'] else 65535
        opts = [s for s in SIZES + BIG if s <= lim and s * cost(t) <= max_cost] or [3]
        size = draw(st.sampled_from(opts))
        v = m[n]
        m[n] = grow(v if not isinstance(v, tuple) else list(v), size)
        if isinstance(t, R.Str):
            m[n] = m[n].strip('\0')
    return doc


@st.composite
def long_documents(draw, opts=None, max_cost=70000, **kw):
    return draw_long(draw, draw_document(draw, opts or Opts(), **kw), max_cost)


@st.composite
def kind_documents(draw, opts, kinds=None):
    """a document around one object of a chosen kind, everything about that kind drawn widely"""
    k = draw(st.sampled_from(kinds or R.ALLKINDS))
    if k in (b'ABIN', b'BINF'):
        return draw_document(draw, opts, max_objs=3, root=k)
    return draw_document(draw, opts, kinds=[k, k, k, b'ATTR', b'SCLP'], min_objs=1, max_objs=5)


# ------------------------------------------------------ sample bins, mutated
_samples = {}


def sample_paths(small=True):
    import glob
    import os
    d = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tests', 'test_files')
    r = sorted(glob.glob(os.path.join(d, 'retimes', '*.avb')))
    return r if small else [os.path.join(d, 'test_file_01.avb')]


def sample_doc(path):
    if path not in _samples:
        with open(path, 'rb') as f:
            _samples[path] = R.decode_file(f.read())
    d = _samples[path]
    objs = OrderedDict((k, (c, copy_model(m))) for k, (c, m) in d.objs.items())
    return R.Doc(objs, d.root, d.order, d.last_save, d.creator.rstrip(' '))


def copy_model(v):
    if isinstance(v, OrderedDict):
        return OrderedDict((k, copy_model(x)) for k, x in v.items())
    if isinstance(v, dict):
        return {k: copy_model(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy_model(x) for x in v]
    return v


def has_refs(t):
    if isinstance(t, (R.Ref, R.ItemValue, R.ParamValues, R.AttrItem, R.TrackT)):
        return True
    if isinstance(t, (R.Lst, R.Fix)):
        return has_refs(t.elem)
    if isinstance(t, R.Pair):
        return any(has_refs(x) for x in t.elems)
    if hasattr(t, 'fields'):
        return any(has_refs(x) for n, x in t.fields if x is not None)
    return False


@st.composite
def sample_documents(draw, opts=None):
    opts = opts or Opts()
    paths = sample_paths()
    doc = sample_doc(draw(st.sampled_from(paths)))
    doc.order = draw(st.sampled_from(['little', 'big']))
    pool = Pool()
    keys = list(doc.objs)
    for i in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(keys))
        cid, m = doc.objs[k]
        cand = [(n, t) for n, t, o in fields(cid)[0]
                if n in m and not has_refs(t) and n not in ('value_type', 'control_points', 'selected', 'large_bin')]
        if not cand:
            continue
        n, t = draw(st.sampled_from(cand))
        m[n] = draw_value(draw, t, pool, opts, m)
    return doc
