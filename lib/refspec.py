"""Independent reference description of the bin file format.

Everything here is written from the format (tags, field order, widths), not by
calling the library: a declarative table per object kind plus a reference
encoder/decoder working on plain Python values.  Nothing in this module
imports avb.

Model values
  integers/bools/floats/str/bytes      themselves
  Exp10   -> Dec(mant, exp)            references -> object id (int) or None
  MobID   -> 32 bytes (bytes_le form)  uuid -> 16 bytes (big endian, UUID.bytes)
  datetime -> u32 timestamp            lists -> list, helper objects -> dict
An optional field that is absent is simply missing from the dict.
"""
import struct
from collections import namedtuple, OrderedDict
from fractions import Fraction

Dec = namedtuple('Dec', 'mant exp')


def dec_fraction(d):
    return Fraction(d.mant) * (Fraction(10) ** d.exp)


class FormatError(Exception):
    pass


# ------------------------------------------------------------------ streams
class Enc(object):
    def __init__(self, order, noise=None):
        self.o = '<' if order == 'little' else '>'
        self.order = order
        self.out = bytearray()
        self.noise = noise            # callable(nbytes)->bytes for don't-care bytes
        self.ext_order = None         # callable(list)->list permutation

    def raw(self, b):
        self.out += b

    def num(self, fmt, v):
        self.out += struct.pack(self.o + fmt, v)

    def pad(self, n):
        self.out += self.noise(n) if self.noise else bytes(n)


class DecS(object):
    """lenient: take what has only one sensible meaning (a negative count is none, a repeated extension replaces the
    first, redundant lengths and the outer NULs of text do not count); still never accept wrong tags or lengths"""
    def __init__(self, order, data, lenient=False):
        self.lenient = lenient
        self.o = '<' if order == 'little' else '>'
        self.order = order
        self.d = bytes(data)
        self.p = 0
        self.legacy = []              # (where, lo, hi) legacy ids met

    def raw(self, n):
        if n < 0 or self.p + n > len(self.d):
            raise FormatError('read past end of object')
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def num(self, fmt):
        n = struct.calcsize('<' + fmt)
        return struct.unpack(self.o + fmt, self.raw(n))[0]

    def tag(self, t):
        v = self.num('B')
        if v != t:
            raise FormatError('tag %d expected, got %d' % (t, v))


# -------------------------------------------------------------------- types
class Type(object):
    def enc(self, e, v):
        raise NotImplementedError

    def dec(self, d):
        raise NotImplementedError


class Int(Type):
    def __init__(self, fmt):
        self.fmt = fmt
        n = struct.calcsize('<' + fmt) * 8
        if fmt.isupper():
            self.lo, self.hi = 0, (1 << n) - 1
        else:
            self.lo, self.hi = -(1 << (n - 1)), (1 << (n - 1)) - 1

    def enc(self, e, v):
        e.num(self.fmt, v)

    def dec(self, d):
        return d.num(self.fmt)


U8, S8, U16, S16, U32, S32, U64, S64 = [Int(c) for c in 'BbHhIiQq']


class Bool(Type):
    def enc(self, e, v):
        e.num('B', 1 if v else 0)

    def dec(self, d):
        return d.num('B') == 1


class Dbl(Type):       # doubles are stored low byte first in both byte orders
    def enc(self, e, v):
        e.raw(struct.pack('<d', v))

    def dec(self, d):
        return struct.unpack('<d', d.raw(8))[0]


class Exp10(Type):
    def enc(self, e, v):
        e.num('i', v.mant)
        e.num('h', v.exp)

    def dec(self, d):
        m = d.num('i')
        return Dec(m, d.num('h'))


MAC_HIGH = None


def mac_encode(s):
    return s.encode('mac_roman')


class Str(Type):
    def __init__(self, utf8=False, none=False):
        self.utf8 = utf8
        self.none = none      # empty is reported as None and stored as 0xFFFF

    def data(self, v):
        if self.utf8:
            return b'\0\0' + v.encode('utf-8')
        return mac_encode(v)

    def enc(self, e, v):
        if self.none and not v:
            e.num('H', 0xFFFF)
            return
        if not v:
            e.num('H', 0)
            return
        b = self.data(v)
        e.num('H', len(b))
        e.raw(b)

    def dec(self, d):
        n = d.num('H')
        if n == 0xFFFF:
            return None if self.none else ''
        b = d.raw(n)
        if d.lenient:
            s = b.strip(b'\0').decode('utf-8' if self.utf8 else 'mac_roman')
        elif self.utf8:
            if b and b[:2] != b'\0\0':
                raise FormatError('utf-8 text without its two leading zero bytes')
            s = b[2:].decode('utf-8')
        else:
            s = b.decode('mac_roman')
        if self.none and not s:
            return None
        return s


class Ref(Type):
    def __init__(self, kind='any'):
        self.kind = kind

    def enc(self, e, v):
        e.num('I', 0 if v is None else e.refmap[v])

    def dec(self, d):
        return d.num('I') or None


class MobIDT(Type):
    def enc(self, e, v):
        e.raw(b'\x41')
        e.num('i', 12)
        e.raw(v[:12])
        for i in range(12, 16):
            e.raw(b'\x44' + v[i:i + 1])
        d1, d2, d3 = struct.unpack('<IHH', v[16:24])
        e.raw(b'\x48')
        e.num('I', d1)
        e.raw(b'\x46')
        e.num('H', d2)
        e.raw(b'\x46')
        e.num('H', d3)
        e.raw(b'\x41')
        e.num('i', 8)
        e.raw(v[24:32])

    def dec(self, d):
        d.tag(0x41)
        if d.num('i') != 12:
            raise FormatError('label length')
        r = d.raw(12)
        for i in range(4):
            d.tag(0x44)
            r += d.raw(1)
        d.tag(0x48)
        a = d.num('I')
        d.tag(0x46)
        b = d.num('H')
        d.tag(0x46)
        c = d.num('H')
        d.tag(0x41)
        if d.num('i') != 8:
            raise FormatError('data4 length')
        return r + struct.pack('<IHH', a, b, c) + d.raw(8)


class RawUUID(Type):
    def enc(self, e, v):
        a, b, c = struct.unpack('>IHH', v[:8])
        e.num('I', a)
        e.num('H', b)
        e.num('H', c)
        e.raw(v[8:])

    def dec(self, d):
        a, b, c = d.num('I'), d.num('H'), d.num('H')
        return struct.pack('>IHH', a, b, c) + d.raw(8)


class Dt(Type):
    def enc(self, e, v):
        e.num('I', v)

    def dec(self, d):
        return d.num('I')


class Fix(Type):
    """fixed number of elements, optionally each preceded by a tag"""
    def __init__(self, n, elem, tag=None, version=None):
        self.n, self.elem, self.tag, self.version = n, elem, tag, version

    def enc(self, e, v):
        assert len(v) == self.n
        if self.version is not None:
            e.num('h', self.version)
        for x in v:
            if self.tag is not None:
                e.num('B', self.tag)
            self.elem.enc(e, x)

    def dec(self, d):
        if self.version is not None and d.num('h') != self.version:
            raise FormatError('version')
        r = []
        for i in range(self.n):
            if self.tag is not None:
                d.tag(self.tag)
            r.append(self.elem.dec(d))
        return r


class FourCC(Type):
    def enc(self, e, v):
        e.raw(v[::-1] if e.order == 'little' else v)

    def dec(self, d):
        b = d.raw(4)
        return b[::-1] if d.order == 'little' else b


class Bytes(Type):
    def __init__(self, n):
        self.n = n

    def enc(self, e, v):
        assert len(v) == self.n
        e.raw(v)

    def dec(self, d):
        return d.raw(self.n)


class Blob(Type):
    """length + bytes; delta: stored length = len+delta"""
    def __init__(self, fmt, forced=None, prefix=b''):
        self.fmt, self.forced, self.prefix = fmt, forced, prefix

    def enc(self, e, v):
        e.raw(self.prefix)
        if self.forced:
            e.raw(struct.pack(self.forced + self.fmt, len(v)))
        else:
            e.num(self.fmt, len(v))
        e.raw(v)

    def dec(self, d):
        if d.raw(len(self.prefix)) != self.prefix:
            raise FormatError('prefix')
        if self.forced:
            n = struct.unpack(self.forced + self.fmt, d.raw(struct.calcsize('<' + self.fmt)))[0]
        else:
            n = d.num(self.fmt)
        return d.raw(n)

    maxlen = property(lambda s: Int(s.fmt).hi)


class Lst(Type):
    def __init__(self, fmt, elem, reflist=False):
        self.fmt, self.elem, self.reflist = fmt, elem, reflist

    def enc(self, e, v):
        e.num(self.fmt, len(v))
        for x in v:
            self.elem.enc(e, x)

    def dec(self, d):
        n = d.num(self.fmt)
        if n < 0 and not d.lenient:
            raise FormatError('negative count')
        return [self.elem.dec(d) for i in range(n)]


class Struct(Type):
    """helper object (cls given) or plain dict (cls None)"""
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def enc(self, e, v):
        for n, t in self.fields:
            t.enc(e, v[n])

    def dec(self, d):
        return OrderedDict((n, t.dec(d)) for n, t in self.fields)


class Pair(Type):
    """[a, b, ...] heterogeneous small list"""
    def __init__(self, *elems):
        self.elems = elems

    def enc(self, e, v):
        for t, x in zip(self.elems, v):
            t.enc(e, x)

    def dec(self, d):
        return [t.dec(d) for t in self.elems]


class LineMap(Type):
    def enc(self, e, v):
        e.num('i', 4 * len(v))
        for x in v:
            e.num('i', x)

    def dec(self, d):
        n = d.num('i')
        if (n < 0 or n % 4) and not d.lenient:
            raise FormatError('line map size')
        return [d.num('i') for i in range(n // 4)]


TRACK_FIELDS = [
    (0, 'index', S16), (1, 'attributes', Ref('attr')), (9, 'session_attr', Ref('attr')),
    (2, 'component', Ref('comp')), (3, 'filler_proxy', Ref('comp')), (4, 'bob_data', Ref('any')),
    (5, 'control_code', S16), (6, 'control_sub_code', S16), (7, 'start_pos', S32),
    (8, 'read_only', Bool()),
]


class TrackT(Type):
    cls = 'Track'
    fields = [(n, t) for _, n, t in TRACK_FIELDS] + [('lock_number', S16)]

    def enc(self, e, v):
        fl = 0
        for bit, n, t in TRACK_FIELDS:
            if n in v:
                fl |= 1 << bit
        e.num('H', fl)
        for bit, n, t in TRACK_FIELDS:
            if n in v:
                t.enc(e, v[n])

    def dec(self, d):
        fl = d.num('H')
        if fl & 0xFC00:
            raise FormatError('track flags')
        r = OrderedDict()
        for bit, n, t in TRACK_FIELDS:
            if fl >> bit & 1:
                r[n] = t.dec(d)
        return r


class PPT(Type):
    """property of a parameter control point: value typed by 'type'"""
    cls = 'ParamControlPointProperty'
    fields = [('code', S16), ('type', S16), ('value', None)]

    def enc(self, e, v):
        e.num('h', v['code'])
        e.num('h', v['type'])
        (Dbl() if v['type'] == 2 else S32).enc(e, v['value'])

    def dec(self, d):
        r = OrderedDict(code=d.num('h'))
        r['type'] = d.num('h')
        if r['type'] not in (1, 2):
            raise FormatError('pp type')
        r['value'] = (Dbl() if r['type'] == 2 else S32).dec(d)
        return r


# ----------------------------------------------------- chunk-level spec items
class Item(object):
    def names(self):
        return []


class T(Item):
    def __init__(self, *tags):
        self.tags = tags

    def enc(self, e, m):
        e.raw(bytes(self.tags))

    def dec(self, d, m):
        for t in self.tags:
            d.tag(t)


class F(Item):
    def __init__(self, name, typ, tag=None):
        self.name, self.typ, self.tag = name, typ, tag

    def names(self):
        return [(self.name, self.typ)]

    def enc(self, e, m):
        if self.tag is not None:
            e.num('B', self.tag)
        self.typ.enc(e, m[self.name])

    def dec(self, d, m):
        if self.tag is not None:
            d.tag(self.tag)
        m[self.name] = self.typ.dec(d)


class Pad(Item):
    """bytes whose content carries no meaning"""
    def __init__(self, n):
        self.n = n

    def enc(self, e, m):
        e.pad(self.n)

    def dec(self, d, m):
        d.raw(self.n)


class Const(Item):
    def __init__(self, fmt, v):
        self.fmt, self.v = fmt, v

    def enc(self, e, m):
        e.num(self.fmt, self.v)

    def dec(self, d, m):
        if d.num(self.fmt) != self.v:
            raise FormatError('constant')


def legacy_words(mob):
    d1, d2, d3 = struct.unpack('<IHH', mob[16:24])
    return d1, d2 + (d3 << 16)


class Legacy(Item):
    """old two-word form of the identifier stored in field 'mob_id'"""
    def __init__(self, name='mob_id', tag=None, fmt='I'):
        self.name, self.tag, self.fmt = name, tag, fmt

    def enc(self, e, m):
        lo, hi = legacy_words(m[self.name]) if self.name in m else m.get('_legacy', (0, 0))
        if '_legacy' in m:
            lo, hi = m['_legacy']
        for x in (lo, hi):
            if self.tag is not None:
                e.num('B', self.tag)
            e.num('I', x & 0xFFFFFFFF)

    def dec(self, d, m):
        r = []
        for i in range(2):
            if self.tag is not None:
                d.tag(self.tag)
            r.append(d.num('I'))
        m['_legacy'] = tuple(r)


class X(Item):
    """extension block: each group (tag, items) present iff its lead field is"""
    def __init__(self, *groups):
        self.groups = [(g[0], list(g[1:])) for g in groups]

    def lead(self, items):
        for it in items:
            for n, t in it.names():
                return n
            if isinstance(it, Legacy):
                return it.name

    def names(self):
        r = []
        for tag, items in self.groups:
            for it in items:
                r += it.names()
        return r

    def enc(self, e, m):
        gs = [(tag, items) for tag, items in self.groups if self.lead(items) in m]
        if e.ext_order:
            gs = e.ext_order(gs)
        for tag, items in gs:
            e.raw(bytes([1, tag]))
            for it in items:
                it.enc(e, m)

    def dec(self, d, m):
        seen = set()
        while d.p < len(d.d) and d.d[d.p] == 1:
            d.raw(1)
            tag = d.num('B')
            if tag in seen and not d.lenient:
                raise FormatError('extension %d repeated' % tag)
            seen.add(tag)
            for t, items in self.groups:
                if t == tag:
                    for it in items:
                        it.dec(d, m)
                    break
            else:
                raise FormatError('unknown extension %d' % tag)


class TrackLocks(Item):
    """extension 1 after the tracks: one lock number per track"""
    def enc(self, e, m):
        ts = m['tracks']
        if any('lock_number' in t for t in ts):
            e.raw(b'\x01\x01')
            for t in ts:
                e.raw(b'\x45')
                e.num('h', t.get('lock_number', 0))

    def dec(self, d, m):
        if d.p < len(d.d) and d.d[d.p] == 1:
            d.raw(1)
            if d.num('B') != 1:
                raise FormatError('track extension')
            for t in m['tracks']:
                d.tag(0x45)
                t['lock_number'] = d.num('h')


class ParamValues(Item):
    def names(self):
        return [('control_points', self)]

    def vt(self, m):
        return {1: S32, 2: Dbl(), 4: Ref('any')}[m['value_type']]

    def enc(self, e, m):
        e.num('i', len(m['control_points']))
        for cp in m['control_points']:
            e.num('i', cp['offset'][0])
            e.num('i', cp['offset'][1])
            e.num('i', cp['timescale'])
            self.vt(m).enc(e, cp['value'])
            Lst('h', PPT()).enc(e, cp['pp'])

    def dec(self, d, m):
        if m['value_type'] not in (1, 2, 4):
            raise FormatError('value type')
        n = d.num('i')
        if n < 0 and not d.lenient:
            raise FormatError('count')
        r = []
        for i in range(n):
            cp = OrderedDict()
            cp['offset'] = [d.num('i'), d.num('i')]
            cp['timescale'] = d.num('i')
            cp['value'] = self.vt(m).dec(d)
            cp['pp'] = Lst('h', PPT()).dec(d)
            r.append(cp)
        m['control_points'] = r


class ItemValue(Item):
    def names(self):
        return [('value', self)]

    def enc(self, e, m):
        {1: S32, 2: Dbl(), 4: Ref('comp')}[m['value_type']].enc(e, m['value'])

    def dec(self, d, m):
        if m['value_type'] not in (1, 2, 4):
            raise FormatError('value type')
        m['value'] = {1: S32, 2: Dbl(), 4: Ref('comp')}[m['value_type']].dec(d)


class CtrlPoint(Type):
    cls = 'ControlPoint'
    PP = Struct('ControlPointProperty', [('code', S16), ('value', Fix(2, S32))])
    fields = [('offset', Fix(2, S32)), ('time_scale', S32), ('value', Fix(2, S32)), ('pp', Lst('h', PP))]

    def enc(self, e, v):
        Fix(2, S32).enc(e, v['offset'])
        e.num('i', v['time_scale'])
        e.num('B', 1)
        Fix(2, S32).enc(e, v['value'])
        Lst('h', self.PP).enc(e, v['pp'])

    def dec(self, d):
        r = OrderedDict(offset=Fix(2, S32).dec(d))
        r['time_scale'] = d.num('i')
        d.tag(1)
        r['value'] = Fix(2, S32).dec(d)
        r['pp'] = Lst('h', self.PP).dec(d)
        return r


class FormatDescs(Type):
    elem_fields = [('vcid_free_column_id', S16), ('format_descriptor', Str(utf8=True))]

    def enc(self, e, v):
        e.num('B', 69)
        e.num('h', len(v))
        for x in v:
            b = x['format_descriptor'].encode('utf-8')
            e.num('B', 69)
            e.num('h', x['vcid_free_column_id'])
            e.num('B', 71)
            e.num('i', len(b))
            e.num('B', 76)
            e.num('H', len(b) + 2)
            e.num('H', 0)
            e.raw(b)

    def dec(self, d):
        d.tag(69)
        n = d.num('h')
        if n < 0:
            raise FormatError('count')
        r = []
        for i in range(n):
            d.tag(69)
            a = d.num('h')
            d.tag(71)
            size = d.num('i')
            d.tag(76)
            a2, a3 = d.num('H'), d.num('H')
            if (a2 != size + 2 or a3 != 0) and not d.lenient:
                raise FormatError('format descriptor text length')
            r.append(OrderedDict([('vcid_free_column_id', a), ('format_descriptor', d.raw(size).decode('utf-8'))]))
        return r


class AvupData(Type):
    def enc(self, e, v):
        e.num('i', len(v) + 4)
        e.num('i', len(v))
        e.raw(v)

    def dec(self, d):
        a = d.num('i')
        n = d.num('i')
        if a != n + 4:
            raise FormatError('sizes')
        return d.raw(n)


class MpgFields(Type):
    def enc(self, e, v):
        e.num('h', len(v))
        if v:
            e.num('h', 2 * len(v))
            for a, b in v:
                e.num('B', a)
                e.num('I', b)

    def dec(self, d):
        n = d.num('h')
        r = []
        if n > 0:
            d.num('h')
            for i in range(n):
                r.append([d.num('B'), d.num('I')])
        return r


class PixelLayout(Type):
    elem_fields = [('Code', U8), ('Size', U8)]

    def enc(self, e, v):
        e.num('I', len(v))
        e.raw(bytes(x['Code'] for x in v))
        e.num('I', len(v))
        e.raw(bytes(x['Size'] for x in v))
        e.raw(bytes(12))

    def dec(self, d):
        a = d.raw(d.num('I'))
        b = d.raw(d.num('I'))
        if len(a) != len(b) or d.raw(12) != bytes(12):
            raise FormatError('layout')
        return [OrderedDict([('Code', x), ('Size', y)]) for x, y in zip(a, b)]


class PresetPath(Type):
    def enc(self, e, v):
        e.num('B', 72)
        e.num('I', len(v))
        if v:
            e.num('B', 65)
            e.num('I', len(v))
            e.raw(v)

    def dec(self, d):
        d.tag(72)
        n = d.num('I')
        if n:
            d.tag(65)
            if d.num('I') != n:
                raise FormatError('path length')
        return d.raw(n)


class BinHead(Item):
    """version byte, view setting, uid and the items, whose count width follows the version"""
    ITEM = Struct('BinItem', [('mob', Ref('mob')), ('x', S16), ('y', S16), ('keyframe', S32), ('user_placed', Bool())])

    def names(self):
        return [('large_bin', Bool()), ('view_setting', Ref('view')), ('uid', U64), ('items', Lst('I', self.ITEM))]

    def enc(self, e, m):
        e.num('B', 15 if m['large_bin'] else 14)
        Ref().enc(e, m['view_setting'])
        e.num('Q', m['uid'])
        Lst('I' if m['large_bin'] else 'H', self.ITEM).enc(e, m['items'])

    def dec(self, d, m):
        v = d.num('B')
        if v not in (14, 15):
            raise FormatError('bin version')
        m['large_bin'] = v == 15
        m['view_setting'] = Ref().dec(d)
        m['uid'] = d.num('Q')
        m['items'] = Lst('I' if v == 15 else 'H', self.ITEM).dec(d)


# ---------------------------------------------------------------- the kinds
A, C, ANY = Ref('attr'), Ref('comp'), Ref('any')
B = Bool()
XY = Fix(2, S32, tag=71)
BOX = Fix(4, XY)

COMP = [T(2, 3), F('left_bob', Ref('comp')), F('right_bob', Ref('comp')), F('media_kind_id', S16),
        F('edit_rate', Exp10()), F('name', Str(none=True)), F('effect_id', Str(none=True)),
        F('attributes', A), F('session_attrs', A), F('precomputed', Ref('comp')),
        X((1, F('param_list', Ref('plist'), 72)))]
CLIP = COMP + [T(2, 1), F('length', U32)]
TRKG = COMP + [T(2, 8), F('mc_mode', U8), F('length', S32), F('num_scalars', S32),
               F('tracks', Lst('i', TrackT())), TrackLocks()]
INFO = [F('left_length', S32), F('right_length', S32), F('info_version', S16), F('info_current', S32),
        F('info_smooth', S32), F('info_color_item', S16), F('info_quality', S16), F('info_is_reversed', S8),
        F('info_aspect_on', B), F('keyframes', Ref('fxps')), F('info_force_software', B),
        F('info_never_hardware', B)]
TKFX = TRKG + [T(2, 6)] + INFO + [X((2, F('trackman', Ref('tkmn'), 72)))]
WARP = TRKG + [T(2, 2), F('phase_offset', S32)]
MDES = [T(2, 3), F('mob_kind', U8), F('locator', Ref('loc')), F('intermediate', B), F('physical_media', Ref('desc')),
        X((1, T(65), Const('i', 16), F('uuid', RawUUID())), (2, F('wchar', Blob('i'), 65)),
          (3, F('attributes', A, 72)))]
MDFL = MDES + [T(2, 3), F('edit_rate', Exp10()), F('length', S32), F('is_omfi', S16), F('data_offset', S32)]
DIDD = MDFL + [T(2, 2)] + [F(n, S32) for n in (
    'stored_height', 'stored_width', 'sampled_height', 'sampled_width', 'sampled_x_offset', 'sampled_y_offset',
    'display_height', 'display_width', 'display_x_offset', 'display_y_offset')] + [
    F('frame_layout', S16), F('aspect_ratio', Fix(2, S32)), F('line_map', LineMap()), F('alpha_transparency', S32),
    F('uniformness', B), F('did_image_size', S32), F('next_did_desc', Ref('desc')), F('compress_method', FourCC()),
    F('resolution_id', S32), F('image_alignment_factor', S32),
    X((1, F('frame_index_byte_order', S16, 69)), (2, F('frame_sample_size', S32, 71)),
      (3, F('first_frame_offset', S32, 71)), (4, F('client_fill_start', S32, 71), F('client_fill_end', S32, 71)),
      (5, F('offset_to_rle_frame_index', S32, 71)), (6, F('frame_start_offset', S32, 71)),
      (8, F('valid_box', BOX), F('essence_box', BOX), F('source_box', BOX)),
      (9, F('framing_box', BOX), F('reformatting_option', S32, 71)),
      (10, F('transfer_characteristic', RawUUID(), 80)),
      (11, F('color_primaries', RawUUID(), 80), F('coding_equations', RawUUID(), 80)),
      (12, F('essence_compression', RawUUID(), 80)), (14, F('essence_element_size_kind', U8, 68)),
      (15, F('frame_checked_with_mapper', B, 66)))]
CDCI = DIDD + [T(2, 2), F('horizontal_subsampling', U32), F('vertical_subsampling', U32), F('component_width', S32),
               F('color_sitting', S16), F('black_ref_level', U32), F('white_ref_level', U32), F('color_range', U32),
               F('frame_index_offset', S64),
               X((1, F('alpha_sampled_width', U32, 72)), (2, F('ignore_bw', U32, 72)))]
AUDIO = [F('channels', U16), F('quantization_bits', U16), F('sample_rate', Exp10()), F('locked', B),
         F('audio_ref_level', S16), F('electro_spatial_formulation', S32), F('dial_norm', U16),
         F('coding_format', U32)]
DATD = MDFL + [T(2, 1), F('is_offset_to_frame_indexes_valid', B), F('offset_to_frame_indexes', U64),
               F('first_frame_offset', S32), F('min_sample_size', S32), F('max_sample_size', S32)]
FILELOC = [T(2, 2), F('path', Str()), X((1, F('path_posix', Str(), 76)), (2, F('path_utf8', Str(True), 76)),
                                        (3, F('path2_utf8', Str(True), 76))), T(3)]
APOS = [T(2, 1), Legacy(), X((1, F('mob_id', MobIDT())))]
ABOB = APOS + [T(2, 1), F('sample_num', S32), F('length', S32), F('track_type', S16), F('track_index', S16)]
DIDP = ABOB + [T(2, 1), F('strip', S32), F('offset', U64), F('byte_length', U64), F('spos_invalid', B)]
MCMR = [T(2, 1), Legacy(), F('position', S32), X((1, F('mob_id', MobIDT())))]
SIFT = Struct('SiftItem', [('method', S16), ('string', Str()), ('column', Str())])
COLUMN = Struct(None, [('title', Str()), ('format', S16), ('type', S16), ('hidden', B)])
FXPARAM = Struct('EffectParam', [(n, S32) for n in (
    'percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y', 'floor_y', 'ceil_y', 'scale_x', 'scale_y',
    'crop_left', 'crop_right', 'crop_top', 'crop_bottom')] + [('box', Fix(4, S32))] +
    [(n, B) for n in ('box_xscale', 'box_yscale', 'box_xpos', 'box_ypos')] +
    [('border_width', S32), ('border_soft', S32), ('splill_gain2', S16), ('splill_gain', S16), ('splill_soft2', S16),
     ('splill_soft', S16), ('enable_key_flags', S8), ('colors', Lst('i', S32)), ('user_param', Blob('i')),
     ('selected', B)])


class PluginChunk(Type):
    cls = 'ASPIPluginChunk'
    fields = [('version', S32), ('manufacturer_id', U32), ('product_id', U32), ('plugin_id', U32),
              ('chunk_id', U32), ('name', Str()), ('data', Blob('i'))]

    def enc(self, e, v):
        e.num('i', len(v['data']))
        for n, t in self.fields[:-1]:
            t.enc(e, v[n])
        e.raw(v['data'])

    def dec(self, d):
        size = d.num('i')
        r = OrderedDict((n, t.dec(d)) for n, t in self.fields[:-1])
        r['data'] = d.raw(size)
        return r


PLUGIN = Struct('ASPIPlugin', [('name', Str()), ('manufacturer_id', U32), ('product_id', U32), ('plugin_id', U32),
                               ('chunks', Lst('i', PluginChunk()))])
BAND = Struct('EqualizerBand', [('type', S32), ('freq', S32), ('gain', S32), ('q', S32), ('enable', B)])
BIN = [T(2), BinHead(), F('display_mask', S32), F('display_mode', S16), F('sifted', B),
       F('sifted_settings', Fix(6, SIFT)), F('sort_columns', Lst('h', Pair(U8, Str()))), F('mac_font', S16),
       F('mac_font_size', S16), F('mac_image_scale', S16), F('home_rect', Fix(4, S16, version=1)),
       F('background_color', Fix(3, U16, version=1)), F('forground_color', Fix(3, U16, version=1)),
       F('ql_image_scale', S16), F('attributes', A), F('was_iconic', B)]

# class id -> (library class name, spec)
KINDS = OrderedDict()


def kind(cid, name, spec, end=True):
    KINDS[cid] = (name, list(spec) + ([T(3)] if end else []))


kind(b'ABIN', 'Bin', BIN)
kind(b'BINF', 'BinFirst', BIN + [T(2, 1), F('unknown_s32', S32)])
kind(b'BVst', 'BinViewSetting', [T(2, 6), F('name', Str()), F('kind', Str()), F('attr_count', S16),
     F('attr_type', S16), F('attributes', A), T(2, 10), F('columns', Lst('H', COLUMN)),
     X((1, F('format_descriptors', FormatDescs())))])
kind(b'SEQU', 'Sequence', COMP + [T(2, 3), F('components', Lst('I', Ref('comp1'), True))])
kind(b'SCLP', 'SourceClip', CLIP + [T(2, 3), Legacy(), F('track_id', S16), F('start_time', S32),
     X((1, F('mob_id', MobIDT())))])
kind(b'TCCP', 'Timecode', CLIP + [T(2, 1), F('flags', U32), F('fps', U16), Pad(6), F('start', U32)])
kind(b'ECCP', 'Edgecode', CLIP + [T(2, 1), F('header', Bytes(8)), F('film_kind', U8), F('code_format', U8),
     F('base_perf', U16), Pad(4), F('start_ec', S32)])
kind(b'TRKR', 'TrackRef', CLIP + [T(2, 1), F('relative_scope', S16), F('relative_track', S16)])
kind(b'PRCL', 'ParamClip', CLIP + [T(2, 1), F('interp_kind', S32), F('value_type', S16), ParamValues(),
     X((1, F('extrap_kind', S32, 71)), (2, F('fields', S32, 71)))])
kind(b'CTRL', 'ControlClip', CLIP + [T(2, 3), F('interp_kind', S32), F('control_points', Lst('i', CtrlPoint()))])
kind(b'FILL', 'Filler', CLIP + [T(2, 1)])
kind(b'TRKG', 'TrackGroup', TRKG, end=False)
kind(b'TKFX', 'TrackEffect', TKFX)
kind(b'PVOL', 'PanVolumeEffect', TKFX + [T(2, 5), F('level', S32), F('pan', S32), F('suppress_validation', B),
     F('level_set', B), F('pan_set', B), X((1, F('supports_seperate_gain', S32, 71)),
                                           (2, F('is_trim_gain_effect', S32, 71)))])
kind(b'ASPI', 'AudioSuitePluginEffect', TKFX + [T(2, 1), F('plugins', Lst('i', PLUGIN)),
     X((1, Legacy(tag=71)), (8, F('mob_id', MobIDT())), (2, F('mark_in', S64, 77)), (3, F('mark_out', S64, 77)),
       (4, F('tracks_to_affect', S32, 72)), (5, F('rendering_mode', S32, 71)), (6, F('padding_secs', S32, 71)),
       (9, F('preset_path', PresetPath())))])
kind(b'EQMB', 'EqualizerMultiBand', TKFX + [T(2, 5), F('bands', Lst('i', BAND)), F('effect_enable', B),
     F('filter_name', Str())])
kind(b'MASK', 'CaptureMask', WARP + [T(2, 1), F('is_double', B), F('mask_bits', U32)])
kind(b'STRB', 'StrobeEffect', WARP + [T(2, 1), F('strobe_value', S32)])
kind(b'SPED', 'MotionEffect', WARP + [T(2, 3), F('speed_ratio', Fix(2, S32)),
     X((1, F('offset_adjust', Dbl(), 75)), (2, F('source_param_list', Ref('plist'), 72)),
       (3, F('new_source_calculation', B, 66)))])
kind(b'REPT', 'Repeat', WARP + [T(2, 1)])
kind(b'RSET', 'EssenceGroup', TRKG + [T(2, 1), X((1, F('rep_set_type', S32, 71)))])
kind(b'TNFX', 'TransitionEffect', TRKG + [T(2, 1), F('cutpoint', S32), T(2, 5)] + INFO +
     [X((1, F('trackman', Ref('tkmn'), 72)))])
kind(b'SLCT', 'Selector', TRKG + [T(2, 1), F('is_ganged', B), F('selected', U16)])
kind(b'CMPO', 'Composition', TRKG + [T(2, 2), Legacy(), F('last_modified', Dt()), F('mob_type_id', U8),
     F('usage_code', S32), F('descriptor', Ref('desc')), X((1, F('creation_time', Dt(), 71)), (2, F('mob_id', MobIDT())))])
kind(b'ATTR', 'Attributes', None, end=False) if False else None
kind(b'MDES', 'MediaDescriptor', MDES)
kind(b'MDTP', 'TapeDescriptor', MDES + [T(2, 2), F('cframe', S16)])
kind(b'MDFM', 'FilmDescriptor', MDES + [T(2, 1)])
kind(b'MDNG', 'NagraDescriptor', MDES + [T(2, 1)])
kind(b'MDFL', 'MediaFileDescriptor', MDFL)
kind(b'MULD', 'MultiDescriptor', MDFL + [T(2, 1), F('descriptors', Lst('i', Ref('desc'), True))])
kind(b'WAVE', 'WaveDescriptor', MDFL + [T(2, 1), F('summary', Blob('I', '<', b'RIFF'))])
kind(b'AIFC', 'AIFCDescriptor', MDFL + [T(2, 1), F('summary', Blob('I', '>', b'FORM')), X((1, F('data_pos', S32, 71)))])
kind(b'PCMA', 'PCMADescriptor', MDFL + [T(2, 1)] + AUDIO + [
     F('block_align', U32), F('sequence_offset', U16), F('average_bps', U32), F('has_peak_envelope_data', B)] +
     [F(n, S32) for n in ('peak_envelope_version', 'peak_envelope_format', 'points_per_peak_value',
                          'peak_envelope_block_size', 'peak_channel_count', 'peak_frame_count')] +
     [F('peak_of_peaks_offset', U64), F('peak_envelope_timestamp', S32),
      X((1, F('ebu_timestamp', S64, 77)), (3, F('timecode_framerate', Str(), 76)))])
kind(b'MPGA', 'MPGADescriptor', MDFL + [T(2, 1)] + AUDIO + [F('bit_rate', U32),
     X((1, F('sub_frame_alignment', U64, 77)), (2, F('origin', U64, 77)))])
kind(b'DIDD', 'DIDDescriptor', DIDD)
kind(b'CDCI', 'CDCIDescriptor', CDCI)
kind(b'MPGI', 'MPGIDescriptor', CDCI + [T(2, 1)] + [F(n, U8) for n in (
     'mpeg_version', 'profile', 'gop_structure', 'stream_type')] + [F(n, B) for n in (
         'random_access', 'leading_discard', 'trailing_discard')] + [
     F('min_gop_length', U16), F('max_gop_length', U16), F('sequence_hdr', Blob('i'))])
kind(b'JPED', 'JPEGDescriptor', CDCI + [T(2, 1), F('jpeg_table_id', S32), F('jpeg_frame_index_offset', U64),
     F('quantization_tables', Blob('i')), X((1, F('image_start_align', S32, 71)))])
kind(b'RGBA', 'RGBADescriptor', DIDD + [T(2, 1), F('pixel_layout', PixelLayout()),
     X((1, F('frame_index_offset', U64, 77)),
       (2, F('has_comp_min_ref', B, 66), F('comp_min_ref', U32, 72), F('has_comp_max_ref', B, 66),
        F('comp_max_ref', U32, 72)),
       (3, F('alpha_min_ref', U32, 72), F('alpha_max_ref', U32, 72)))])
kind(b'DATD', 'DataDescriptor', DATD)
kind(b'ANCD', 'ANCDataDescriptor', DATD + [T(2, 1), F('manifest_element_count', S32)])
kind(b'FILE', 'MacFileLocator', FILELOC, end=False)
kind(b'WINF', 'WinFileLocator', FILELOC, end=False)
kind(b'URLL', 'URLLocator', [])
kind(b'GRFX', 'GraphicEffect', [T(2, 1), F('pict_data', Blob('i'))])
kind(b'SHLP', 'ShapeList', [T(2, 1), F('shape_data', Blob('i'))])
kind(b'CCFX', 'ColorCorrectionEffect', [T(2, 1), F('color_correction', Blob('h'))])
kind(b'FXPS', 'EffectParamList', None) if False else None
kind(b'AVUP', 'CFUserParam', [T(2, 1), Const('h', 0x4949), F('uuid', RawUUID()), F('data', AvupData())])
kind(b'PRIT', 'ParameterItem', [T(2, 2), F('uuid', RawUUID()), F('value_type', S16), ItemValue(), F('name', Str()),
     F('enable', B), F('control_track', Ref('comp')), X((1, F('contribs_to_sig', B, 66)))])
kind(b'MSML', 'MSMLocator', [T(2, 2), Legacy(), F('last_known_volume', Str()),
     X((1, F('domain_type', S32, 71)), (2, F('mob_id', MobIDT())), (3, F('last_known_volume_utf8', Str(True), 76)))])
kind(b'APOS', 'Position', APOS)
kind(b'ABOB', 'BOBPosition', ABOB)
kind(b'DIDP', 'DIDPosition', DIDP)
kind(b'MPGP', 'MPGPosition', DIDP + [T(2, 1), F('trailing_discards', S16), F('need_seq_hdr', B),
     F('fields', MpgFields())])
kind(b'MCBR', 'BinRef', [T(2, 1), F('uid_high', S32), F('uid_low', S32), F('name', Str()),
     X((1, F('name_utf8', Str(True), 76)))])
kind(b'MCMR', 'MobRef', MCMR)
kind(b'TMBC', 'Marker', MCMR + [T(2, 3), F('comp_offset', S32), F('attributes', A), F('color', Fix(3, U16, version=1)),
     X((1, F('handled_codes', B, 66)))])
kind(b'TKMN', 'TrackerManager', [T(2, 1), F('data_slots', ANY), F('param_slots', ANY)])
kind(b'TKDS', 'TrackerDataSlot', [T(2, 1), F('tracker_data', Lst('i', ANY, True)), X((1, F('track_fg', B, 66)))])
kind(b'TKPS', 'TrackerParameterSlot', [T(2, 1), F('settings', Blob('h')), F('params', Lst('i', ANY, True))])
kind(b'TKDA', 'TrackerData', [T(2, 1), F('settings', Blob('h')), F('clip_version', U32),
     F('clips', Lst('h', ANY, True)),
     X((1, F('offset_tracking', U32, 72)), (2, F('smoothing', U32, 72)), (3, F('jitter_removal', U32, 72)),
       (4, F('filter_amount', Dbl(), 75)), (5, F('clip5', ANY, 72)), (6, F('clip6', ANY, 72)))])
kind(b'TKPA', 'TrackerParameter', [T(2, 1), F('settings', Blob('h'))])


class FxpsItem(Item):
    def names(self):
        return [('orig_length', S32), ('window_offset', S32), ('keyframe_size', S32),
                ('parameters', Lst('i', FXPARAM))]

    def enc(self, e, m):
        e.num('i', m['orig_length'])
        e.num('i', m['window_offset'])
        e.num('i', len(m['parameters']))
        e.num('i', m['keyframe_size'])
        for x in m['parameters']:
            FXPARAM.enc(e, x)

    def dec(self, d, m):
        m['orig_length'] = d.num('i')
        m['window_offset'] = d.num('i')
        n = d.num('i')
        m['keyframe_size'] = d.num('i')
        m['parameters'] = [FXPARAM.dec(d) for i in range(n)]


class AttrItem(Item):
    """ordered dictionary; model value: list of [name, type, value]"""
    def names(self):
        return [('entries', self)]

    def enc(self, e, m):
        e.num('I', len(m['entries']))
        for n, t, v in m['entries']:
            e.num('I', t)
            Str().enc(e, n)
            {1: S32, 2: Str(), 3: Ref('any'), 4: Blob('I')}[t].enc(e, v)

    def dec(self, d, m):
        r = []
        for i in range(d.num('I')):
            t = d.num('I')
            n = Str().dec(d)
            if t not in (1, 2, 3, 4):
                raise FormatError('attribute type')
            r.append([n, t, {1: S32, 2: Str(), 3: Ref('any'), 4: Blob('I')}[t].dec(d)])
        if len(set(x[0] for x in r)) != len(r):
            if not d.lenient:
                raise FormatError('attribute name repeated')
            q = OrderedDict()
            for x in r:
                q[x[0]] = x
            r = list(q.values())
        m['entries'] = r


class ListItem(Item):
    def __init__(self, fmt, k):
        self.fmt = fmt
        self.typ = Lst(fmt, Ref(k), True)

    def names(self):
        return [('entries', self.typ)]

    def enc(self, e, m):
        self.typ.enc(e, m['entries'])

    def dec(self, d, m):
        m['entries'] = self.typ.dec(d)


kind(b'FXPS', 'EffectParamList', [T(2, 18), FxpsItem()])
kind(b'ATTR', 'Attributes', [T(2, 1), AttrItem()])
kind(b'PRLS', 'ParameterList', [T(2, 1), ListItem('i', 'prit')])
kind(b'TMCS', 'TimeCrumbList', [T(2, 1), ListItem('h', 'marker')])
# TRKG itself never ends in a terminator in the table of tags: see trkg_note
KINDS[b'TRKG'] = ('TrackGroup', KINDS[b'TRKG'][1])

CLASS_OF = {v[0]: k for k, v in KINDS.items()}

COMPONENTS = [b'SEQU', b'SCLP', b'TCCP', b'ECCP', b'TRKR', b'PRCL', b'CTRL', b'FILL', b'TKFX', b'PVOL', b'ASPI',
              b'EQMB', b'MASK', b'STRB', b'SPED', b'REPT', b'RSET', b'TNFX', b'SLCT']
DESCRIPTORS = [b'MDES', b'MDTP', b'MDFM', b'MDNG', b'MDFL', b'MULD', b'WAVE', b'AIFC', b'PCMA', b'MPGA', b'DIDD',
               b'CDCI', b'MPGI', b'JPED', b'RGBA', b'DATD', b'ANCD']
LOCATORS = [b'FILE', b'WINF', b'URLL', b'MSML']
MISC = [b'GRFX', b'SHLP', b'CCFX', b'AVUP', b'APOS', b'ABOB', b'DIDP', b'MPGP', b'MCBR', b'MCMR', b'TMBC', b'TKMN',
        b'TKDS', b'TKPS', b'TKDA', b'TKPA', b'FXPS', b'PRIT', b'PRLS', b'TMCS', b'ATTR']
REFKINDS = {
    'attr': [b'ATTR'], 'comp': COMPONENTS, 'comp1': COMPONENTS, 'desc': DESCRIPTORS, 'loc': LOCATORS,
    'view': [b'BVst'], 'mob': [b'CMPO'], 'plist': [b'PRLS'], 'prit': [b'PRIT'], 'marker': [b'TMBC'],
    'fxps': [b'FXPS'], 'tkmn': [b'TKMN'],
}
ALLKINDS = [k for k in KINDS if k not in (b'TRKG',)]
REFKINDS['any'] = [k for k in ALLKINDS if k not in (b'ABIN', b'BINF', b'BVst')]


def spec(cid):
    return KINDS[cid][1]


def fields(cid):
    """[(name, type, optional)] in format order"""
    r = []
    seen = set()
    for it in spec(cid):
        for n, t in it.names():
            if n in seen:
                continue
            seen.add(n)
            r.append((n, t, isinstance(it, X)))
    return r


def groups(cid):
    """optional groups: list of lists of field names that come and go together"""
    r = []
    for it in spec(cid):
        if isinstance(it, X):
            for tag, items in it.groups:
                ns = [n for i in items for n, t in i.names()]
                if ns:
                    r.append(ns)
    return r


def encode_chunk(cid, m, order, refmap, noise=None, ext_order=None):
    e = Enc(order, noise)
    e.refmap = refmap
    e.ext_order = ext_order
    for it in spec(cid):
        it.enc(e, m)
    return bytes(e.out)


def decode_chunk(cid, data, order, lenient=False):
    if cid not in KINDS:
        raise FormatError('unknown class %r' % cid)
    d = DecS(order, data, lenient)
    m = OrderedDict()
    for it in spec(cid):
        it.dec(d, m)
    if d.p != len(d.d):
        raise FormatError('%r: %d trailing bytes' % (cid, len(d.d) - d.p))
    return m


# ------------------------------------------------------------- whole files
class Doc(object):
    """objs: OrderedDict id -> (class id, model dict); root: id"""
    def __init__(self, objs, root, order='little', last_save=0, creator='', uid_words=None):
        self.objs, self.root, self.order = objs, root, order
        self.last_save, self.creator = last_save, creator

    def __repr__(self):
        return 'Doc(order=%r, root=%r, last_save=%r, creator=%r, objs=%r)' % (
            self.order, self.root, self.last_save, self.creator,
            OrderedDict((k, (v[0], dict(v[1]))) for k, v in self.objs.items()))


def encode_file(doc, file_order=None, noise=None, ext_order=None, save_string=b'2020/01/02 03:04:05'):
    order = doc.order
    o = '<' if order == 'little' else '>'
    ids = list(file_order) if file_order is not None else list(doc.objs)
    refmap = {k: i + 1 for i, k in enumerate(ids)}
    e = Enc(order, noise)
    e.raw(b'\x06\x00' if order == 'little' else b'\x00\x06')
    e.raw(b'Domain')

    def fcc(x):
        e.raw(x[::-1] if order == 'little' else x)
    fcc(b'OBJD')
    e.num('H', 7)
    e.raw(b'AObjDoc')
    e.num('B', 4)
    e.num('H', len(save_string))
    e.raw(save_string)
    e.num('I', len(ids))
    e.num('I', refmap[doc.root])
    e.num('I', 0x49494949 if order == 'little' else 0x4D4D4D4D)
    e.num('I', doc.last_save)
    e.pad(4)
    fcc(b'ATob')
    fcc(b'ATve')
    e.num('H', 30)
    e.raw(mac_encode(doc.creator)[:30].ljust(30, b' '))
    e.pad(16)
    head = len(e.out)
    pos = []
    for k in ids:
        cid, m = doc.objs[k]
        data = m if isinstance(m, bytes) else encode_chunk(cid, m, order, refmap, noise, ext_order)
        fcc(cid)
        e.num('I', len(data))
        pos.append((cid, len(e.out), len(data)))
        e.raw(data)
    encode_file.positions = [(b'OBJD', 8, head - 8)] + pos
    return bytes(e.out), refmap


def decode_damaged(data):
    """Lenient decoder of a possibly damaged file: (doc, broken) where broken objects are absent from doc.objs and
    present, with the reason, in broken; raises FormatError when the file as a whole cannot be opened"""
    if data[:2] not in (b'\x06\0', b'\0\x06'):
        raise FormatError('byte order mark')
    order = 'little' if data[:2] == b'\x06\0' else 'big'
    d = DecS(order, data, True)
    d.raw(2)
    if d.raw(6) != b'Domain':
        raise FormatError('magic')

    def fcc():
        b = d.raw(4)
        return b[::-1] if order == 'little' else b
    if fcc() != b'OBJD':
        raise FormatError('OBJD')
    if Str().dec(d) != 'AObjDoc':
        raise FormatError('AObjDoc')
    d.tag(4)
    Str().dec(d)
    count = d.num('I')
    root = d.num('I')
    if d.num('I') not in (0x49494949, 0x4D4D4D4D):
        raise FormatError('byte order word')
    last_save = d.num('I')
    d.raw(4)
    if fcc() != b'ATob' or fcc() != b'ATve':
        raise FormatError('ATob/ATve')
    creator = Str().dec(d)
    d.p = min(d.p + 16, len(data))
    objs, broken = OrderedDict(), OrderedDict()
    exact = set()
    positions = [(b'OBJD', 8, d.p - 8)]
    for i in range(1, count + 1):
        cid = fcc()
        size = d.num('I')
        positions.append((cid, d.p, size))
        if d.p + size > len(data):
            broken[i] = 'truncated'
            if i < count:
                raise FormatError('objects missing')
            break
        body = d.raw(size)
        try:
            m = decode_chunk(cid, body, order, True)
            for r in refs_of(cid, m):
                if r > count:
                    raise FormatError('refers to %d of %d' % (r, count))
            if cid == b'SLCT' and not 0 <= m['selected'] < len(m['tracks']):
                raise FormatError('selected')
            objs[i] = (cid, m)
        except (FormatError, UnicodeError) as ex:
            broken[i] = str(ex)
            continue
        try:
            decode_chunk(cid, body, order)
            exact.add(i)
        except FormatError:
            pass
    if not 0 < root <= count:
        raise FormatError('root index')
    if root in broken:
        raise FormatError('root object: %s' % broken[root])
    doc = Doc(objs, root, order, last_save, creator)
    doc.positions = positions
    doc.exact = exact
    return doc, broken


def decode_file(data):
    """Strict decoder of a whole file.  Returns Doc with ids = file indices."""
    if data[:2] == b'\x06\x00':
        order = 'little'
    elif data[:2] == b'\x00\x06':
        order = 'big'
    else:
        raise FormatError('byte order mark')
    d = DecS(order, data)
    d.raw(2)
    if d.raw(6) != b'Domain':
        raise FormatError('magic')

    def fcc():
        b = d.raw(4)
        return b[::-1] if order == 'little' else b
    if fcc() != b'OBJD':
        raise FormatError('OBJD')
    if d.raw(d.num('H')) != b'AObjDoc':
        raise FormatError('AObjDoc')
    d.tag(4)
    save_string = d.raw(d.num('H'))
    count = d.num('I')
    root = d.num('I')
    if d.num('I') != (0x49494949 if order == 'little' else 0x4D4D4D4D):
        raise FormatError('byte order word')
    last_save = d.num('I')
    d.raw(4)
    if fcc() != b'ATob' or fcc() != b'ATve':
        raise FormatError('ATob/ATve')
    if d.num('H') != 30:
        raise FormatError('creator length')
    creator = d.raw(30).decode('mac_roman')
    d.raw(16)
    head = d.p
    objs = OrderedDict()
    positions = [(b'OBJD', 8, head - 8)]
    for i in range(1, count + 1):
        cid = fcc()
        size = d.num('I')
        start = d.p
        body = d.raw(size)
        positions.append((cid, start, size))
        if body[-1:] != b'\x03':
            raise FormatError('object %d (%r) lacks its terminator' % (i, cid))
        try:
            objs[i] = (cid, decode_chunk(cid, body, order))
        except FormatError as ex:
            raise FormatError('object %d %r: %s' % (i, cid, ex))
    if d.p != len(data):
        raise FormatError('%d bytes after the last object' % (len(data) - d.p))
    doc = Doc(objs, root, order, last_save, creator)
    doc.save_string = save_string
    doc.positions = positions
    for k, (cid, m) in objs.items():
        for r in refs_of(cid, m):
            if r < 0 or r > count:
                raise FormatError('object %d refers to %d of %d' % (k, r, count))
    if root not in objs:
        raise FormatError('root index')
    return doc


# ------------------------------------------------------- generic traversal
def map_refs(cid, m, fn):
    """copy of model m with every reference r replaced by fn(r)"""
    def conv(t, v, mm):
        if v is None and isinstance(t, Ref):
            return None
        if isinstance(t, Ref):
            return fn(v)
        if isinstance(t, Lst):
            return [conv(t.elem, x, mm) for x in v]
        if isinstance(t, TrackT) or isinstance(t, Struct):
            ft = dict(t.fields)
            return OrderedDict((k, conv(ft[k], x, mm)) for k, x in v.items())
        if isinstance(t, AttrItem):
            return [[a, b, (fn(c) if b == 3 and c is not None else c)] for a, b, c in v]
        if isinstance(t, ItemValue):
            return fn(v) if mm['value_type'] == 4 and v is not None else v
        if isinstance(t, ParamValues):
            r = []
            for cp in v:
                cp = OrderedDict(cp)
                if mm['value_type'] == 4 and cp['value'] is not None:
                    cp['value'] = fn(cp['value'])
                r.append(cp)
            return r
        return v
    out = OrderedDict()
    ft = {n: t for n, t, o in fields(cid)}
    for k, v in m.items():
        out[k] = conv(ft[k], v, m) if k in ft else v
    return out


def refs_of(cid, m):
    r = []

    def f(x):
        r.append(x)
        return x
    map_refs(cid, m, f)
    return r


def reachable(doc):
    seen = []
    ss = set()
    stack = [doc.root]
    while stack:
        k = stack.pop()
        if k in ss:
            continue
        ss.add(k)
        seen.append(k)
        cid, m = doc.objs[k]
        stack.extend(refs_of(cid, m))
    return seen


def canon(t, v):
    """canonical comparable form of a value"""
    if isinstance(v, Dec):
        f = dec_fraction(v)
        return ('dec', f.numerator, f.denominator)
    if isinstance(v, float):
        return ('f', struct.pack('<d', v))
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, dict):
        return {k: canon(None, x) for k, x in v.items() if k != '_legacy'}
    if isinstance(v, (list, tuple)):
        return [canon(None, x) for x in v]
    return v


def diff_docs(a, b, check_header=True):
    """None if the documents are equal up to renumbering of objects, else text."""
    m = {}
    inv = {}
    stack = [(a.root, b.root, 'root')]
    while stack:
        x, y, path = stack.pop()
        if x in m:
            if m[x] != y:
                return '%s: sharing differs (first %s now %s)' % (path, m[x], y)
            continue
        if y in inv:
            return '%s: two different objects became one' % path
        m[x] = y
        inv[y] = x
        cx, mx = a.objs[x]
        cy, my = b.objs[y]
        if cx != cy:
            return '%s: class %r became %r' % (path, cx, cy)
        kx = [k for k in mx if k != '_legacy']
        ky = [k for k in my if k != '_legacy']
        if set(kx) != set(ky):
            return '%s %r: fields present differ: only in first %s, only in second %s' % (
                path, cx, sorted(set(kx) - set(ky)), sorted(set(ky) - set(kx)))
        rx = []
        ry = []
        nx = map_refs(cx, mx, lambda r: (rx.append(r), '#ref')[1])
        ny = map_refs(cy, my, lambda r: (ry.append(r), '#ref')[1])
        for k in kx:
            if canon(None, nx[k]) != canon(None, ny[k]):
                return '%s %r.%s: %s != %s' % (path, cx, k, short(nx[k]), short(ny[k]))
        # same field order for references needed: recompute in the same key order
        rx[:] = []
        ry[:] = []
        map_refs(cx, OrderedDict((k, mx[k]) for k in kx), lambda r: (rx.append(r), '#')[1])
        map_refs(cy, OrderedDict((k, my[k]) for k in kx), lambda r: (ry.append(r), '#')[1])
        if len(rx) != len(ry):
            return '%s %r: number of references differ' % (path, cx)
        for i, (p, q) in enumerate(zip(rx, ry)):
            stack.append((p, q, '%s/%s[%d]' % (path, cx.decode(), i)))
    if check_header:
        if a.last_save != b.last_save:
            return 'last save time %r != %r' % (a.last_save, b.last_save)
        if a.creator.rstrip(' ') != b.creator.rstrip(' '):
            return 'creator %r != %r' % (a.creator, b.creator)
    return None


def short(v, n=200):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------- smallest values
def zero(t, m=None):
    if isinstance(t, Int):
        return 0
    if isinstance(t, Bool):
        return False
    if isinstance(t, Dbl):
        return 0.0
    if isinstance(t, Exp10):
        return Dec(25, 0)
    if isinstance(t, Str):
        return None if t.none else ''
    if isinstance(t, Ref):
        return None
    if isinstance(t, MobIDT):
        return bytes(32)
    if isinstance(t, RawUUID):
        return bytes(16)
    if isinstance(t, Dt):
        return 1000000000
    if isinstance(t, FourCC):
        return b'abcd'
    if isinstance(t, Bytes):
        return bytes(t.n)
    if isinstance(t, (Blob, AvupData, PresetPath)):
        return b''
    if isinstance(t, Fix):
        return [zero(t.elem) for i in range(t.n)]
    if isinstance(t, Pair):
        return [zero(x) for x in t.elems]
    if isinstance(t, (Lst, LineMap, MpgFields, PixelLayout, FormatDescs, AttrItem, ParamValues)):
        return []
    if isinstance(t, ItemValue):
        return 0
    if isinstance(t, PPT):
        return OrderedDict(code=5, type=1, value=0)
    if isinstance(t, TrackT):
        return OrderedDict(lock_number=0)
    if isinstance(t, (Struct, CtrlPoint, PluginChunk)):
        return OrderedDict((n, zero(x)) for n, x in t.fields)
    raise TypeError(t)


def zero_model(cid, optional=True):
    """smallest valid model of a class; optional: False leaves every optional field out"""
    m = OrderedDict()
    for n, t, o in fields(cid):
        if o and not optional:
            continue
        m[n] = 1 if n == 'value_type' else zero(t)
    if cid == b'SLCT':
        m['tracks'] = [OrderedDict(lock_number=0)]
    return m


def fields_of_reflists(cid):
    return [n for n, t, o in fields(cid) if isinstance(t, Lst) and t.reflist]
