"""MobID forms are mutually inverse and ordering, equality and hashing agree."""
import struct
import uuid
from hypothesis import strategies as st
from avb.mobid import MobID, UniqueMobID
from runner import Sub, Violation

RULE = 'the identifier (or both of a pair) has at least two different non-zero bytes'
ASSUMPTIONS = ['identifiers whose normal URN spelling is the half-swapped spelling of another one (label byte 12 zero, '
               'Data1/2/3 starting 060e2b347f7f) are excluded from the URN round trip: two identifiers share it']

SWAP = bytes.fromhex('060e2b347f7f')
NEW = bytes.fromhex('060a2b340101010501010f2013000000')      # label, length and instance of a fresh identifier
LABEL = bytes.fromhex('060a2b340101010101010f00')


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


def swapped(b):
    return b[11] == 0 and b[24:30] == SWAP


def ambiguous(b):
    if b[11] != 0 or swapped(b):
        return False
    d1, d2, d3 = struct.unpack('<IHH', b[16:24])
    return struct.pack('>IHH', d1, d2, d3)[:6] == SWAP


def hexdigits(b):
    """the 64 digits of the URN"""
    d1, d2, d3 = struct.unpack('<IHH', b[16:24])
    mid = '%08x%04x%04x' % (d1, d2, d3)
    if swapped(b):
        return b[:16].hex() + b[24:].hex() + mid
    return b[:16].hex() + mid + b[24:].hex()


def urn_of(b):
    h = hexdigits(b)
    return 'urn:smpte:umid:' + '.'.join(h[i:i + 8] for i in range(0, 64, 8))


def forms(ctx, case):
    b, spell = case
    m = MobID(bytes_le=b)
    need(bytes(m.bytes_le) == b, 'bytes: %r', m.bytes_le)
    raw = bytearray(b)
    k = MobID(bytes_le=raw)
    need(bytes(k.bytes_le) == b, 'bytearray form')
    raw[spell % 32] ^= 0x55
    need(bytes(k.bytes_le) == b, 'the identifier changed along with the bytes it was made from')
    k = MobID(bytes_le=m.bytes_le)
    k.instanceLow ^= 0x55
    need(bytes(m.bytes_le) == b, 'two identifiers share their bytes')
    # integer form
    n = int.from_bytes(b, 'big')
    need(m.int == n and int(m) == n, 'int %r', m.int)
    need(bytes(MobID(int=n).bytes_le) == b, 'from int')
    k = MobID.new()
    k.int = n
    need(k == m and bytes(k.bytes_le) == b, 'set int')
    # dictionary form
    d = m.to_dict()
    d1, d2, d3 = struct.unpack('<IHH', b[16:24])
    need(d == {'material': {'Data1': d1, 'Data2': d2, 'Data3': d3, 'Data4': list(b[24:])}, 'length': b[12],
               'instanceHigh': b[13], 'instanceMid': b[14], 'instanceLow': b[15], 'SMPTELabel': list(b[:12])},
         'dict %r', d)
    k = MobID.new()
    k.from_dict(d)
    need(bytes(k.bytes_le) == b, 'from dict: %r', bytes(k.bytes_le))
    need(m.to_dict() == d and bytes(m.bytes_le) == b, 'to_dict changed the identifier')
    # field by field, in an order chosen by the case
    k = MobID()
    steps = [('SMPTELabel', list(b[:12])), ('length', b[12]), ('instanceHigh', b[13]), ('instanceMid', b[14]),
             ('instanceLow', b[15]), ('Data1', d1), ('Data2', d2), ('Data3', d3), ('Data4', list(b[24:]))]
    r = spell % len(steps)
    for name, v in steps[r:] + steps[:r]:
        setattr(k, name, v)
    need(bytes(k.bytes_le) == b, 'field by field: %r', bytes(k.bytes_le))
    for name, v in steps:
        g = getattr(m, name)
        need((list(g) if isinstance(v, list) else g) == v, 'field %s: %r', name, g)
    need(m.material.bytes_le == b[16:], 'material')
    k = MobID(bytes_le=bytes(16) + b[16:])
    k.material = uuid.UUID(bytes_le=b[16:])
    k.SMPTELabel = m.SMPTELabel
    k.length, k.instanceHigh, k.instanceMid, k.instanceLow = m.length, m.instanceHigh, m.instanceMid, m.instanceLow
    need(k == m, 'material form')
    # URN form
    u = m.urn
    need(u == urn_of(b), 'urn %r, expected %r', u, urn_of(b))
    need(str(m) == u and repr(m) == u, 'text form')
    if not ambiguous(b):
        h = hexdigits(b)
        variants = [u, u.upper(), h, h.upper(), '0x' + h, '0X' + h.upper(), u[15:], u.replace('.', '-'),
                    u[15:].replace('.', ''), '-'.join(h[i:i + 2] for i in range(0, 64, 2)),
                    'urn:smpte:umid:' + h, '.'.join('0x' + h[i:i + 8] for i in range(0, 64, 8)),
                    'URN:SMPTE:UMID:' + u[15:]]
        v = variants[spell % len(variants)]
        for t in (u, v):
            need(bytes(MobID(t).bytes_le) == b, 'parsing %r gives %r', t, bytes(MobID(t).bytes_le))
            k = MobID.new()
            k.urn = t
            need(k == m, 'assigning urn %r', t)
    ctx.label('half-swapped' if swapped(b) else 'ambiguous' if ambiguous(b) else 'plain')
    return len(set(b) - {0}) >= 2


def pairs(ctx, case):
    a, b = case
    x, y = MobID(bytes_le=a), MobID(bytes_le=b)
    x2 = MobID(bytes_le=bytes(a))
    need(x == x2 and not x != x2 and hash(x) == hash(x2), 'same bytes, not equal')
    eq = a == b
    need((x == y) == eq and (x != y) == (not eq), 'equality of %s and %s', a.hex(), b.hex())
    if eq:
        need(hash(x) == hash(y), 'equal but different hashes')
    need((x < y) == (a < b) and (x > y) == (a > b) and (x <= y) == (a <= b) and (x >= y) == (a >= b),
         'ordering of %s and %s', a.hex(), b.hex())
    need((x < y) == (x.int < y.int), 'ordering and integer form')
    need(sorted([x, y, x2], key=lambda m: m) == [MobID(bytes_le=t) for t in sorted([a, b, a])], 'sorting')
    need(len({x, y, x2}) == len({a, b}), 'as set members')
    need({x: 1}.get(x2) == 1, 'as dictionary key')
    need(not (x == 5) and x != 'a' and not (x == None) and not x == x.urn, 'equal to a foreign value')
    # hashing and equality follow later changes
    y.bytes_le = bytearray(a)
    need(x == y and hash(x) == hash(y), 'after change')
    y.length = (y.length + 1) % 256
    need(x != y and bytes(x.bytes_le) == a, 'identifiers share storage')
    ctx.label('equal' if eq else 'different')
    return len(set(a) - {0}) >= 2 and len(set(b) - {0}) >= 2


def fresh(ctx, n):
    ids = [MobID.new() if i % 2 else UniqueMobID() for i in range(n)]
    need(len(set(bytes(m.bytes_le) for m in ids)) == n, 'fresh identifiers repeat')
    for m in ids:
        need(bytes(m.bytes_le[:16]) == NEW, 'fresh identifier %s', m)
        need(m.material.version == 4 and m.material.variant == uuid.RFC_4122, 'fresh identifier %s', m)
    need(bytes(MobID().bytes_le) == bytes(32), 'empty identifier')
    return n > 1


def near_swap(b, n, k, zero):
    """Data1/2/3 spelled with the first n bytes of the mark, Data4 with the first k"""
    first = SWAP[:n] + b[16 + n:24]
    first = struct.pack('<IHH', *struct.unpack('>IHH', first))
    return (b[:11] + b'\0' if zero else b[:12]) + b[12:16] + first + SWAP[:k] + b[24 + k:]


b32 = st.one_of(
    st.binary(min_size=32, max_size=32),
    st.binary(min_size=20, max_size=20).map(lambda x: LABEL + x),
    st.tuples(st.binary(min_size=11, max_size=11), st.binary(min_size=12, max_size=12), st.binary(min_size=2, max_size=2))
    .map(lambda t: t[0] + b'\0' + t[1] + SWAP + t[2]),
    st.tuples(st.binary(min_size=32, max_size=32), st.integers(0, 5), st.integers(0, 255)).map(
        lambda t: t[0][:11] + b'\0' + t[0][12:24] + SWAP[:t[1]] + bytes([t[2]]) + SWAP[t[1] + 1:] + t[0][30:]),
    st.tuples(st.binary(min_size=31, max_size=31), st.integers(1, 255)).map(
        lambda t: t[0][:11] + bytes([t[1]]) + t[0][11:23] + SWAP + t[0][29:]),
    st.tuples(st.binary(min_size=32, max_size=32)).map(
        lambda t: t[0][:11] + b'\0' + t[0][12:16] + struct.pack('<IHH', 0x060e2b34, 0x7f7f, 7) + t[0][24:]),
    # either half starts almost like the half-swapped spelling
    st.tuples(st.binary(min_size=32, max_size=32), st.integers(0, 6), st.integers(0, 6), st.booleans()).map(
        lambda t: near_swap(t[0], t[1], t[2], t[3])),
    st.sampled_from([bytes(32), b'\xff' * 32, bytes(31) + b'\1', b'\1' + bytes(31)]))


@st.composite
def two(draw):
    a = draw(b32)
    how = draw(st.integers(0, 4))
    if how == 0:
        return a, draw(b32)
    if how == 1:
        return a, a
    b = bytearray(a)
    for i in range(how - 1):
        b[draw(st.integers(0, 31))] = draw(st.integers(0, 255))
    return a, bytes(b)


SUBS = [
    Sub('forms', st.tuples(b32, st.integers(0, 1000)), forms, quick=12000, thorough=400000),
    Sub('pairs', two(), pairs, quick=12000, thorough=400000),
    Sub('fresh', st.integers(2, 400), fresh, quick=50),
]
