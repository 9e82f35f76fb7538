"""Symbolic views of coded fields are faithful to the codes."""
import json
import os
import uuid
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'at least one code without a name and one with a name was viewed, or a track with at least two and not all fields'
ASSUMPTIONS = [
    'the tables of names are written here and in lib/parameters.json, independently of the code',
    'a mob with an unknown type code has no type name: asking for it raises ValueError',
]


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


MEDIA = {0: None, 1: 'picture', 2: 'sound', 3: 'timecode', 4: 'edgecode', 5: 'attribute', 6: 'effectdata',
         7: 'DescriptiveMetadata', 16: 'DataEssenceTrack'}
USAGE = {0: None, 1: 'precompute', 2: 'subclip', 3: 'effect', 4: 'group', 5: 'groupoofter', 6: 'motion', 7: 'mastermob',
         9: 'precompute_file'}
MOB = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}
INTERP = {2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}
POINT = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U', 8: 'PP_OUT_TANGENT_VAL_U',
         9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}
VALUE = {1: 'int', 2: 'double', 4: 'reference'}
PARAMS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'parameters.json')))
PNAMES = set(PARAMS.values())
COMPONENTS = sorted(c for c in R.ALLKINDS if 'media_kind_id' in L.full_model(c))
TRACKED = sorted(c for c in R.ALLKINDS if 'tracks' in L.full_model(c))
BITS = OrderedDict([('index', 0), ('attributes', 1), ('component', 2), ('filler_proxy', 3), ('bob_data', 4), ('control_code', 5),
                    ('control_sub_code', 6), ('start_pos', 7), ('read_only', 8), ('session_attr', 9)])

F = []


def file():
    if not F:
        F.append(avb.open())
    return F[0]


def make(name):
    return file().create.from_name(name)


def view(table, code, got, unknown, what):
    if code in table:
        need(got == table[code] and type(got) is type(table[code]), '%s %d is named %r, expected %r', what, code, got, table[code])
    else:
        need(got not in table.values() and got == unknown, '%s %d has no name but is called %r', what, code, got)


def check_media(o, code):
    o.media_kind_id = code
    got = o.media_kind
    view(MEDIA, code, got, 'unknown%d' % code, 'media kind')
    if code in MEDIA:
        o.media_kind_id = 99
        o.media_kind = got
        need(o.media_kind_id == code and type(o.media_kind_id) is int, 'media kind %r is stored as %r', got, o.media_kind_id)
        need(o.media_kind == got, 'media kind %r set is read as %r', got, o.media_kind)


def check_usage(o, code):
    o.usage_code = code
    view(USAGE, code, o.usage, 'unknown', 'usage')


def check_mob(o, code):
    o.mob_type_id = code
    if code in MOB:
        need(o.mob_type == MOB[code], 'mob type %d is named %r', code, o.mob_type)
    else:
        try:
            r = o.mob_type
        except ValueError:
            return
        raise Violation('mob type %d is called %r' % (code, r))


def check_interp(o, code):
    o.interp_kind = code
    view(INTERP, code, o.interp, 'unknown', 'interpolation')


def check_value(o, code):
    o.value_type = code
    view(VALUE, code, o.value_type_name, 'unknown', 'value type')


def check_pptype(o, code):
    o.type = code
    view(VALUE, code, o.type_name, 'unknown', 'point property type')


def check_ppcode(o, code):
    o.code = code
    view(POINT, code, o.name, None, 'point property')
    cp = make('ParamControlPoint')
    o.value = 5
    cp.pp = [o]
    need(cp.point_properties == ({POINT[code]: 5} if code in POINT else {}), 'point property %d: %r', code, cp.point_properties)
    need(cp.base_frame == (5 if code == 14 else 0), 'point property %d: base frame %r', code, cp.base_frame)
    exp = [(5.0 if code == 5 else 0.0, 5.0 if code == 6 else 0.0), (5.0 if code == 7 else 0.0, 5.0 if code == 8 else 0.0)]
    need(cp.tangents == exp, 'point property %d: tangents %r', code, cp.tangents)


FIELDS = {
    'media': (None, check_media, -2**15, 2**15 - 1, MEDIA), 'usage': ('Composition', check_usage, -2**31, 2**31 - 1, USAGE),
    'mob': ('Composition', check_mob, 0, 255, MOB), 'interp': ('ParamClip', check_interp, -2**31, 2**31 - 1, INTERP),
    'value': ('ParamClip', check_value, -2**15, 2**15 - 1, VALUE), 'itemvalue': ('ParameterItem', check_value, -2**15, 2**15 - 1, VALUE),
    'pptype': ('ParamControlPointProperty', check_pptype, -2**15, 2**15 - 1, VALUE),
    'ppcode': ('ParamControlPointProperty', check_ppcode, -2**15, 2**15 - 1, POINT)}


def codes(ctx, case):
    """a block of 1024 neighbouring codes, and some anywhere"""
    name, block, extra, cls = case
    cname, check, lo, hi, table = FIELDS[name]
    o = make(cname or R.KINDS[COMPONENTS[cls % len(COMPONENTS)]][0])
    base = (block - 32) * 1024
    seen = set()
    for code in list(range(max(lo, base), min(hi, base + 1023) + 1)) + extra + sorted(table):
        if lo <= code <= hi:
            check(o, code)
            seen.add(code in table)
    ctx.label(name)
    return seen == {True, False}


ANY = st.one_of(st.integers(-2**31, 2**31 - 1), st.tuples(st.integers(0, 20), st.sampled_from([1 << 8, 1 << 16, 1 << 24, -(1 << 8), -(1 << 16), 1 << 30, -(1 << 31)])).map(sum),
                st.integers(-40, 40))
code_cases = st.tuples(st.sampled_from(sorted(FIELDS)), st.integers(0, 63), st.lists(ANY, max_size=20), st.integers(0, 99))


# ------------------------------------------------------------ names
def near(n):
    return st.sampled_from([n.upper(), n.lower(), n.title(), n + ' ', ' ' + n, n[:-1], n + 's', n.encode('ascii'), n + '\0', n[::-1]])


name_cases = st.tuples(st.one_of(
    st.text(max_size=12), st.sampled_from(sorted(x for x in MEDIA.values() if x)).flatmap(near), st.integers(-3, 20), st.just(''),
    st.integers(0, 70).map('unknown{}'.format), st.sampled_from([True, False, 1.0, b'', (), 'None', 'none', 'video', 'audio', 'data',
                                                                  'Picture', 'Sound', 'TimeCode', 'Edgecode'])),
    st.integers(0, 99), st.sampled_from(sorted(MEDIA)))


def names(ctx, case):
    name, cls, code = case
    o = make(R.KINDS[COMPONENTS[cls % len(COMPONENTS)]][0])
    o.media_kind_id = code
    known = [k for k, v in MEDIA.items() if v == name and type(v) is type(name)]
    try:
        o.media_kind = name
    except (ValueError, TypeError):
        need(not known, 'media kind %r is refused', name)
        need(o.media_kind_id == code, 'a refused media kind %r changed the code', name)
        return True
    if known:
        need(o.media_kind_id == known[0], 'media kind %r is stored as %r', name, o.media_kind_id)
        return False
    # accepted although it has no code of its own: it must at least read back as itself
    need(o.media_kind == name, 'media kind %r became %r', name, o.media_kind)
    return True


# ------------------------------------------------------------ parameters
def param_ids(ctx, case):
    which, i, flip, form = case
    ids = sorted(PARAMS)
    k = ids[i % len(ids)]
    u = uuid.UUID(k)
    if which == 'near':
        u = uuid.UUID(int=u.int ^ (1 << flip))
    elif which == 'random':
        u = uuid.UUID(int=(i * 0x9E3779B97F4A7C15F39CC0605CEDC835 + flip) % (1 << 128))
    elif which == 'swapped':
        u = uuid.UUID(bytes_le=u.bytes)
    o = make('ParameterItem')
    o.uuid = u
    exp = PARAMS.get(str(u), str(u))
    need(o.parameter_name == exp, 'parameter %s is named %r, expected %r', u, o.parameter_name, exp)
    if form:
        m = L.full_model(b'PRIT')
        m['uuid'] = u.bytes
        doc = L.wrap([(b'PRIT', m)], order='little' if flip % 2 else 'big')
        g = C.open_bytes(R.encode_file(doc)[0])
        x = g.content.attributes['o0']
        need(x.parameter_name == exp, 'parameter %s read from a file is named %r, expected %r', u, x.parameter_name, exp)
    return str(u) not in PARAMS


param_cases = st.tuples(st.sampled_from(['known', 'near', 'near', 'random', 'swapped']), st.integers(0, 1 << 62), st.integers(0, 127), st.booleans())


# ------------------------------------------------------------ stored codes
stored_cases = st.tuples(
    st.lists(st.tuples(st.sampled_from(COMPONENTS), st.one_of(st.sampled_from(sorted(MEDIA)), st.integers(-2**15, 2**15 - 1))), min_size=1, max_size=4),
    st.tuples(st.one_of(st.sampled_from(sorted(USAGE)), ANY), st.sampled_from([1, 2, 3])),
    st.tuples(st.one_of(st.sampled_from(sorted(INTERP)), ANY), st.sampled_from([1, 2, 4]), st.one_of(st.sampled_from(sorted(POINT)), st.integers(-2**15, 2**15 - 1))),
    st.sampled_from(['little', 'big']), st.booleans())


def stored(ctx, case):
    """names seen in a file are those of the codes stored there, and set names are stored as their codes"""
    comps, (usage, mob), (interp, vt, ppc), order, by_name = case
    models = []
    for c, k in comps:
        m = L.full_model(c)
        m['media_kind_id'] = k
        models.append((c, m))
    m = L.full_model(b'CMPO')
    m['usage_code'], m['mob_type_id'] = usage, mob
    models.append((b'CMPO', m))
    m = L.full_model(b'PRCL', vt)
    m['interp_kind'] = interp
    m['control_points'][0]['pp'][0]['code'] = ppc
    models.append((b'PRCL', m))
    m = L.full_model(b'PRIT', vt)
    models.append((b'PRIT', m))
    doc = L.wrap(models, order=order)
    C.set_zone(0)
    f = C.open_bytes(R.encode_file(doc)[0])

    def check(f):
        a = f.content.attributes
        n = len(comps)
        for i, (c, k) in enumerate(comps):
            view(MEDIA, k, a['o%d' % i].media_kind, 'unknown%d' % k, 'stored media kind')
        view(USAGE, usage, a['o%d' % n].usage, 'unknown', 'stored usage')
        need(a['o%d' % n].mob_type == MOB[mob], 'stored mob type %d', mob)
        p = a['o%d' % (n + 1)]
        view(INTERP, interp, p.interp, 'unknown', 'stored interpolation')
        view(VALUE, vt, p.value_type_name, 'unknown', 'stored value type')
        view(POINT, ppc, p.control_points[0].pp[0].name, None, 'stored point property')
        need(p.control_points[0].pp[0].type_name == 'int' and p.control_points[0].pp[1].type_name == 'double', 'point property types')
        view(VALUE, vt, a['o%d' % (n + 2)].value_type_name, 'unknown', 'stored value type of an item')
    check(f)
    if by_name:
        for i, (c, k) in enumerate(comps):
            o = f.content.attributes['o%d' % i]
            if k in MEDIA:
                o.media_kind = MEDIA[(k + 1) % 8] if MEDIA.get((k + 1) % 8) else 'sound'
                o.media_kind = MEDIA[k]
    p = ctx.path('s.avb')
    f.write(p, order)
    data = C.read(p)
    os.remove(p)
    C.check_bytes(doc, data, order)
    check(C.open_bytes(data))
    return any(k not in MEDIA for c, k in comps) and any(k in MEDIA for c, k in comps)


# ------------------------------------------------------------ tracks
TVALS = {'index': st.integers(-2**15, 2**15 - 1), 'control_code': st.integers(-2**15, 2**15 - 1), 'control_sub_code': st.integers(-2**15, 2**15 - 1),
         'start_pos': st.integers(-2**31, 2**31 - 1), 'read_only': st.booleans(), 'lock_number': st.integers(-2**15, 2**15 - 1)}
REFS = {'attributes': 1, 'session_attr': 1, 'component': 2, 'filler_proxy': 3, 'bob_data': 4}


@st.composite
def track_cases(draw):
    tracks = []
    for i in range(draw(st.integers(1, 4))):
        mask = draw(st.integers(0, 1023))
        t = OrderedDict()
        for n, b in BITS.items():
            if mask >> b & 1:
                t[n] = draw(st.sampled_from([None, REFS[n], REFS[n]])) if n in REFS else draw(st.one_of(st.just(0), TVALS[n])) if n != 'read_only' else draw(st.booleans())
        t['lock_number'] = draw(TVALS['lock_number'])
        tracks.append(t)
    removed = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(sorted(BITS))), max_size=3))
    added = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from(sorted(BITS))), max_size=3))
    return draw(st.sampled_from(TRACKED)), tracks, removed, added, draw(st.sampled_from(['little', 'big'])), draw(st.sampled_from(['loaded', 'created']))


def flag_bits(t):
    return sum(1 << b for n, b in BITS.items() if n in t)


def parts():
    return [(b'ATTR', L.full_model(b'ATTR')), (b'SCLP', L.full_model(b'SCLP')), (b'FILL', L.full_model(b'FILL')),
            (b'PRLS', L.full_model(b'PRLS'))]


def track_doc(cid, tracks, order):
    m = L.full_model(cid)
    m['tracks'] = tracks
    models = parts()
    models[1][1]['media_kind_id'] = 2
    return L.wrap(models + [(cid, m)], order=order)


def tracks(ctx, case):
    cid, ts, removed, added, order, src = case
    ts = [OrderedDict(t) for t in ts]
    doc = track_doc(cid, ts, order)
    C.set_zone(0)
    if src == 'created':
        f, objs = B.build(doc)
        o, pool = objs[5], objs
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        o = f.read_object(refmap[5])
        pool = {k: f.read_object(refmap[k]) for k in range(1, 5)}

    def check(o, when):
        need(len(o.tracks) == len(ts), '%s: %d tracks', when, len(o.tracks))
        for i, t in enumerate(ts):
            x = o.tracks[i]
            need(x.flags == flag_bits(t), '%s: track %d with %s has flags 0x%x, expected 0x%x', when, i, sorted(t), x.flags, flag_bits(t))
            for n in BITS:
                need(hasattr(x, n) == (n in t), '%s: track %d: %s is %s', when, i, n, 'missing' if n in t else 'there')
            exp = MEDIA[2] if t.get('component') is not None else None
            need(x.media_kind == exp, '%s: track %d: media kind %r, expected %r', when, i, x.media_kind, exp)
    check(o, 'at first')
    for i, n in removed:
        i %= len(ts)
        if n in ts[i]:
            del o.tracks[i].property_data[n]
            del ts[i][n]
    for i, n in added:
        i %= len(ts)
        ts[i][n] = REFS[n] if n in REFS else True if n == 'read_only' else 3
        setattr(o.tracks[i], n, pool[REFS[n]] if n in REFS else ts[i][n])
    if removed or added:
        o.tracks = list(o.tracks)
    check(o, 'after edits')
    p = ctx.path('t.avb')
    f.write(p, order)
    data = C.read(p)
    os.remove(p)
    C.check_bytes(track_doc(cid, ts, order), data, order)
    g = C.open_bytes(data)
    check(g.content.attributes['o4'], 'after reload')
    # a track rebuilt from the fields its flags name
    h = g.content.attributes['o4']
    new = []
    for x in h.tracks:
        y = g.create.Track()
        for n, b in BITS.items():
            if x.flags >> b & 1:
                setattr(y, n, getattr(x, n))
        y.lock_number = x.lock_number
        need(y.flags == x.flags, 'rebuilt track: flags 0x%x, expected 0x%x', y.flags, x.flags)
        new.append(y)
    h.tracks = new
    g.write(p, order)
    data2 = C.read(p)
    os.remove(p)
    C.check_bytes(track_doc(cid, ts, order), data2, order)
    return any(2 <= len([n for n in t if n in BITS]) < 10 for t in ts)


def all_blocks():
    r = []
    for b in range(64):
        for n in ('media', 'value', 'itemvalue', 'pptype', 'ppcode'):
            r.append(('codes', (n, b, [], b)))
    r.append(('codes', ('mob', 32, [], 0)))
    for b in (31, 32, 33, 63):
        r += [('codes', ('usage', b, [], 0)), ('codes', ('interp', b, [], 0))]
    for i in range(len(COMPONENTS)):
        r.append(('codes', ('media', 32, [], i)))
    for i in range(len(PARAMS)):
        r.append(('parameters', ('known', i, 0, False)))
    for mask in range(1024):
        t = OrderedDict((n, (REFS[n] if n in REFS else True if n == 'read_only' else 1)) for n, b in BITS.items() if mask >> b & 1)
        t['lock_number'] = 0
        if mask % 4 == 0 or bin(mask).count('1') in (1, 2, 9):
            r.append(('tracks', (b'TKFX', [t], [], [], 'little', 'loaded')))
    return r


EXAMPLES = all_blocks()

SUBS = [
    Sub('codes', code_cases, codes, quick=300, thorough=4000),
    Sub('names', name_cases, names, quick=3000, thorough=40000),
    Sub('parameters', param_cases, param_ids, quick=3000, thorough=40000),
    Sub('stored', stored_cases, stored, quick=3000, thorough=40000),
    Sub('tracks', track_cases(), tracks, quick=3000, thorough=40000),
]
