"""Text survives saving in every text field."""
import os
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation

RULE = 'at least one text stored holds a character outside ASCII, a null, or more than 255 bytes'
ASSUMPTIONS = ['empty text and no text (None) are the same value',
               'text that starts or ends with a null character is not representable (the format strips them)',
               'Mac characters are those of Python\'s mac_roman codec',
               'a column format descriptor is at most 32765 bytes of UTF-8',
               'the header\'s product name is a fixed field of 30 bytes, not a text field']


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


PLACES = {}
for c in R.ALLKINDS:
    PLACES[c] = [(p, t) for p, t in L.leaves(c, L.full_model(c)) if isinstance(t, R.Str)]
KINDS = [c for c in R.ALLKINDS if PLACES[c]]
FORM = {}


def representable(t, s, fmtdesc):
    try:
        b = s.encode('utf-8') if t.utf8 else s.encode('mac_roman')
    except UnicodeError:
        return False
    return len(b) <= (32765 if fmtdesc else 65532) and s == s.strip('\0')


def texts(draw_big):
    mac = st.text(alphabet=st.sampled_from(G.MAC_CHARS), max_size=12)
    uni = st.text(alphabet=st.characters(exclude_categories=['Cs']), max_size=12)
    parts = st.tuples(
        st.one_of(st.just(''), mac, uni, st.sampled_from([
            'a\0b', 'x\0', '\0x', '\0', '\0\0', 'a\0\0b', u'e\u0301', u'\u00e9', u'\u20ac', u'\u03a9', u'\u2126', u'\uf8ff',
            u'\u00a0', u'\ufeffa', u'\ud800', u'\udcff', u'\U0001F3AC', u'\uffff', u'\u0131', u'\u2028', ' x ', '\r\n',
            '\t', '\x7f', '\x1a', '/', ':', u'\u00a4', u'\u00c0\u00c1'])),
        st.one_of(st.integers(1, 1), st.integers(1, 1), st.integers(1, 1),
                  st.sampled_from([16, 128, 255, 256, 1000, 8192] + ([16383, 32767, 32768, 65531] if draw_big else []))),
        st.one_of(st.just(''), st.text(alphabet=st.sampled_from(G.MAC_CHARS), max_size=3)))
    limits = st.tuples(st.sampled_from(['a', u'\u00e9', u'\u65e5', u'\U0001F3AC']),
                       st.sampled_from([65528, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000, 131072]))
    r = parts.map(lambda t: t[0] * t[1] + t[2])
    if draw_big:
        return st.one_of(r, r, r, r, r, limits.map(lambda t: sized(*t)))
    return r


def sized(ch, n):
    """text of about n bytes in UTF-8"""
    k = len(ch.encode('utf-8'))
    return ch * (n // k) + 'z' * (n % k)


@st.composite
def cases(draw, big=False, most=6):
    c = draw(st.sampled_from(KINDS))
    n = len(PLACES[c])
    if draw(st.integers(0, 3)) == 0 and n < 12:
        idx = list(range(n))
    else:
        idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=most, unique=True))
    tx = texts(big)
    vals = [(i, draw(tx)) for i in idx]
    return c, vals, draw(st.sampled_from(['little', 'big'])), draw(st.sampled_from(['create', 'edit'])), \
        draw(st.sampled_from(['little', 'big']))


def run(ctx, case):
    c, vals, order, how, src = case
    m = L.full_model(c)
    if c in (b'ABIN', b'BINF'):
        doc = L.wrap([], src, root=(c, m))
        k = doc.root
    else:
        doc = L.wrap([(c, m)], src)
        k = 1
    if how == 'create':
        f, objs = B.build(doc)
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        objs = {x: f.read_object(refmap[x]) for x in doc.objs}
    names = set(e[0] for e in m['entries']) if c == b'ATTR' else None
    ok = True
    wide = False
    for i, s in vals:
        p, t = PLACES[c][i]
        if names is not None and p[2] == 0:
            if s in names:
                continue
            names.add(s)
            e = m['entries'].pop(p[1])      # renaming an attribute moves it to the end
            name = e[0]
            objs[k].pop(name)
            e[0] = s
            m['entries'].append(e)
            objs[k][s] = {1: 0, 2: '', 4: bytearray(), 3: None}[e[1]] if e[1] != 2 else e[2]
            ctx.label('attribute name')
        elif names is not None:
            e = [x for x in m['entries'] if x[1] == 2][0]
            objs[k][e[0]] = s
            e[2] = s
        else:
            L.lib_put(objs[k], c, m, p, s)
            L.put(m, p, (s or None) if t.none else s)
        good = representable(t, s, p[0] == 'format_descriptors')
        ok = ok and good
        ctx.label('utf8' if t.utf8 else 'mac', 'representable' if good else 'not representable')
        try:
            b = s.encode('utf-8')
            wide = wide or len(b) > 255 or len(b) > len(s) or '\0' in s
        except UnicodeError:
            wide = True
    out = ctx.path('t.avb')
    try:
        try:
            f.write(out, order)
        except Exception as e:
            if ok:
                raise
            need(not os.path.exists(out), 'a refused save left a file behind')
            # correcting the text makes the document savable
            ctx.label('refused')
            return wide
        data = C.read(out)
        C.check_bytes(doc, data, order)
        B.match_docs(doc, B.snapshot(C.open_bytes(data)))
    finally:
        f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return wide


def many(ctx, case):
    """each of many short texts in one place, an object for every text"""
    c, i, strings, order = case
    p, t = PLACES[c][i]
    models = []
    for s in strings:
        m = L.full_model(c)
        L.put(m, p, (s or None) if t.none else s)
        models.append((c, m))
    C.set_zone(0)
    doc = L.wrap(models, order)
    f, objs = B.build(doc)
    out = ctx.path('m.avb')
    try:
        f.write(out, order)
        data = C.read(out)
        C.check_bytes(doc, data, order)
        B.match_docs(doc, B.snapshot(C.open_bytes(data)))
        B.match_docs(doc, B.snapshot(C.open_bytes(R.encode_file(doc)[0])))
    finally:
        f.close()
        if os.path.exists(out):
            os.remove(out)
    return any(ord(x) > 127 for s in strings for x in s)


mac1 = st.sampled_from([x for x in G.MAC_CHARS if x != '\0'])
edge1 = st.sampled_from([' ', ' ', '\t', '\n', '\r', '\x1f', '\x7f', '-', '.', u'\u00a0', u'\u00e9', '0'])
short = st.one_of(mac1, edge1, st.tuples(mac1, edge1).map(''.join), st.tuples(edge1, mac1).map(''.join),
                  st.text(edge1, max_size=4), st.text(mac1, max_size=5))
MANY = [(c, i) for c in KINDS for i in range(len(PLACES[c])) if c not in (b'ABIN', b'BINF', b'ATTR')]
manys = st.tuples(st.sampled_from(MANY), st.lists(short, min_size=1, max_size=60), st.sampled_from(['little', 'big'])).map(
    lambda x: (x[0][0], x[0][1], x[1], x[2]))

SUBS = [
    Sub('many', manys, many, quick=500, thorough=8000),
    Sub('texts', cases(), run, quick=6000),
    Sub('long_texts', cases(big=True, most=2), run, quick=2500),
]
# every text field in turn with every kind of text
ALL = [''.join(chr(i) for i in range(1, 128)), G.MAC_CHARS, u'caf\u00e9', u'\u65e5\u672c', u'\u0301', 'x' * 32768, 'a\0b']
EXAMPLES = [('texts', (c, [(i, s)], o, 'create', 'little')) for c in KINDS for i in range(min(len(PLACES[c]), 4))
            for s, o in [(ALL[(i + j) % len(ALL)], 'big' if j & 1 else 'little') for j in range(7)]]
# every single character in every field
EXAMPLES += [('many', (c, i, [''] + [x for x in G.MAC_CHARS if x != '\0'] + ['  ', ' a', 'a ', ' a ', '\ta\t'], 'little' if i & 1 else 'big'))
             for c, i in MANY]
