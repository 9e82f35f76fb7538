"""New objects and documents start from independent, correct defaults."""
import datetime
import io
import json
import os
import uuid
from hypothesis import strategies as st
import avb
import avb.mobid
import avb.core
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
import fresh
import c14
from runner import Sub, Violation, HarnessError

RULE = 'at least one object is created after an object (or document) of the same class was edited in place'
ASSUMPTIONS = [
    'the documented defaults are those of lib/defaults.json: recorded once from the class definitions, reviewed, and '
    'never rewritten by a check; a new class not listed there is not judged',
    'each case runs in a process of its own, so that nothing left by an earlier case is seen',
    'edits do not link one created object into another (that makes the first part of the second)',
]

GOLD = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'defaults.json')))
NAMES = sorted(GOLD)
KINDNAMES = {None: 0, 'picture': 1, 'sound': 2, 'timecode': 3, 'edgecode': 4, 'attribute': 5, 'effectdata': 6,
             'DescriptiveMetadata': 7, 'DataEssenceTrack': 16}
COMPONENTS = sorted(n for n in NAMES if 'media_kind_id' in GOLD[n].get('fields', {}) and n != 'Composition')
MOBTYPES = {'CompositionMob': 1, 'MasterMob': 2, 'SourceMob': 3}


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


RATES = [0, 1, 24, 25, 30, 23.976, 29.97, 59.94, 48000, 0.04]


@st.composite
def creations(draw):
    name = draw(st.one_of(st.sampled_from(NAMES), st.sampled_from(COMPONENTS + ['Composition']),
                          st.sampled_from(['Bin', 'BinViewSetting', 'Composition', 'SourceClip', 'CDCIDescriptor',
                                           'RGBADescriptor', 'JPEGDescriptor', 'AudioSuitePluginEffect', 'MPGIDescriptor'])))
    pos, kw = [], {}
    if name == 'Composition':
        form = draw(st.integers(0, 4))
        n = draw(st.sampled_from(['', 'a', 'Some Name', u'\u00e9', 'Mob', 'x' * 300]))
        m = draw(st.sampled_from(sorted(MOBTYPES)))
        if form in (1, 3):
            kw['name'] = n
        if form in (2, 3):
            kw['mob_type'] = m
        if form == 4:
            pos = [n, m][:draw(st.integers(1, 2))]
    elif name in COMPONENTS:
        form = draw(st.integers(0, 4))
        r, k = draw(st.sampled_from(RATES)), draw(st.sampled_from(sorted(KINDNAMES, key=str)))
        if form in (1, 3):
            kw['edit_rate'] = r
        if form in (2, 3):
            kw['media_kind'] = k
        if form == 4:
            pos = [r, k][:draw(st.integers(1, 2))]
    how = draw(st.sampled_from(['attr', 'attr', 'name', 'saved', 'inner']))
    return ('new', draw(st.integers(0, 7)), name, pos, kw, how)


VALUES = [0, 1, -1, 7, 1 << 30, 3.5, '', 'zz', u'\u00e9', True, False, None, b'abcd']


def edits():
    return st.tuples(st.just('edit'), st.integers(0, 31), st.integers(0, 63), st.integers(0, 63),
                     st.sampled_from(['a', 'b', 'c', 'd']), st.integers(0, len(VALUES) - 1))


def steps():
    return st.one_of(creations(), edits(), edits(), edits(), edits(),
                     st.tuples(st.just('doc'), st.sampled_from(['empty', 'empty', 'empty', 'loaded'])),
                     st.tuples(st.just('wreck'), st.integers(0, 31)),
                     st.tuples(st.just('save'), st.integers(0, 7), st.sampled_from(['little', 'big'])))


def histories(n):
    return st.lists(steps(), min_size=2, max_size=n)


def plan_doc():
    return L.wrap([(b'SEQU', L.full_model(b'SEQU')), (b'ATTR', L.full_model(b'ATTR')), (b'CMPO', L.full_model(b'CMPO')),
                   (b'CDCI', L.full_model(b'CDCI'))])


FILE = []


def expect(name, pos, kw):
    g = json.loads(json.dumps(GOLD[name]))
    if name == 'Composition':
        a = dict(zip(['name', 'mob_type'], pos), **kw)
        if 'name' in a:
            g['fields']['name'] = a['name']
        if 'mob_type' in a:
            g['fields']['mob_type_id'] = MOBTYPES[a['mob_type']]
    elif name in COMPONENTS:
        a = dict(zip(['edit_rate', 'media_kind'], pos), **kw)
        if 'edit_rate' in a:
            g['fields']['edit_rate'] = a['edit_rate']
        if 'media_kind' in a:
            g['fields']['media_kind_id'] = KINDNAMES[a['media_kind']]
    return g


def strict_eq(a, b):
    if type(a) is not type(b):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and \
            not isinstance(b, bool) and a == b
    if isinstance(a, dict):
        return set(a) == set(b) and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    return a == b


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b or not strict_eq(a[k], b[k]):
                return diff(a.get(k, '<absent>'), b.get(k, '<absent>'), path + '/' + k)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i in range(len(a)):
            if not strict_eq(a[i], b[i]):
                return diff(a[i], b[i], path + '/%d' % i)
    return '%s: expected %s, got %s' % (path, str(a)[:200], str(b)[:200])


class Unit(object):
    """one creation: the object, or a document's whole content, and what it should look like now"""
    def __init__(self, what, obj, doc):
        self.what, self.obj, self.doc = what, obj, doc
        self.note()

    def parts(self):
        return c14.parts([self.obj])

    def note(self):
        self.seen = fresh.describe(self.obj, raw=True)


def subobjects(unit):
    return [o for o in unit.parts().values() if getattr(o, 'class_id', None)]


def mutate(o, a, b, val):
    """change one thing inside a changeable part; False if there is nothing to change"""
    if isinstance(o, avb.mobid.MobID):
        if a % 3 == 0:
            o.material = uuid.UUID(int=b + 1)
        elif a % 3 == 1:
            o.bytes_le[b % 32] ^= 0xff
        else:
            o.int = 0xdeadbeef + b
        return True
    if isinstance(o, bytearray):
        o.append(b)
        return True
    if isinstance(o, list):
        if hasattr(o, 'root'):
            val = None          # lists of references hold objects or nothing
        if a % 5 == 0 and o:
            o.pop()
        elif a % 5 == 1 and o and not hasattr(o[b % len(o)], 'property_data'):
            if isinstance(o[b % len(o)], (dict, list)):
                return mutate(o[b % len(o)], a // 5, b, val)
            o[b % len(o)] = val
        elif a % 5 == 2 and o:
            o.reverse()
        elif a % 5 == 3:
            del o[:]
        else:
            o.append(val)
        return True
    if isinstance(o, dict):
        keys = sorted(o)
        if a % 3 == 0 and keys:
            o[keys[b % len(keys)]] = val
        elif a % 3 == 1 and keys:
            del o[keys[b % len(keys)]]
        else:
            o['new%d' % b] = val
        return True
    names = sorted(n for n in set(list(o.property_data) + [p.name for p in o.propertydefs]))
    if not names:
        return False
    n = names[b % len(names)]
    if hasattr(getattr(o, n, None), 'property_data') or isinstance(getattr(o, n, None), list) and \
            any(hasattr(x, 'property_data') for x in getattr(o, n)):
        if a % 2:
            return False        # mostly keep the sub-objects: they are worth editing too
    setattr(o, n, val)
    return True


def alias(o):
    """a changeable part of a new object that it holds in two places"""
    seen = {}

    def walk(v, path):
        if isinstance(v, c14.PARTS) or hasattr(v, 'property_data'):
            if id(v) in seen:
                raise Violation('new object: %s and %s are the same %s' % (seen[id(v)], path, type(v).__name__))
            seen[id(v)] = path
        if isinstance(v, dict):
            for k, x in v.items():
                walk(x, '%s/%s' % (path, k))
        elif isinstance(v, (list, tuple)):
            for i, x in enumerate(v):
                walk(x, '%s/%d' % (path, i))
        elif hasattr(v, 'property_data'):
            for n in list(v.property_data):
                walk(getattr(v, n), '%s.%s' % (path, n))
    walk(o, type(o).__name__)


def history(ctx, ops):
    C.set_zone(0)
    if not FILE:
        FILE.append(R.encode_file(plan_doc())[0])
    docs, units = [], []
    ids = {}
    mobs, uids = {}, {}
    edited = set()
    interesting = False

    def owned(doc, o):
        need(o.root is doc, '%s created in one document belongs to another', type(o).__name__)
        key = (id(doc), o.instance_id)
        need(key not in ids or ids[key] is o, 'two objects have the id %r', o.instance_id)
        ids[key] = o
        need(doc.read_object(o.instance_id) is o, 'the id of a new %s leads to %r', type(o).__name__,
             type(doc.read_object(o.instance_id)).__name__)

    def unique(unit):
        for o in unit.parts().values():
            if isinstance(o, avb.mobid.MobID) and any(bytes(o.bytes_le)):
                need(bytes(o.bytes_le) not in mobs, 'two new mobs have the same id')
                mobs[bytes(o.bytes_le)] = o
            if hasattr(o, 'uid'):
                need(o.uid not in uids, 'two new bins have the same uid')
                uids[o.uid] = o

    def separate(unit):
        p = unit.parts()
        for u in units:
            if u is not unit:
                common = set(p) & set(u.parts())
                need(not common, 'a new %s shares a %s with a %s', unit.what,
                     type(p[next(iter(common))]).__name__ if common else '', u.what)

    def others(unit, what):
        for u in units:
            if u is not unit:
                now = fresh.describe(u.obj, raw=True)
                need(strict_eq(u.seen, now), '%s changed a %s: %s', what, u.what, diff(u.seen, now) if u.seen != now else '')

    def new_doc(kind):
        t0 = datetime.datetime.now()
        if kind == 'loaded':
            doc = avb.open(io.BytesIO(FILE[0]))
            docs.append(doc)
            exp = [k for k in range(1, len(doc.object_positions))]
            for k in exp:
                ids[(id(doc), k)] = doc.read_object(k)
            units.append(Unit('loaded', [doc.read_object(k) for k in exp], doc))
            return
        doc = avb.open()
        t1 = datetime.datetime.now()
        docs.append(doc)
        got = fresh.describe(doc.content, (t0, t1))
        need(strict_eq(GOLD['Bin'], got), 'new document: %s', diff(GOLD['Bin'], got))
        need(t0 <= doc.last_save <= t1, 'new document: saved at %s', doc.last_save)
        need(doc.creator_version == 'pyavb 0.1.0', 'new document: made by %r', doc.creator_version)
        u = Unit('document', doc.content, doc)
        units.append(u)
        after(u, 'a new document')

    def after(u, what):
        for o in subobjects(u):
            owned(u.doc, o)
        alias(u.obj)
        unique(u)
        separate(u)
        others(u, what)

    def new(doc, name, pos, kw, how):
        t0 = datetime.datetime.now()
        if how == 'name':
            o = doc.create.from_name(name, *pos, **kw)
        elif how == 'saved':
            mk = getattr(doc.create, name)
            doc.create.Attributes()
            o = mk(*pos, **kw)
        elif how == 'inner':
            o = getattr(doc.create, name)(*[doc.create.ParameterList() and None or x for x in pos],
                                          **{k: (doc.create.Track(), v)[1] for k, v in kw.items()})
        else:
            o = getattr(doc.create, name)(*pos, **kw)
        t1 = datetime.datetime.now()
        got = fresh.describe(o, (t0, t1))
        exp = expect(name, pos, kw)
        need(strict_eq(exp, got), 'new %s: %s', name, diff(exp, got))
        u = Unit(name, o, doc)
        units.append(u)
        after(u, 'creating a %s' % name)

    new_doc('empty')
    for op in ops:
        if op[0] == 'doc':
            if len(docs) < 5:
                if 'document' in edited or 'Bin' in edited:
                    interesting = True
                new_doc(op[1])
        elif op[0] == 'new':
            doc = docs[op[1] % len(docs)]
            new(doc, *op[2:])
            interesting = interesting or op[2] in edited
        elif op[0] in ('edit', 'wreck'):
            u = units[op[1] % len(units)]
            p = [o for o in u.parts().values()]
            if op[0] == 'edit':
                if not mutate_any(p, op[2], op[3], 'abcd'.index(op[4]), VALUES[op[5]]):
                    continue
            else:
                for i, o in enumerate(p):
                    mutate(o, i, i * 7 + op[1], VALUES[i % len(VALUES)])
            ctx.label('edit')
            edited.add(u.what)
            others(u, 'editing a %s' % u.what)
            u.note()
        elif op[0] == 'save':
            u = units[0]
            k = op[1] % len(docs)
            us = [x for x in units if x.doc is docs[k] and x.what == 'document']
            if us and us[0].what not in edited:
                saved_empty(ctx, docs[k], op[2])
                for x in units:
                    now = fresh.describe(x.obj, raw=True)
                    need(strict_eq(x.seen, now), 'saving changed a %s: %s', x.what, diff(x.seen, now))
    # the defaults themselves: everything created once more
    d = avb.open()
    got = fresh.describe(d.content)
    need(strict_eq(GOLD['Bin'], got), 'new document at the end: %s', diff(GOLD['Bin'], got))
    seen = {u.what for u in units}
    for name in NAMES:
        got = fresh.describe(d.create.from_name(name))
        need(strict_eq(GOLD[name], got), 'new %s at the end: %s', name, diff(GOLD[name], got))
    for u in units:
        now = fresh.describe(u.obj, raw=True)
        need(strict_eq(u.seen, now), 'creating objects changed a %s', u.what)
    return interesting


def mutate_any(p, i, a, b, val):
    return bool(p) and mutate(p[i % len(p)], a + b, i // len(p) + a, val)


def saved_empty(ctx, doc, order):
    """an empty document saves to a bin holding just the defaults"""
    path = ctx.path('new.avb')
    doc.write(path, order)
    got = R.decode_file(C.read(path))
    os.remove(path)
    cid, m = got.objs[got.root]
    g = GOLD['Bin']['fields']
    need(cid == b'ABIN', 'a new document saves a %r', cid)
    for n in ('display_mask', 'display_mode', 'sifted', 'mac_font', 'mac_font_size', 'mac_image_scale', 'ql_image_scale',
              'was_iconic', 'large_bin'):
        need(m[n] == g[n], 'a new document saves %s %r', n, m[n])
    for n in ('home_rect', 'background_color', 'forground_color'):
        need(list(m[n]) == g[n]['list'], 'a new document saves %s %r', n, m[n])
    need(m['items'] == [] and m['sort_columns'] == [], 'a new document is not saved empty')
    need(m['uid'] == doc.content.uid, 'a new document saves another uid')
    need([(s['method'], s['string'], s['column']) for s in m['sifted_settings']] == [(1, '', 'Any')] * 6, 'sift settings')
    vcid, v = got.objs[m['view_setting']]
    cols = [x['dict'] for x in GOLD['BinViewSetting']['fields']['columns']['list']]
    need([dict(c) for c in v['columns']] == cols, 'a new document saves the columns %r', v['columns'])
    need(len(got.objs) == 4, 'a new document saves %d objects', len(got.objs))


SUBS = [
    Sub('history', histories(14), history, quick=5000, thorough=60000, cold=True),
]


def every():
    """each class: create, wreck it, create again"""
    r = []
    for n in NAMES:
        r.append(('history', [('new', 0, n, [], {}, 'attr'), ('wreck', 1), ('new', 0, n, [], {}, 'inner'),
                              ('edit', 1, 0, 4, 'a', 3), ('edit', 1, 1, 4, 'a', 3), ('edit', 1, 2, 3, 'a', 3),
                              ('edit', 1, 3, 3, 'b', 3), ('doc', 'empty'), ('new', 1, n, [], {}, 'saved'),
                              ('save', 0, 'little'), ('save', 1, 'big'), ('wreck', 0), ('doc', 'empty')]))
    return r


EXAMPLES = every()
