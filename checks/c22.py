"""Bin queries reflect the bin's current items; source clips resolve accordingly."""
import copy
import gc
import os
import uuid
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.mobid
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'a lookup found a mob both before and after an edit that changed which mobs the bin holds or what they are called'
ASSUMPTIONS = [
    'when several mobs of the bin have the identifier, or several tracks match, any of them is right',
    'the all-zero identifier names no mob: it is not used for a mob of the bin',
    'listings are judged while every item has a mob of one of the three known types',
]


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


NIDS = 6
TYPES = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}


def ident(i):
    """identifier number i: several differ in one byte only"""
    if i < 0:
        return bytes(32)
    b = bytearray(range(1, 33))
    if i == 0:
        b[31] ^= 0x80
    elif i == 1:
        b[i] ^= 1
    elif i == 2:
        b[12:16] = bytes(4)
    elif i == 3:
        b[:12] = bytes(12)
    elif i == 4:
        b[16:] = bytes(16)
    else:
        b = bytearray(32)
        b[31] = 1
    return bytes(b)


def mob_id(i):
    return avb.mobid.MobID(bytes_le=ident(i))


KINDS = [0, 1, 2, 3, 16, 9]
track = st.tuples(st.one_of(st.none(), st.integers(-1, 3), st.integers(1, 2), st.just(1)),
                  st.one_of(st.none(), st.just('absent'), st.sampled_from(KINDS), st.sampled_from([1, 2]), st.just(1)))
mob = st.fixed_dictionaries(dict(id=st.one_of(st.none(), st.integers(0, NIDS - 1), st.integers(0, NIDS - 1), st.integers(0, NIDS - 1)),
                                 type=st.sampled_from([1, 2, 3]), usage=st.sampled_from([0, 0, 0, 1, 2, 7, -1]),
                                 tracks=st.lists(track, max_size=3)))
clip = st.fixed_dictionaries(dict(id=st.one_of(st.none(), st.integers(-1, NIDS - 1), st.integers(0, NIDS - 1)),
                                  track=st.one_of(st.integers(-1, 3), st.just(1)), kind=st.one_of(st.sampled_from(KINDS), st.just(1))))

I = st.integers(0, 15)
J = st.just
T = st.tuples
op = st.one_of(
    T(J('find'), st.integers(0, NIDS - 1)), T(J('find'), st.integers(0, NIDS - 1)), T(J('findall')), T(J('findall')), T(J('list')), T(J('clips')),
    T(J('add_mob'), I), T(J('add_new'), st.integers(0, NIDS - 1), st.sampled_from([1, 2, 3])),
    T(J('append'), I), T(J('insert'), I, I), T(J('del'), I), T(J('del'), I), T(J('pop')), T(J('clear')), T(J('reverse')), T(J('newlist'), I),
    T(J('itemmob'), I, st.one_of(I, I, I, st.none())), T(J('swap'), I, I),
    T(J('id'), I, st.integers(0, NIDS - 1)), T(J('idinplace'), I, st.integers(0, NIDS - 1)), T(J('idswap'), I, I),
    T(J('type'), I, st.sampled_from([1, 2, 3])), T(J('usage'), I, st.sampled_from([0, 1, 2])),
    T(J('trackindex'), I, I, st.integers(-1, 3)), T(J('trackkind'), I, I, st.sampled_from(KINDS)), T(J('trackdel'), I, I),
    T(J('trackcomp'), I, I), T(J('clipid'), I, st.integers(-1, NIDS - 1)), T(J('cliptrack'), I, st.integers(-1, 3)),
    T(J('clipkind'), I, st.sampled_from(KINDS)), T(J('drop')))

cases = st.tuples(st.lists(mob, min_size=1, max_size=6), st.lists(st.one_of(I, I, I, I, st.none()), max_size=7),
                  st.lists(clip, min_size=1, max_size=3), st.lists(op, min_size=1, max_size=14),
                  st.sampled_from(['loaded', 'loaded', 'created']), st.sampled_from([b'ABIN', b'BINF']), st.booleans(),
                  st.sampled_from(['none', 'start', 'start', 'all']))


def make(mobs, items, clips, root, src):
    models = []
    mk = []
    for m in mobs:
        tr = []
        for idx, kind in m['tracks']:
            t = OrderedDict()
            if idx is not None:
                t['index'] = idx
            if kind != 'absent':
                if kind is None:
                    t['component'] = None
                else:
                    c = L.full_model(b'FILL')
                    c['media_kind_id'] = kind
                    models.append((b'FILL', c))
                    t['component'] = len(models)
            t['lock_number'] = 0
            tr.append(t)
        c = L.full_model(b'CMPO')
        c['tracks'], c['mob_type_id'], c['usage_code'] = tr, m['type'], m['usage']
        if m['id'] is None and src == 'loaded':
            del c['mob_id']
        else:
            c['mob_id'] = ident(m['id'] or 0)
        models.append((b'CMPO', c))
        mk.append(len(models))
    ck = []
    for x in clips:
        c = L.full_model(b'SCLP')
        c['track_id'], c['media_kind_id'] = x['track'], x['kind']
        if x['id'] is None and src == 'loaded':
            del c['mob_id']
        else:
            c['mob_id'] = ident(x['id'] or 0)
        models.append((b'SCLP', c))
        ck.append(len(models))
    b = L.full_model(root)
    b['items'] = [OrderedDict([('mob', None if i is None else mk[i % len(mk)]), ('x', n), ('y', -n), ('keyframe', n), ('user_placed', True)])
                  for n, i in enumerate(items)]
    return L.wrap(models, root=(root, b)), mk, ck


class World(object):
    """library objects, looked up again whenever none is held"""

    def __init__(self, f, find, mk, ck):
        self.f, self.find, self.mk, self.ck = f, find, mk, ck
        self.new = []

    def mob(self, i):
        n = len(self.mk) + len(self.new)
        i %= n
        return self.find(self.mk[i]) if i < len(self.mk) else self.new[i - len(self.mk)]

    def mobs(self):
        return [self.mob(i) for i in range(len(self.mk) + len(self.new))]

    def clip(self, i):
        return self.find(self.ck[i % len(self.ck)])


def expect_find(b, i):
    want = ident(i)
    return [it.mob for it in b.items if it.mob is not None and hasattr(it.mob, 'mob_id') and bytes(it.mob.mob_id.bytes_le) == want]


def among(x, xs):
    return x is None if not xs else any(x is y for y in xs)


def check_find(b, i, when):
    exp = expect_find(b, i)
    key = mob_id(i)
    got = b.find_by_mob_id(key)
    need(among(got, exp), '%s: looking up id %d gives %r, the items hold %r', when, i, got, exp)
    need(bytes(key.bytes_le) == ident(i), '%s: the lookup changed its argument', when)
    return bool(exp)


def check_list(b, when):
    mobs = [it.mob for it in b.items]
    need(same(list(b.mobs), mobs), '%s: mobs are %r, the items hold %r', when, list(b.mobs), mobs)
    mobs = [m for m in mobs if m is not None]
    need(same(list(b.compositionmobs()), [m for m in mobs if m.mob_type_id == 1]), '%s: composition mobs', when)
    need(same(list(b.mastermobs()), [m for m in mobs if m.mob_type_id == 2]), '%s: master mobs', when)
    need(same(list(b.toplevel()), [m for m in mobs if m.mob_type_id == 1 and m.usage_code == 0]), '%s: top level mobs', when)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check_clip(b, c, when):
    if hasattr(c, 'mob_id'):
        want = bytes(c.mob_id.bytes_le)
        exp = [it.mob for it in b.items if it.mob is not None and hasattr(it.mob, 'mob_id') and bytes(it.mob.mob_id.bytes_le) == want]
    else:
        exp = []
    m = c.mob
    need(among(m, exp), '%s: the mob of a clip is %r, expected one of %r', when, m, exp)
    hits = []
    for x in exp:
        for t in x.tracks:
            d = t.property_data
            if d.get('index', None) == c.track_id and d.get('component', None) is not None and \
                    t.component.media_kind_id == c.media_kind_id:
                hits.append((x, t))
    t = c.track
    if len({id(x) for x in exp}) < 2:
        need(among(t, [h[1] for h in hits]), '%s: the track of a clip is %r, expected one of %r', when, t, hits)
    else:
        need(t is None or any(t is h[1] for h in hits), '%s: the track of a clip is %r, expected one of %r', when, t, hits)
    return t is not None


def queries(ctx, case):
    mobs, items, clips, ops, src, root, hold, watch = case
    doc, mk, ck = make(mobs, items, clips, root, src)
    C.set_zone(0)
    if src == 'created':
        f, objs = B.build(doc)
        find = objs.__getitem__
    else:
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)

        def find(k):
            return f.read_object(refmap[k])
    w = World(f, find, mk, ck)
    b = f.content
    keep = w.mobs() + [w.clip(i) for i in range(len(ck))] if hold else None
    found = edited = after = False
    steps = []
    if watch != 'none':
        steps = [('findall',)]
    for o in ops:
        steps.append(o)
        if watch == 'all':
            steps += [('findall',), ('list',), ('clips',)]
    for n, o in enumerate(steps):
        when = 'step %d %r' % (n, o)
        k = o[0]
        m = None
        if k == 'find':
            r = check_find(b, o[1], when)
            if r and edited and found:
                after = True
            found = found or r
            continue
        if k == 'findall':
            rs = [check_find(b, i, when) for i in range(NIDS)]
            if any(rs) and edited and found:
                after = True
            found = found or any(rs)
            continue
        if k == 'list':
            check_list(b, when)
            continue
        if k == 'clips':
            for i in range(len(ck)):
                check_clip(b, w.clip(i), when)
            continue
        if k == 'drop':
            gc.collect() if hold else None
            continue
        ni = len(b.items)
        edited = edited or found
        if k == 'add_mob':
            m = w.mob(o[1])
            it = b.add_mob(m)
            need(len(b.items) == ni + 1 and b.items[-1] is it and it.mob is m, '%s: not added', when)
            it.x = it.y = it.keyframe = 0
            it.user_placed = False
        elif k == 'add_new':
            m = f.create.Composition(mob_type=TYPES[o[2]])
            m.mob_id = mob_id(o[1])
            w.new.append(m)
            b.add_mob(m)
        elif k in ('append', 'insert'):
            it = f.create.BinItem()
            it.mob = w.mob(o[-1])
            b.items.append(it) if k == 'append' else b.items.insert(o[1] % (ni + 1), it)
        elif k == 'clear':
            del b.items[:]
        elif k == 'reverse':
            b.items.reverse()
        elif k == 'newlist':
            its = list(b.items)
            b.items = its[o[1] % (ni + 1):] + its[:o[1] % (ni + 1)] if o[1] % 2 else its[:o[1]]
        elif k == 'pop':
            if ni:
                b.items.pop()
        elif k == 'del':
            if ni:
                del b.items[o[1] % ni]
        elif k == 'itemmob':
            if ni:
                b.items[o[1] % ni].mob = None if o[2] is None else w.mob(o[2])
                b.items = b.items
        elif k == 'swap':
            if ni:
                i, j = o[1] % ni, o[2] % ni
                b.items[i], b.items[j] = b.items[j], b.items[i]
        elif k in ('id', 'idinplace', 'idswap'):
            m = w.mob(o[1])
            if k == 'id':
                m.mob_id = mob_id(o[2])
            elif k == 'idinplace':
                if hasattr(m, 'mob_id'):
                    m.mob_id.bytes_le[:] = ident(o[2])
                    m.mob_id = m.mob_id
            else:
                m2 = w.mob(o[2])
                if hasattr(m, 'mob_id') and hasattr(m2, 'mob_id'):
                    m.mob_id, m2.mob_id = m2.mob_id, m.mob_id
        elif k == 'type':
            m = w.mob(o[1])
            m.mob_type_id = o[2]
        elif k == 'usage':
            m = w.mob(o[1])
            m.usage_code = o[2]
        elif k in ('trackindex', 'trackkind', 'trackdel', 'trackcomp'):
            m = w.mob(o[1])
            if len(m.tracks):
                t = m.tracks[o[2] % len(m.tracks)]
                if k == 'trackindex':
                    t.index = o[3]
                elif k == 'trackkind':
                    c = getattr(t, 'component', None)
                    if c is not None:
                        c.media_kind_id = o[3]
                elif k == 'trackdel':
                    del m.tracks[o[2] % len(m.tracks)]
                else:
                    t.component = None
                m.tracks = m.tracks
        else:
            c = w.clip(o[1])
            if k == 'clipid':
                c.mob_id = mob_id(o[2])
            elif k == 'cliptrack':
                c.track_id = o[2]
            else:
                c.media_kind_id = o[2]
        m = c = it = t = m2 = None
    for i in range(NIDS):
        after = check_find(b, i, 'at the end') and edited and found or after
    check_list(b, 'at the end')
    for i in range(len(ck)):
        if check_clip(b, w.clip(i), 'at the end'):
            ctx.label('clip resolved')
    if all(hasattr(x, 'mob_id') for x in w.mobs() + [w.clip(i) for i in range(len(ck))]) and not w.new:
        p = ctx.path('q.avb')
        f.write(p, 'little')
        g = C.open_bytes(C.read(p))
        os.remove(p)
        for i in range(NIDS):
            need(len(expect_find(g.content, i)) == len(expect_find(b, i)), 'after reload: id %d', i)
            check_find(g.content, i, 'after reload')
        check_list(g.content, 'after reload')
        for i in range(len(ck)):
            check_clip(g.content, g.content.attributes['o%d' % (ck[i] - 1)], 'after reload')
    return after


SUBS = [Sub('queries', cases, queries, quick=10000, thorough=150000)]
