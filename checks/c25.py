"""Bins of any size keep every item."""
import os
import struct
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.mobid
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the bin holds at least 32768 items, or the number of items crosses 65535 during the case'
ASSUMPTIONS = ['at most 140000 items, and at most 66100 different mobs, per case',
               'a bin loaded in the large layout stays in it when saved again']
BUDGET = {'quick': 400, 'thorough': 3000}


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


EDGE = [0, 1, 2, 255, 256, 257, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 65791, 65792, 70000, 98304,
        131070, 131071, 131072, 131073]


def ident(i):
    return struct.pack('<IIII', 0x0b340a06, i & 0xffff, i >> 16, 0x01010101) + struct.pack('>IIII', i, i ^ 0xffffffff, 7, 0)


def row(i, nmobs):
    """placement of item i"""
    return ((i * 31) % nmobs if nmobs else None, (i * 7919) % 65536 - 32768, (i * 104729) % 65536 - 32768, (i * 2654435761) % (1 << 32) - (1 << 31),
            i % 3 == 0)


def model(rows, nmobs, root, large, order):
    models = []
    for i in range(nmobs):
        if nmobs <= 300:
            m = L.full_model(b'CMPO')
            m['tracks'] = []
        else:
            m = OrderedDict(TEMPLATE)
        m['mob_id'] = ident(i)
        m['mob_type_id'] = 1 + i % 3
        models.append((b'CMPO', m))
    b = L.full_model(root)
    doc = L.wrap([], order=order, large=large, root=(root, b))
    # the mobs are known to the bin by its items only
    objs = OrderedDict()
    for i, x in enumerate(models):
        objs[i + 1] = x
    for k, (c, m) in doc.objs.items():
        objs[k + nmobs] = (c, m)
    for n in ('view_setting', 'attributes'):
        b[n] += nmobs
    used = sorted({r[0] for r in rows if r[0] is not None})
    objs[b['attributes']][1]['entries'] = [['m%d' % i, 3, i + 1] for i in set(range(nmobs)) - set(used)]
    b['items'] = [item(r) for r in rows]
    return R.Doc(objs, doc.root + nmobs, order, 1500000000, 'large')


def item(r):
    return OrderedDict([('mob', None if r[0] is None else r[0] + 1), ('x', r[1]), ('y', r[2]), ('keyframe', r[3]), ('user_placed', r[4])])


TEMPLATE = L.full_model(b'CMPO')
TEMPLATE['tracks'] = []


def check_lib(b, rows, nmobs, when, lookups):
    """-> the mobs of the bin, by number"""
    need(len(b.items) == len(rows), '%s: %d items, expected %d', when, len(b.items), len(rows))
    byid = {}
    for i, (it, r) in enumerate(zip(b.items, rows)):
        m = it.mob
        if r[0] is None:
            need(m is None, '%s: item %d of %d has mob %r', when, i, len(rows), m)
        elif byid.get(r[0]) is None:
            need(m is not None and bytes(m.mob_id.bytes_le) == ident(r[0]), '%s: item %d of %d has mob %r', when, i, len(rows), m)
            byid[r[0]] = m
        else:
            need(m is byid[r[0]], '%s: item %d of %d has mob %r', when, i, len(rows), m)
        g = (it.x, it.y, it.keyframe, bool(it.user_placed))
        need(g == r[1:], '%s: item %d of %d is %r, expected %r', when, i, len(rows), g, r[1:])
    for i in lookups:
        m = b.find_by_mob_id(avb.mobid.MobID(bytes_le=ident(i)))
        need(m is byid.get(i), '%s: mob %d is %r', when, i, m)
    k = 0
    for m in b.mobs:
        need(m is byid.get(rows[k][0]), '%s: mob %d in the listing is %r', when, k, m)
        k += 1
    need(k == len(rows), '%s: %d mobs for %d items', when, k, len(rows))
    return byid


def saved(ctx, f, exp_doc, rows, nmobs, root, large, order, when):
    p = ctx.path('b.avb')
    f.write(p, order)
    data = C.read(p)
    os.remove(p)
    got = C.check_bytes(exp_doc, data, order)
    m = got.objs[got.root][1]
    need(m['large_bin'] == large, '%s: %d items are saved in the %s layout', when, len(rows), 'large' if m['large_bin'] else 'ordinary')
    g = C.open_bytes(data)
    need(bool(g.content.large_bin) == large, '%s: the layout is read as %r', when, g.content.large_bin)
    return g, data


def bins(ctx, case):
    count, edits, nmobs, root, order, large, src, order2 = case
    rows = [row(i, nmobs) for i in range(count)]
    if count > 0xffff and src == 'loaded':
        large = True
    C.set_zone(0)
    doc = model(rows, nmobs, root, large, order)
    if src == 'loaded':
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        need(bool(f.content.large_bin) == large, 'the layout is read as %r', f.content.large_bin)
    else:
        f, objs = B.build(doc)
        f.content.large_bin = large
    b = f.content
    looks = [0, nmobs // 2, nmobs - 1] if nmobs else []
    if nmobs <= 300:
        looks += [nmobs]
    mobs = check_lib(b, rows, nmobs, 'at first', looks)
    for k, m in b.attributes.items():
        if hasattr(m, 'mob_id'):
            mobs[int(k[1:])] = m

    def put(n):
        for j in range(n):
            r = row(len(rows), nmobs)
            if r[0] not in mobs:
                # a mob nothing kept when the file was reloaded
                r = (None,) + r[1:]
            if r[0] is not None and j % 2:
                it = b.add_mob(mobs[r[0]])
            else:
                it = f.create.BinItem()
                it.mob = None if r[0] is None else mobs[r[0]]
                b.items.append(it)
            it.x, it.y, it.keyframe, it.user_placed = r[1:]
            rows.append(r)

    crossed = False
    for last, (how, n) in enumerate(edits or [(None, 0)], 1):
        when = 'after %s %d' % (how, n) if how else 'unedited'
        before = len(rows)
        if how == 'add':
            put(n)
        elif how == 'del':
            n = min(n, len(rows))
            a = (len(rows) - n) // 2
            del b.items[a:a + n]
            del rows[a:a + n]
        elif how == 'to':
            put(max(0, n - len(rows)))
            del b.items[n:]
            del rows[n:]
        if how and how != 'save':
            b.mark_modified()
        crossed = crossed or (before > 0xffff) != (len(rows) > 0xffff)
        if how not in ('reload', 'save') and last < len(edits):
            continue
        lay = large or len(rows) > 0xffff
        exp = model(rows, nmobs, root, lay, order2)
        exp.objs[exp.objs[exp.root][1]['attributes']][1]['entries'] = doc.objs[doc.objs[doc.root][1]['attributes']][1]['entries']
        drop_unreachable(exp)
        g, data = saved(ctx, f, exp, rows, nmobs, root, lay, order2, when)
        mobs2 = check_lib(g.content, rows, nmobs, when + ', reloaded', looks)
        if how == 'reload':
            f, b, large, mobs = g, g.content, lay, mobs2
            for k, m in b.attributes.items():
                if hasattr(m, 'mob_id'):
                    mobs[int(k[1:])] = m
    ctx.label('items %s 65535' % ('over' if len(rows) > 65535 else 'up to'), 'large' if large else 'ordinary')
    return len(rows) >= 32768 or crossed


def drop_unreachable(doc):
    keep = R.reachable(doc)
    for k in list(doc.objs):
        if k not in keep:
            del doc.objs[k]


@st.composite
def cases(draw, sizes, nmobs, edits=2):
    count = draw(sizes)
    ed = []
    for i in range(draw(st.integers(0, edits))):
        how = draw(st.sampled_from(['add', 'del', 'to', 'reload', 'save', 'save']))
        n = draw(st.integers(1, 3)) if how != 'to' else draw(st.sampled_from([65535, 65536, 65534, 65537, 3, 32768]))
        ed.append((how, n))
    return (count, ed, draw(nmobs), draw(st.sampled_from([b'ABIN', b'BINF'])), draw(st.sampled_from(['little', 'big'])), draw(st.booleans()),
            draw(st.sampled_from(['loaded', 'created'])), draw(st.sampled_from(['little', 'big'])))


near = st.sampled_from([65534, 65535, 65536, 65537, 65535, 65536])
EXAMPLES = [
    ('sizes', (131075, [], 3, b'ABIN', 'little', False, 'loaded', 'big')),
    ('sizes', (131074, [], 1, b'BINF', 'big', False, 'created', 'little')),
]

SUBS = [
    Sub('edge', cases(near, st.sampled_from([1, 2, 7]), edits=3), bins, quick=24, thorough=160, cpu_limit=250),
    Sub('sizes', cases(st.one_of(st.sampled_from(EDGE), st.integers(0, 140000)), st.sampled_from([0, 1, 3, 200]), edits=0), bins, quick=24, thorough=240, cpu_limit=250),
    Sub('small', cases(st.integers(0, 600), st.sampled_from([0, 1, 3, 40]), edits=3), bins, quick=200, thorough=1600, cpu_limit=250),
    Sub('mobs', cases(st.sampled_from([65537, 65600, 66000]), st.sampled_from([65535, 65536, 65540, 66100]), edits=0), bins, quick=2, thorough=16, cpu_limit=400),
]
