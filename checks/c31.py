"""The work done grows in step with the document."""
import gc
import io
import os
import signal
import sys
import time
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.mobid
import avb.core
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the work of at least one operation on the largest of the three documents was over 2000 steps'
ASSUMPTIONS = [
    'work is counted: lines executed, loop iterations and calls made by Python code, and bytes read from the file',
    'work done inside one call of a built-in (comparing or copying a list, joining strings) is not counted; it shows only in the processor time of '
    'the large documents, four times in a row more than 2.5 times what is in step',
    'str() of an object and a plain walk of what it refers to follow every path',
    'identifiers that no mob of the bin has are looked up for bytes read only',
]
BUDGET = {'quick': 300, 'thorough': 3000}
N = (3, 6, 36)
MON = sys.monitoring
TOOL = 4
HERE = os.path.dirname(os.path.abspath(__file__))


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


class TooMuch(Exception):
    pass


class Meter(object):
    """counts what runs inside run()"""
    def __init__(self):
        self.n = 0
        self.limit = None

    def tick(self, *a):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            self.limit = None
            raise TooMuch()

    def run(self, fn, limit):
        ev = MON.events
        self.n, self.limit = 0, limit
        MON.use_tool_id(TOOL, 'c31')
        # what is reclaimed, and read again, should not depend on when the collector runs
        gc.collect()
        gc.disable()
        try:
            for e in (ev.LINE, ev.JUMP, ev.PY_START, ev.PY_RESUME, ev.CALL):
                MON.register_callback(TOOL, e, self.tick)
            MON.set_events(TOOL, ev.LINE | ev.JUMP | ev.PY_START | ev.PY_RESUME | ev.CALL)
            try:
                fn()
            finally:
                MON.set_events(TOOL, 0)
                for e in (ev.LINE, ev.JUMP, ev.PY_START, ev.PY_RESUME, ev.CALL):
                    MON.register_callback(TOOL, e, None)
        finally:
            gc.enable()
            MON.free_tool_id(TOOL)
        return self.n


class Counted(io.BytesIO):
    got = 0

    def read(self, *a):
        r = io.BytesIO.read(self, *a)
        self.got += len(r)
        return r

    def readinto(self, b):
        n = io.BytesIO.readinto(self, b)
        self.got += n
        return n


def each(x):
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, list):
        return list(x)
    return [getattr(x, k) for k in x.property_data]


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ operations
# each gets a freshly opened document and gives a function to be measured
def op_walk(f, ctx):
    def go():
        for x in avb.core.walk_references(f.content):
            pass
    return go


def op_chunks(f, ctx):
    def go():
        for c in f.chunks():
            c.read()
    return go


def op_objects(f, ctx):
    n = len(f.object_positions)

    def go():
        for i in range(1, n):
            f.read_object(i)
    return go


def op_classes(f, ctx):
    every = [c.encode() if isinstance(c, str) else c for c in R.ALLKINDS]

    def go():
        for x in f.iter_class_ids(every):
            pass
    return go


def op_save(f, ctx):
    p = ctx.path('o.avb')
    return lambda: f.write(p, 'little')


def op_save_all(f, ctx):
    hold = [f.read_object(i) for i in range(1, len(f.object_positions))]
    for x in hold:
        x.mark_modified()
    p = ctx.path('o.avb')
    return lambda: (f.write(p, 'big'), hold)[0]


def op_fields(f, ctx):
    def go():
        for i in range(1, len(f.object_positions)):
            x = f.read_object(i)
            each(x)
    return go


def op_bin(f, ctx):
    def go():
        b = f.content
        for g in (b.mobs, b.toplevel(), b.compositionmobs(), b.mastermobs()):
            try:
                for m in g:
                    pass
            except ValueError:
                # a mob of an unknown type ends a listing
                pass
    return go


OPS = OrderedDict([('walk', op_walk), ('chunks', op_chunks), ('objects', op_objects), ('classes', op_classes), ('save', op_save),
                   ('save modified', op_save_all), ('fields', op_fields), ('bin', op_bin)])


def grows(work, what, sizes=N, slack=300, factor=1.3):
    """work(n, limit) -> (steps, bytes); -> most steps"""
    a, b, c = sizes
    s1, b1 = work(a, 3000000)
    s2, b2 = work(b, 6000000)

    def bound(x, y):
        return int(factor * (y + max(y - x, 0) * (c - b) / (b - a))) + slack
    lim = bound(s1, s2)
    try:
        s3, b3 = work(c, lim)
    except TooMuch:
        raise Violation('%s: %d steps for %d, %d for %d, more than %d for %d' % (what, s1, a, s2, b, lim, c))
    need(b3 <= bound(b1, b2), '%s: %d bytes read for %d, %d for %d, %d for %d', what, b1, a, b2, b, b3, c)
    return s3


def measure(ctx, name, data, limit):
    f = Counted(data)
    m = Meter()
    if name == 'open':
        n = m.run(lambda: avb.open(f), limit)
    else:
        d = avb.open(f)
        go = OPS[name](d, ctx)
        f.got = 0
        n = m.run(go, limit)
    return n, f.got


def small(doc):
    return sum(len(repr(m)) for c, m in doc.objs.values()) < 30000


# ------------------------------------------------------------------ copies
def repeated(doc, n):
    """a bin that has n copies of everything doc has"""
    per = [k for k in doc.objs if k != doc.root]
    models = []
    for j in range(n):
        at = {k: len(per) * j + i + 1 for i, k in enumerate(per)}
        for k in per:
            cid, m = doc.objs[k]
            m = R.map_refs(cid, m, lambda r: at[r])
            if 'mob_id' in m and cid == b'CMPO':
                m['mob_id'] = bytes([j & 255, j >> 8]) + bytes(m['mob_id'])[2:]
            models.append((cid, m))
    cid, root = doc.objs[doc.root]
    b = OrderedDict(root)
    b['items'] = []
    for j in range(n):
        at = {k: len(per) * j + i + 1 for i, k in enumerate(per)}
        for x in root['items']:
            x = OrderedDict(x)
            x['mob'] = at.get(x['mob'])
            b['items'].append(x)
    return L.wrap(models, order=doc.order, large=bool(root.get('large_bin')), root=(cid, b))


def run_ops(ctx, make, ops, what, sizes=N):
    data = {}
    for n in sizes:
        data[n] = R.encode_file(make(n))[0]
    most = 0
    for o in ops:
        most = max(most, grows(lambda n, lim: measure(ctx, o, data[n], lim), '%s, %s' % (o, what), sizes))
    return most


def copies(ctx, case):
    doc, ops = case
    C.set_zone(0)
    if any(doc.root in R.refs_of(c, m) for c, m in doc.objs.values()):
        return False
    most = run_ops(ctx, lambda n: repeated(doc, n), ops, 'a bin with copies of %d objects' % len(doc.objs))
    ctx.label(*ops)
    return most > 2000


opnames = st.lists(st.sampled_from(['open'] + list(OPS)), min_size=1, max_size=3, unique=True)
OPT = G.Opts(maxlist=3, legacy_ids=False)
copy_cases = st.tuples(G.documents(OPT, min_objs=1, max_objs=8).filter(small), opnames)


# ------------------------------------------------------------------ long values
def long_value(ctx, case):
    doc, which, ops, _ = case
    C.set_zone(0)
    c = G.stretchable(doc)
    if not c:
        return False
    k, name, t = c[which % len(c)]
    lim = G.limit(t) or 1000
    cid, m = doc.objs[k]
    v = m[name]
    v = list(v) if isinstance(v, tuple) else v
    unit = G.grow(v, 4)

    def make(n):
        objs = OrderedDict((i, (x, OrderedDict(y))) for i, (x, y) in doc.objs.items())
        y = objs[k][1]
        y[name] = unit * (n * 4)
        if isinstance(t, R.Str):
            y[name] = y[name].strip('\0')
        return R.Doc(objs, doc.root, doc.order, doc.last_save, doc.creator)
    if lim < len(unit) * N[2] * 4:
        return False
    most = run_ops(ctx, make, ops, '%s.%s' % (cid.decode(), name))
    ctx.label('long ' + type(t).__name__)
    return most > 2000


long_cases = st.tuples(G.kind_documents(OPT).filter(small), st.integers(0, 30), opnames, st.just(0))


# ------------------------------------------------------------------ shared objects
CONT = [(b'SEQU', 'components'), (b'TNFX', 'tracks'), (b'CMPO', 'tracks'), (b'PRLS', 'entries'), (b'ATTR', 'entries'), (b'SLCT', 'tracks'),
        (b'EQMB', 'tracks')]


def layered(kinds, widths, depth, twins):
    """each object refers to those of the layer below several times"""
    models = []

    def add(c, m):
        models.append((c, m))
        return len(models)
    below = [add(b'FILL', L.full_model(b'FILL'))]
    for d in range(depth):
        cid, name = kinds[d % len(kinds)]
        layer = []
        for i in range(1 + twins):
            m = L.full_model(cid)
            refs = (below * 3)[:max(widths[d % len(widths)], len(below))]
            if name == 'components':
                m[name] = refs
            elif cid == b'ATTR':
                m[name] = [['%d' % j, 3, r] for j, r in enumerate(refs)]
            elif name == 'entries':
                m[name] = refs
            else:
                z = m['tracks'][0]
                m['tracks'] = [OrderedDict(list(z.items()) + [('component', r)]) for r in refs]
            if cid == b'CMPO':
                m['mob_id'] = bytes([d, i]) + bytes(range(2, 32))
            layer.append(add(cid, m))
        below = layer
    b = L.full_model(b'ABIN')
    return L.wrap(models, root=(b'ABIN', b))


def shared(ctx, case):
    kinds, widths, twins, ops = case
    C.set_zone(0)
    # a walk goes along every path
    ops = [o for o in ops if o != 'walk']
    if not ops:
        return False
    most = run_ops(ctx, lambda n: layered([CONT[k] for k in kinds], widths, n, twins), ops,
                   'objects shared by %d objects of the layer above' % (1 + twins), sizes=(6, 12, 36))
    ctx.label('shared')
    return most > 2000


shared_cases = st.tuples(st.lists(st.integers(0, len(CONT) - 1), min_size=1, max_size=3), st.lists(st.integers(2, 3), min_size=1, max_size=3),
                         st.integers(0, 1), opnames)


# ------------------------------------------------------------------ one object of many
def single(ctx, case):
    doc, pick, how = case
    C.set_zone(0)
    if any(doc.root in R.refs_of(c, m) for c, m in doc.objs.values()):
        return False
    per = [k for k in doc.objs if k != doc.root]
    i = pick % len(per)
    res = []
    for n in N:
        data, refmap = R.encode_file(repeated(doc, n))
        f = Counted(data)
        d = avb.open(f)
        # the same object of the first copy
        k = refmap[i + 1] if how == 'first' else refmap[len(per) * (n - 1) + i + 1]
        at = f.got
        m = Meter()

        def go():
            c = d.read_chunk(k)
            x = d.read_object(k)
            each(x)
            return x
        s = m.run(go, None)
        res.append((s, f.got - at))
    for x in (0, 1):
        need(res[2][x] <= res[0][x] * 1.2 + 60, 'reading one object takes %r (steps, bytes) in documents of %r copies', res, N)
    ctx.label('single')
    return len(per) * N[2] > 100


single_cases = st.tuples(copy_cases.map(lambda c: c[0]), st.integers(0, 20), st.sampled_from(['first', 'last']))


# ------------------------------------------------------------------ mobs
def ident(i):
    return bytes(range(1, 31)) + bytes([i & 255, i >> 8])


SHAPES = {
    'chain': lambda n: {i: [i + 1] if i + 1 < n else [] for i in range(n)},
    'back': lambda n: {i: [i - 1] if i else [] for i in range(n)},
    'ring': lambda n: {i: [(i + 1) % n] for i in range(n)},
    'star': lambda n: {i: list(range(1, n)) if i == 0 else [] for i in range(n)},
    'ladder': lambda n: {i: [j for j in (i // 2 * 2 + 2, i // 2 * 2 + 3) if j < n] for i in range(n)},
    'pairs': lambda n: {i: [j for j in (i + 1, i + 2, i + 5) if j < n] for i in range(n)},
}


def mob_doc(g, missing):
    models = []

    def add(c, m):
        models.append((c, m))
        return len(models)
    nums = []
    for i in sorted(g):
        ks = []
        for t in g[i]:
            m = L.full_model(b'SCLP')
            m['mob_id'] = ident(t + (5000 if missing else 0))
            ks.append(add(b'SCLP', m))
        s = L.full_model(b'SEQU')
        s['components'] = ks
        s = add(b'SEQU', s)
        m = L.full_model(b'CMPO')
        m['tracks'] = [OrderedDict(list(m['tracks'][0].items()) + [('component', s)])]
        m['mob_id'] = ident(i)
        m['mob_type_id'] = 1 + i % 3
        nums.append(add(b'CMPO', m))
    b = L.full_model(b'ABIN')
    b['items'] = [OrderedDict([('mob', k), ('x', 0), ('y', 0), ('keyframe', 0), ('user_placed', True)]) for k in nums]
    return L.wrap(models, root=(b'ABIN', b)), nums


def mobs(ctx, case):
    shape, what, hold = case

    def work(n, lim):
        doc, nums = mob_doc(SHAPES[shape](n), what == 'missing')
        data, refmap = R.encode_file(doc)
        f = Counted(data)
        d = avb.open(f)
        b = d.content
        held = list(b.mobs) if hold else None
        top = d.read_object(refmap[nums[0 if shape != "back" else -1]])
        m = Meter()
        clips = [refmap[k] for k, (c, x) in doc.objs.items() if c == b'SCLP']
        if what == 'dependants':
            go = lambda: list(top.dependant_mobs())
        elif what == 'find':
            ids = [avb.mobid.MobID(bytes_le=ident(i)) for i in range(n)]
            go = lambda: [b.find_by_mob_id(i) for i in ids]
        else:
            def go():
                for k in clips:
                    x = d.read_object(k)
                    x.mob
        f.got = 0
        if what == 'missing':
            go()
            return 0, f.got
        return m.run(go, lim), f.got
    most = grows(work, '%s in a bin whose mobs form a %s' % (what, shape), sizes=(12, 24, 144))
    ctx.label(what, shape)
    return most > 2000 or what == 'missing'


mob_cases = st.tuples(st.sampled_from(sorted(SHAPES)), st.sampled_from(['dependants', 'dependants', 'find', 'clips', 'missing']), st.booleans())


# ------------------------------------------------------------------ changing
def change(ctx, case):
    """n changes of the same sort to a loaded or new document"""
    kind, src, rev = case

    def work(n, lim):
        n *= 4
        m = Meter()
        if src == 'new':
            f = avb.open()
        else:
            f = C.open_bytes(R.encode_file(L.wrap([(b'SEQU', L.full_model(b'SEQU'))], root=(b'ABIN', L.full_model(b'ABIN'))))[0])
        b = f.content
        p = ctx.path('c.avb')

        def go():
            if kind == 'create':
                f.hold = [f.create.Filler(edit_rate=25, media_kind="picture") for i in range(n)]
            elif kind == 'sequence':
                s = f.create.Sequence(edit_rate=25, media_kind="picture")
                for i in range(n):
                    s.components.append(f.create.Filler(edit_rate=25, media_kind="picture"))
                b.attributes = f.create.Attributes()
                b.attributes['s'] = s
                f.write(p, 'little')
            elif kind == 'attributes':
                b.attributes = f.create.Attributes()
                for i in range(n):
                    b.attributes['%d' % i] = i if rev else f.create.Attributes()
                f.write(p, 'little')
            elif kind == 'items':
                for i in range(n):
                    x = f.create.Composition(mob_type='MasterMob')
                    b.add_mob(x)
                f.write(p, 'little')
            elif kind == 'add and find':
                for i in range(n):
                    x = f.create.Composition(mob_type='MasterMob')
                    b.add_mob(x)
                    if b.find_by_mob_id(x.mob_id) is not x:
                        raise Violation('an added mob is not found')
            elif kind == 'pop':
                s = f.create.Sequence(edit_rate=25, media_kind="picture")
                s.components.extend([f.create.Filler(edit_rate=25, media_kind="picture") for i in range(n)])
                while len(s.components):
                    s.components.pop(0 if rev else -1)
            else:
                g = avb.open()
                for i in range(n):
                    x = f.create.SourceClip(edit_rate=25, media_kind="picture")
                    x.copy(g)
        try:
            return m.run(go, lim), 0
        finally:
            if os.path.exists(p):
                os.remove(p)
    most = grows(work, 'changes (%s) to a document (%s)' % (kind, src))
    ctx.label(kind)
    return most > 2000


change_cases = st.tuples(st.sampled_from(['create', 'sequence', 'attributes', 'items', 'add and find', 'pop', 'copy']), st.sampled_from(['new', 'loaded']),
                         st.booleans())

# ------------------------------------------------------------------ large documents, by time
class Slow(Exception):
    pass


def stages(ctx, kind, n, order, limits=None):
    """processor time of every step of a program on a document of n objects; a step that takes longer than its limit ends it"""
    times = OrderedDict()
    box = {}

    def late(sig, frm):
        raise Slow()

    def step(name, fn):
        gc.collect()
        gc.disable()
        if limits is not None:
            signal.signal(signal.SIGPROF, late)
            signal.setitimer(signal.ITIMER_PROF, limits[name])
        a = time.process_time()
        try:
            box[name] = fn()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            times[name] = time.process_time() - a
            gc.enable()
    try:
        program(ctx, kind, n, order, step, box)
    except Slow:
        pass
    return times


def program(ctx, kind, n, order, step, box):
    p, p2 = ctx.path('t.avb'), ctx.path('t2.avb')
    f = avb.open()
    b = f.content

    def make():
        if kind == 'components':
            s = f.create.Sequence(edit_rate=25, media_kind='picture')
            b.attributes = f.create.Attributes()
            b.attributes['s'] = s
            for i in range(n):
                x = f.create.SourceClip(edit_rate=25, media_kind='picture')
                x.length = i
                s.components.append(x)
        elif kind == 'attributes':
            b.attributes = f.create.Attributes()
            for i in range(n):
                b.attributes['%d' % i] = f.create.Attributes()
        elif kind == 'same':
            s = f.create.Sequence(edit_rate=25, media_kind='picture')
            b.attributes = f.create.Attributes()
            b.attributes['s'] = s
            x = f.create.Filler(edit_rate=25, media_kind='picture')
            for i in range(8 * n):
                s.components.append(x)
        else:
            for i in range(n):
                b.add_mob(f.create.Composition(mob_type='MasterMob'))
    step('make', make)
    if kind == 'mobs':
        def more():
            x = f.create.Composition(mob_type='MasterMob')
            for i in range(2 * n):
                b.add_mob(x)
        step('add', more)
        step('queries', lambda: [b.find_by_mob_id(b.items[-1].mob.mob_id) for i in range(20)])
        del b.items[n:]
        b.mark_modified()
    step('save', lambda: f.write(p, order))
    step('open', lambda: avb.open(p))
    g = box['open']
    k = len(g.object_positions)
    step('objects', lambda: [g.read_object(i) for i in range(1, k)])
    step('chunks', lambda: [c.class_id for c in g.chunks()])
    step('classes', lambda: [x for x in g.iter_class_ids([b'SCLP', b'ATTR', b'CMPO', b'FILL'])])
    step('modify', lambda: [x.mark_modified() for x in box['objects']])
    step('save again', lambda: g.write(p2, order))
    need(os.path.getsize(p) == os.path.getsize(p2), 'sizes differ after saving again')
    h = avb.open()
    if kind != 'mobs':
        step('copy', lambda: g.content.attributes.copy(h))
    else:
        step('copy', lambda: [x.copy(h) for x in box['objects'] if x.class_id == b'CMPO'])
        step('listing', lambda: list(g.content.mastermobs()))
    g.close()
    os.remove(p)
    os.remove(p2)


def timed(ctx, case):
    kind, order = case
    a, b = 2500, 20000
    for again in range(4):
        t1 = stages(ctx, kind, a, order)
        lim = {k: max(0.4, 2.5 * (b / a) * t) for k, t in t1.items()}
        t2 = stages(ctx, kind, b, order, {k: t + 0.1 for k, t in lim.items()})
        bad = [k for k in t2 if t2[k] > lim[k]]
        # what is slow every time is slow
        if not bad:
            break
    need(not bad, '%s: processor time of %r objects and of %r: %s', kind, a, b, ', '.join('%s %.3f %.3f' % (k, t1[k], t2[k]) for k in bad))
    ctx.label('timed ' + kind)
    return True


timed_cases = st.tuples(st.sampled_from(['components', 'attributes', 'same', 'mobs']), st.sampled_from(['little', 'big']))

SUBS = [
    Sub('copies', copy_cases, copies, quick=400, thorough=4000, cpu_limit=200),
    Sub('long', long_cases, long_value, quick=400, thorough=5000, cpu_limit=200),
    Sub('shared', shared_cases, shared, quick=200, thorough=1600, cpu_limit=200),
    Sub('single', single_cases, single, quick=160, thorough=1600, cpu_limit=200),
    Sub('mobs', mob_cases, mobs, quick=200, thorough=600, cpu_limit=200),
    Sub('timed', timed_cases, timed, quick=0, thorough=24, cpu_limit=600),
    Sub('change', change_cases, change, quick=100, thorough=300, cpu_limit=200),
]
EXAMPLES = [('timed', ('components', 'little')), ('timed', ('attributes', 'big')), ('timed', ('same', 'little')), ('timed', ('mobs', 'big'))]
