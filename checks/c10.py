"""A failed save leaves the document intact and savable."""
import datetime
import gc
import io
import os
import resource
import signal
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import edits as E
import leaves as L
import c04
from runner import Sub, Violation, HarnessError

RULE = 'at least one save failed and a later save was compared byte for byte with a twin that never failed'
ASSUMPTIONS = ['the program undoes the unsavable value by assigning the previous one again, where it was']

FAILS = ['fsize', 'fsize', 'fsize', 'value', 'value', 'value', 'foreign', 'full', 'pipe', 'dir', 'nodir', 'order', 'source',
         'creator']


class Odd(object):
    pass


class Flaky(io.BytesIO):
    """a source that stops working for a while"""
    left = None

    def _tick(self):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise OSError(5, 'input error')

    def read(self, *a):
        self._tick()
        return io.BytesIO.read(self, *a)

    def readinto(self, b):
        self._tick()
        return io.BytesIO.readinto(self, b)


fail = st.tuples(st.just('fail'), st.sampled_from(FAILS), st.integers(0, 65535), st.integers(0, 65535),
                 st.sampled_from(['little', 'big']))


@st.composite
def cases(draw, most=6, **kw):
    start, doc, ops = draw(c04.histories(most=most, **kw))
    out = []
    for op in ops:
        if draw(st.integers(0, 2)) == 0:
            out.append(draw(fail))
        out.append(op)
        if draw(st.integers(0, 9)) == 0:
            out.append(('drop',))
    out.append(draw(fail))
    return start, doc, out, draw(st.booleans())


_foreign = []


def foreign():
    if not _foreign:
        g = avb.open()
        _foreign.extend([g, g.create.Filler(media_kind='picture', edit_rate=25)])
    return _foreign[1]


def bad_value(t, n, objs, k):
    if isinstance(t, R.Str):
        return ['\ud800', Odd(), 'x' * 70000, 5, '\u65e5' if not t.utf8 else 'x' * 65535][n % 5]
    if isinstance(t, R.Int):
        return [t.hi + 1, Odd(), t.lo - 1, 'x', None, 2 ** 64][n % 6]
    if isinstance(t, R.Ref):
        return [Odd(), 'x', 7][n % 3]
    if isinstance(t, (R.Exp10, R.Dbl)):
        return [Odd(), 'x', None, 1j][n % 4]
    return [Odd(), None, 3.5, 1j][n % 4] if not isinstance(t, (R.Blob, R.Bytes)) else [Odd(), 'x', 1j][n % 3]


def one_fail(ctx, f, objs, doc, op, flaky, n, path=None):
    """make one save fail; returns whether it did"""
    how, a, b, order = op[1:]
    path = path or ctx.path('fail%d.avb' % n)
    undo = None
    sure = True
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    fds = ()
    try:
        if how == 'fsize':
            doc2 = R.Doc(doc.objs, doc.root, order, doc.last_save, doc.creator)
            d = E.clone(doc2)
            E.prune(d)
            size = len(R.encode_file(d)[0])
            lim = [a * size >> 16, a % 300, 0, size - 1 - a % 40][b % 4]
            sure = lim < size - 40     # the library may store lock numbers the model leaves out, so nearly full is unsure
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (max(lim, 0), old[1]))
        elif how == 'full':
            path = '/dev/full'
        elif how == 'pipe':
            fds = os.pipe()
            path = os.dup(fds[1])
            os.close(fds[0])
            fds = fds[1:]
        elif how == 'dir':
            path = ctx.path('dir')
            if not os.path.isdir(path):
                os.mkdir(path)
        elif how == 'nodir':
            path = ctx.path('none/such.avb')
        elif how == 'order':
            order = 'middle'
        elif how == 'creator':
            keep = f.creator_version
            f.creator_version = ['\u65e5', None, 5, '\ud800'][a % 4]

            def undo():
                f.creator_version = keep
        elif how == 'source':
            if flaky is None:
                return False
            flaky.left = a % 12
            sure = False
        else:
            live = R.reachable(doc)
            k = live[a % len(live)]
            cid, m = doc.objs[k]
            ls = L.leaves(cid, m)
            ls = [(p, t) for p, t in ls if not isinstance(t, R.Bool) and p[-1] not in ('value_type', 'large_bin', 'type') and
                  not (cid == b'ATTR' and p[2] != 2)]
            if how == 'foreign':
                ls = [(p, t) for p, t in ls if isinstance(t, R.Ref)]
            if not ls:
                return False
            p, t = ls[b % len(ls)]
            v = foreign() if how == 'foreign' else bad_value(t, a, objs, k)
            sure = how == 'foreign'
            if cid == b'ATTR':
                if isinstance(v, (int, str)) and how != 'foreign':
                    v = 1.5
            if isinstance(t, R.Ref) and k not in reach_without(doc, k, p):
                return False
            before = get_lib(objs[k], cid, m, p)
            try:
                L.lib_put(objs[k], cid, m, p, v)
            except Exception:
                ctx.label('refused when set')
                return False

            def undo():
                L.lib_put(objs[k], cid, m, p, before)
        try:
            f.write(path, order)
        except Exception as e:
            ctx.label('failed:' + how)
            return True
        if sure:
            raise Violation('a save that must fail (%s) succeeds' % (op,))
        return False
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        if undo:
            undo()
        if flaky is not None:
            flaky.left = None
        for x in fds:
            os.close(x)


def reach_without(doc, k, p):
    c, m = doc.objs[k]
    old = L.get(m, p)
    L.put(m, p, None)
    try:
        return R.reachable(doc)
    finally:
        L.put(m, p, old)


def get_lib(obj, cid, m, path):
    if cid == b'ATTR':
        return obj[m['entries'][path[1]][0]]
    if cid in (b'PRLS', b'TMCS'):
        return obj[path[1]]
    cur = obj
    for k in path:
        cur = cur[k] if isinstance(k, int) or isinstance(cur, dict) else getattr(cur, k)
    return cur


class Lazy(dict):
    def __init__(self, f, refmap):
        self.f, self.refmap = f, refmap

    def __missing__(self, k):
        self[k] = self.f.read_object(self.refmap[k])
        return self[k]


class Side(object):
    def __init__(self, ctx, doc0, start, name, flaky):
        self.ctx, self.name = ctx, name
        self.doc = E.clone(doc0)
        self.flaky = None
        if start == 'created':
            self.f, self.objs = B.build(self.doc)
        else:
            data, refmap = R.encode_file(self.doc)
            if flaky:
                self.flaky = Flaky(data)
                self.f = avb.open(self.flaky)
            else:
                p = ctx.path(name + 'src.avb')
                with open(p, 'wb') as o:
                    o.write(data)
                self.f = avb.open(p)
            # only what the edits need is loaded, so saves have to read the source
            self.objs = Lazy(self.f, refmap)
        self.last = None

    def reload(self):
        if self.last is None:
            return
        self.f.close()
        self.flaky = None
        self.f = avb.open(self.last)
        E.prune(self.doc)
        self.objs = c04.mapping(self.doc, self.f)

    def step(self, op, i):
        if op[0] == 'save':
            self.last = self.ctx.path('%s%d.avb' % (self.name, i))
            return C.save(self.f, self.last, op[1])
        if op[0] == 'reload':
            self.reload()
        elif op[0] == 'header':
            self.f.creator_version, self.f.last_save = op[1], datetime.datetime.fromtimestamp(op[2])
            self.doc.creator, self.doc.last_save = op[1], op[2]
        else:
            E.apply_lib(self.f, self.objs, self.doc, op)
            E.apply_model(self.doc, op)


def reflist(doc, op):
    cid = doc.objs[op[1]][0]
    t = [t for n, t, o in G.fields(cid)[0] if n == op[2]][0]
    return isinstance(t, R.Lst) and t.reflist


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


def run(ctx, case):
    start, doc0, ops, flaky = case
    C.set_zone(doc0.last_save)
    a, b = Side(ctx, doc0, start, 'a', flaky), Side(ctx, doc0, start, 'b', False)
    failed = compared = 0
    unsafe = False
    try:
        for i, op in enumerate(ops + [('save', 'little'), ('save', 'big')]):
            if op[0] == 'fail':
                if one_fail(ctx, a.f, a.objs, a.doc, op, a.flaky, i):
                    failed += 1
                    if op[3] & 1:
                        B.match_docs(a.doc, B.snapshot(a.f), locks_default=True)
                continue
            if op[0] == 'drop':
                # known findings of C05: only edits of these kinds survive when nobody holds the object
                if not unsafe and isinstance(a.objs, Lazy):
                    a.objs.clear()
                    b.objs.clear()
                    gc.collect()
                    ctx.label('dropped')
                continue
            if op[0] in ('sub', 'item', 'new', 'list') and not (op[0] == 'list' and reflist(a.doc, op)):
                unsafe = True
            x, y = a.step(op, i), b.step(op, i)
            if op[0] == 'save':
                if x != y:
                    # which value differs
                    try:
                        C.check_bytes(a.doc, x, op[1])
                    except (B.Mismatch, R.FormatError) as e:
                        raise Violation('after %d failed saves: %s' % (failed, e))
                    raise Violation('after %d failed saves the file differs from that of a document whose saves never failed' % failed)
                compared += failed > 0
    finally:
        for s in (a, b):
            s.f.close()
        for n in os.listdir(ctx.scratch):
            if n.endswith('.avb') or n.endswith('.tmp'):
                os.remove(ctx.path(n))
    return compared > 0


# ------------------------------------------------- every place of one document
@st.composite
def sweep_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=2, legacy_ids=False, created=True), max_objs=4, min_objs=1))
    return draw(st.sampled_from(['loaded', 'created'])), doc, draw(st.sampled_from(['little', 'big'])), draw(st.integers(0, 96)), \
        draw(st.sampled_from(['little', 'big']))


def sweep(ctx, case):
    """the device fills up at one byte after the other, and after each failure the document is as before"""
    start, doc, order, first, order2 = case
    a, b = Side(ctx, doc, start, 'a', False), Side(ctx, doc, start, 'b', False)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    n = 0
    try:
        want = {o: b.step(('save', o), o == 'big') for o in ('little', 'big')}
        size = len(want[order])
        step = 1 if ctx.tier == 'thorough' and size < 3000 else 97
        for lim in list(range(first % step, size, step)) + [size - 1]:
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
            try:
                a.f.write(ctx.path('x.avb'), order)
            except Exception:
                n += 1
            else:
                raise Violation('saving %d bytes to a device with room for %d succeeds' % (size, lim))
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            if a.step(('save', order2), 5) != want[order2]:
                raise Violation('after the device filled up at byte %d the saved file differs' % lim)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        a.f.close()
        b.f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb') or x.endswith('.tmp'):
                os.remove(ctx.path(x))
    ctx.label('lengths', *(['big file'] if size > 8192 else []))
    return n > 0


SUBS = [
    Sub('histories', cases(), run, quick=6000),
    Sub('every_length', sweep_cases(), sweep, quick=400, thorough=1500),
]
