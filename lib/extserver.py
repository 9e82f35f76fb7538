"""Runs under PyPy: reads the same bytes with the native readers and with the pure ones, and compares."""
import datetime
import gc
import io
import os
import pickle
import resource
import struct
import sys
import traceback
import uuid

out = os.fdopen(os.dup(1), 'wb')
inp = os.fdopen(os.dup(0), 'rb')
null = os.open(os.devnull, os.O_RDWR)
os.dup2(null, 1)
os.dup2(null, 0)
if 'EXT_AS' in os.environ:
    resource.setrlimit(resource.RLIMIT_AS, (int(os.environ['EXT_AS']),) * 2)
sys.setrecursionlimit(3000)

import avb  # noqa: E402
import avb.file  # noqa: E402
import avb.mobid  # noqa: E402
import avb.core  # noqa: E402
import avb.utils  # noqa: E402


class Diff(Exception):
    pass


def both(fa, fb):
    """results of the two calls; exceptions count as results"""
    r = []
    for fn in (fa, fb):
        try:
            r.append(('value', fn()))
        except Exception as e:
            r.append(('raises', type(e).__name__, str(e)[:200]))
    return r


def fields(o):
    return sorted(d.name for d in type(o).propertydefs) if hasattr(type(o), 'propertydefs') else []


def is_obj(v):
    return isinstance(v, avb.core.AVBObject) or hasattr(v, 'class_id')


class Pair(object):
    """lockstep comparison; objects are paired up as they are met"""

    def __init__(self, deep):
        self.deep = deep
        self.ab, self.ba = {}, {}
        self.list = []
        self.queue = []

    def value(self, a, b, where):
        if type(a).__name__ != type(b).__name__:
            raise Diff('%s: %s %r, with the reference readers %s %r' % (where, type(a).__name__, a if not is_obj(a) else '', type(b).__name__, b if not is_obj(b) else ''))
        if is_obj(a) and getattr(a, 'class_id', None):
            self.obj(a, b, where)
        elif is_obj(a):
            self.helper(a, b, where)
        elif isinstance(a, float):
            if struct.pack('<d', a) != struct.pack('<d', b) and not (a != a and b != b):
                raise Diff('%s: %r, with the reference readers %r' % (where, a, b))
        elif isinstance(a, (list, tuple)):
            if len(a) != len(b):
                raise Diff('%s: %d elements, with the reference readers %d' % (where, len(a), len(b)))
            self.seq(a, b, where)
        elif isinstance(a, dict):
            if [(type(k), k) for k in a] != [(type(k), k) for k in b]:
                raise Diff('%s: keys %r, with the reference readers %r' % (where, list(a), list(b)))
            for k in a:
                self.get(lambda: a[k], lambda: b[k], '%s[%r]' % (where, k))
        elif a != b:
            raise Diff('%s: %r, with the reference readers %r' % (where, a, b))

    def seq(self, a, b, where):
        for i in range(len(a)):
            self.get(lambda: a[i], lambda: b[i], '%s[%d]' % (where, i))

    def get(self, fa, fb, where):
        ra, rb = both(fa, fb)
        if ra[0] != rb[0]:
            raise Diff('%s: %s, with the reference readers %s' % (where, show(ra), show(rb)))
        if ra[0] == 'value':
            self.value(ra[1], rb[1], where)

    def helper(self, a, b, where):
        if self.deep:
            self.list.append((a, b))
        self.props(a, b, where)

    def props(self, a, b, where):
        for n in fields(a):
            ha, hb = n in a.property_data, n in b.property_data
            if ha != hb:
                raise Diff('%s.%s is %s, with the reference readers %s' % (where, n, *('there' if h else 'missing' for h in (ha, hb))))
            if ha:
                self.get(lambda: getattr(a, n), lambda: getattr(b, n), '%s.%s' % (where, n))
        if set(a.property_data) != set(b.property_data):
            raise Diff('%s has %r, with the reference readers %r' % (where, sorted(a.property_data), sorted(b.property_data)))

    def obj(self, a, b, where):
        if a.class_id != b.class_id:
            raise Diff('%s: class %r, with the reference readers %r' % (where, a.class_id, b.class_id))
        if self.deep:
            ka, kb = self.ab.get(id(a)), self.ba.get(id(b))
            if ka is not None or kb is not None:
                if ka is None or kb is None or ka[1] is not b or kb[0] is not a:
                    raise Diff('%s: refers to another object than with the reference readers' % where)
                return
            self.ab[id(a)] = self.ba[id(b)] = (a, b)
            self.list.append((a, b))
            self.queue.append((a, b, '%s:%s' % (where if len(where) < 60 else '..', a.class_id[:].decode('latin1'))))
        elif a.instance_id != b.instance_id:
            raise Diff('%s: refers to object %r, with the reference readers %r' % (where, a.instance_id, b.instance_id))

    def content(self, a, b, where):
        """everything inside object a"""
        if isinstance(a, dict):
            ka, kb = list(a.keys()), list(b.keys())
            if [(type(k), k) for k in ka] != [(type(k), k) for k in kb]:
                raise Diff('%s: names %r, with the reference readers %r' % (where, ka, kb))
            for k in ka:
                self.get(lambda: a[k], lambda: b[k], '%s[%r]' % (where, k))
        elif isinstance(a, list):
            if len(a) != len(b):
                raise Diff('%s: %d elements, with the reference readers %d' % (where, len(a), len(b)))
            self.seq(a, b, where)
        if hasattr(a, 'property_data'):
            self.props(a, b, where)

    def run(self, a, b, where):
        self.obj(a, b, where)
        while self.queue:
            self.content(*self.queue.pop())


def show(r):
    if r[0] == 'raises':
        return 'raises %s(%s)' % r[1:]
    v = r[1]
    return 'gives %s' % (repr(v)[:200] if not is_obj(v) else 'a ' + type(v).__name__)


# ------------------------------------------------------------------ edits
def pick(seq, i):
    return seq[i % len(seq)]


INTS = [0, 1, -1, 2, 100, 32767, -32768, 3, 255, 65535, 2147483647]
TEXTS = ['', 'edited', 'a' * 300, 'tr\xeas', 'x']


def other(v, k):
    """a new value for a field that holds v"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return pick(INTS, k)
    if isinstance(v, float):
        return pick([25.0, 29.97, 0.0, -1.5, 24], k)
    if isinstance(v, str):
        return pick(TEXTS, k)
    if isinstance(v, avb.mobid.MobID):
        return avb.mobid.MobID(bytes_le=bytes(range(k % 200, k % 200 + 32)))
    if isinstance(v, uuid.UUID):
        return uuid.UUID(int=k * 12345)
    if isinstance(v, datetime.datetime):
        return datetime.datetime(2001 + k % 30, 2, 3, 4, 5, 6)
    if isinstance(v, bytearray):
        return bytearray([k % 256]) * (k % 9)
    if isinstance(v, bytes):
        return bytes([k % 256]) * len(v)
    if v is None:
        return None
    raise KeyError


def places(o):
    """[(kind, get, set)] of everything that can be edited in o"""
    r = []
    for n in fields(o):
        if n in o.property_data:
            r.append(n)
    return r


def edit_list(l, op, i, k, objs, owner):
    """one list operation; elements come from the list itself"""
    n = len(l)
    if op == 0:
        new = [x for x in objs if getattr(x, 'class_id', None) and not reaches(x, owner)] if isinstance(l, avb.core.AVBRefList) and k % 2 else []
        l.append(pick(new, k) if new else l[i % n] if n else None if isinstance(l, avb.core.AVBRefList) else 0)
    elif op == 1 and n:
        del l[i % n]
    elif op == 2:
        l.reverse()
    elif op == 3:
        del l[i % (n + 1):i % (n + 1) + k % 3]
    elif op == 4 and n:
        l.insert(i % (n + 1), l[k % n])
    elif op == 5 and n:
        return ident(l.pop(i % n), objs)
    elif op == 6 and n:
        l[i % n] = l[k % n]
    elif op == 7:
        l.extend(list(l[:k % 3]))
    elif op == 8:
        return [ident(x, objs) for x in l[::-1]], [ident(x, objs) for x in l], len(l)
    elif op == 9 and n:
        return l.index(l[i % n]), l.count(l[k % n]), l[k % n] in l
    elif op == 10 and n:
        v = l[i % n]
        if not is_obj(v) and not isinstance(v, (list, dict, tuple)):
            l[i % n] = other(v, k)
    elif op == 11:
        l += list(l[:k % 2])
    return None


def ident(v, objs):
    """something comparable that stands for v"""
    if is_obj(v):
        for i, o in enumerate(objs):
            if o is v:
                return 'object %d' % i
        return type(v).__name__
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [ident(x, objs) for x in v]
    return type(v).__name__, repr(v)


def apply_edit(f, objs, e):
    """objs: everything paired up so far, in the same order on either side"""
    kind, oi, fi, i, k = e
    o = pick(objs, oi)
    names = None
    if kind == 'root':
        o = f.content
    elif kind == 'list':
        # one of the lists of the document
        c = [(x, n) for x in objs for n in places(x) if isinstance(getattr(x, n), list)]
        # those of references and helpers most of all
        c += 3 * [(x, n) for x, n in c if isinstance(getattr(x, n), avb.core.AVBRefList) or n in ('tracks', 'control_points', 'parameters')]
        if not c:
            return
        o, n = pick(c[::-1], oi)
        names = [n]
    if isinstance(o, dict) and kind != 'copy':
        keys = list(o.keys())
        op = fi % 6
        if op == 0:
            o['new%d' % (k % 3)] = pick([5, 'text', bytearray(b'data'), None, -1, ''], i)
        elif op == 1 and keys:
            del o[pick(keys, i)]
        elif op == 2 and keys:
            key = pick(keys, i)
            if not is_obj(o[key]):
                o[key] = other(o[key], k)
        elif op == 3:
            return [(x, ident(y, objs)) for x, y in o.items()]
        elif op == 4 and keys:
            v = o[pick(keys, i)]
            if isinstance(v, bytearray):
                v.append(k % 256)
                o.mark_modified()
        elif op == 5:
            o['ref%d' % (k % 2)] = pick([x for x in objs if getattr(x, 'class_id', None) and x.class_id not in (b'ABIN', b'BINF') and not reaches(x, o)] or [None], i)
        return sorted(keys)
    if kind == 'copy':
        if getattr(o, 'class_id', None) in (b'ABIN', b'BINF'):
            return
        c = o.copy(f)
        f.content.attributes['copy%d' % (k % 3)] = c if getattr(c, 'class_id', None) else None
        return type(c).__name__
    if isinstance(o, list):
        return edit_list(o, fi % 12, i, k, objs, o)
    names = names or places(o)
    if not names:
        return
    n = pick(names, fi)
    v = getattr(o, n)
    if isinstance(v, list):
        r = None
        if v and is_obj(v[0]) and not getattr(v[0], 'class_id', None) and k % 2:
            h = v[i % len(v)]
            hn = places(h)
            if hn:
                m = pick(hn, k // 2)
                x = getattr(h, m)
                if isinstance(x, list):
                    r = edit_list(x, i % 12, k, i, objs, o)
                elif not is_obj(x):
                    setattr(h, m, other(x, k))
        elif v and isinstance(v[0], list) and k % 2:
            r = edit_list(v[i % len(v)], k % 12, i, k, objs, o)
        else:
            r = edit_list(v, k % 12, i, k // 12, objs, o)
        if not isinstance(v, avb.core.AVBRefList):
            o.mark_modified()
        return r
    if isinstance(v, bytearray) and k % 2:
        v.extend(b'ab')
        o.mark_modified()
    elif is_obj(v):
        if k % 3 == 0:
            setattr(o, n, None)
        else:
            same = [x for x in objs if getattr(x, 'class_id', None) == v.class_id and not reaches(x, o)]
            setattr(o, n, pick(same or [None], i))
    elif isinstance(v, tuple):
        setattr(o, n, v)
    else:
        setattr(o, n, other(v, k))
    return


def save(f, order, name):
    p = os.path.join(os.environ['EXT_SCRATCH'], name)
    try:
        f.write(p, order)
        with open(p, 'rb') as fh:
            return fh.read()
    finally:
        if os.path.exists(p):
            os.remove(p)


def parts(v):
    """objects that v refers to"""
    if isinstance(v, avb.utils.AVBObjectRef):
        v = v.value
    if v is None:
        return []
    if getattr(v, 'class_id', None):
        return [v]
    r = []
    if isinstance(v, (list, tuple)):
        for x in v:
            r += parts(x)
    elif isinstance(v, dict):
        for x in v.values():
            r += parts(x)
    elif hasattr(v, 'property_data'):
        r += parts(v.property_data)
    return r


def reaches(x, o):
    seen, stack = set(), [x]
    while stack:
        x = stack.pop()
        if x is o:
            return True
        if id(x) not in seen:
            seen.add(id(x))
            stack += inside(x)
    return False


def inside(x):
    r = []
    if isinstance(x, list):
        r += [z for y in x for z in parts(y)]
    if isinstance(x, dict):
        r += [z for y in x.values() for z in parts(y)]
    if hasattr(x, 'property_data'):
        r += parts(x.property_data)
    return r


def tame(o, limit=400):
    """walking o does not loop or take forever"""
    size = {}

    def go(x):
        if id(x) in size:
            return size[id(x)]
        size[id(x)] = limit
        n = 1
        for y in inside(x):
            n += go(y)
            if n >= limit:
                break
        size[id(x)] = min(n, limit)
        return size[id(x)]
    try:
        return go(o) < limit
    except RecursionError:
        return False


def query(f, o, objs, k, walk):
    """what the library derives from an object"""
    def num(fn):
        try:
            return ident(fn(), objs)
        except Exception as e:
            return type(e).__name__
    if o is f.content or isinstance(o, dict):
        return num(lambda: [ident(m, objs) for m in f.content.mobs])
    cid = getattr(o, 'class_id', None)
    r = [num(lambda: o.media_kind), num(lambda: repr(o).split(' at 0x')[0].split('<')[0])]
    if cid == b'PRCL':
        r += [num(lambda: o.value_at(k / 8.0)), num(lambda: o.nearest_index(k / 8.0)), num(lambda: o.interp), num(lambda: o.value_type_name)]
        r += [num(lambda: [(p.time, sorted(p.point_properties.items())) for p in o.control_points])]
    elif cid == b'SEQU':
        r += [num(lambda: o.length), num(lambda: [(i, n) for i, n, c in o.positions()]), num(lambda: o.nearest_component_at_time(k))]
    elif cid == b'SCLP':
        r += [num(lambda: o.mob), num(lambda: o.track)]
    elif cid == b'CMPO':
        r += [num(lambda: o.mob_type), num(lambda: o.usage)]
        if walk:
            r += [num(lambda: sorted(str(ident(m, objs)) for m in o.dependant_mobs()))]
    elif isinstance(o, list):
        r += [num(lambda: [ident(x, objs) for x in o])]
    if hasattr(o, 'tracks'):
        r += [num(lambda: [(t.media_kind, t.flags) for t in o.tracks])]
    return r


def diff(data, edits, order):
    """-> ('bad', text) or ('ok', [(saved by one, saved by the other)], counts)"""
    fa, fb = avb.open(io.BytesIO(data)), avb.open(io.BytesIO(data), use_ext=False)
    used = set()
    count_native(fa, used)
    ra, rb = both(lambda: fa.content, lambda: fb.content)
    if ra[0] != rb[0]:
        return 'bad', 'content: %s, with the reference readers %s' % (show(ra), show(rb))
    p = Pair(True)
    p.run(ra[1], rb[1], 'content')
    as_, bs = [x for x, y in p.list], [y for x, y in p.list]
    done, saves = 0, []
    for n, e in enumerate(list(edits) + [('save', 0, 0, 0, 0)]):
        if e[0] == 'save':
            if not tame(fb.content, 5000):
                continue
            ra, rb = both(lambda: save(fa, order, 'a.avb'), lambda: save(fb, order, 'b.avb'))
            if ra[0] != rb[0] or (ra[0] == 'raises' and ra[1] != rb[1]):
                return 'bad', 'saving after %d edits: %s, with the reference readers %s' % (n, show(ra), show(rb))
            if ra[0] == 'value':
                saves.append((ra[1], rb[1]))
            continue
        if e[0] == 'drop':
            # edits last although nothing refers to the objects
            del as_[:], bs[:]
            p = ra = rb = known = x = y = None
            gc.collect()
            gc.collect()
            p = Pair(True)
            p.run(fa.content, fb.content, 'content after dropping the objects, %d edits' % n)
            as_, bs = [x for x, y in p.list], [y for x, y in p.list]
            continue
        if e[0] == 'query':
            i = e[1] % len(as_)
            # the mobs of a document can refer to each other
            walk = tame(fb.content)
            ra, rb = query(fa, as_[i], as_, e[4], walk), query(fb, bs[i], bs, e[4], walk)
            if ra != rb:
                return 'bad', 'query %d of %s: %r, with the reference readers %r' % (n, type(as_[i]).__name__, ra, rb)
            continue
        if e[0] == 'copy' and not tame(pick(bs, e[1])):
            continue
        ra, rb = both(lambda: apply_edit(fa, as_, e), lambda: apply_edit(fb, bs, e))
        if ra[:2] != rb[:2]:
            return 'bad', 'edit %d %r: %s, with the reference readers %s' % (n, e, show(ra), show(rb))
        done += ra[0] == 'value'
        p = Pair(True)
        p.run(fa.content, fb.content, 'content after edit %d %r' % (n, e))
        known = set(id(x) for x in as_)
        for x, y in p.list:
            if id(x) not in known:
                as_.append(x)
                bs.append(y)
    return 'ok', saves, dict(objects=len(as_), edits=done, native=sorted(used))


def count_native(f, used):
    """note which classes are read natively"""
    readers = getattr(f, 'fast_readers', None)
    if isinstance(readers, dict):
        def wrap(cid, fn):
            def call(*a):
                used.add(cid)
                return fn(*a)
            return call
        try:
            f.fast_readers = {k: wrap(k, v) for k, v in readers.items()}
        except AttributeError:
            pass
    return used


def fuzz(data, indices):
    """reads single objects from damaged files; -> outcomes, 'bad' when the native result is neither an error nor the reference's"""
    fa, fb = avb.open(io.BytesIO(data)), avb.open(io.BytesIO(data), use_ext=False)
    used = set()
    count_native(fa, used)
    stats = dict(native=used, refused=0, read=0, stricter=0)
    for i in indices:
        rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        ra, rb = both(lambda: fa.read_object(i), lambda: fb.read_object(i))
        grown = (resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - rss) >> 10
        if grown > 128 + len(data) // 512 and 'EXT_AS' in os.environ:
            return 'bad', 'object %d: reading it took %d MB' % (i, grown)
        if ra[0] == 'raises':
            if ra[1] in ('SystemError', 'RecursionError'):
                return 'bad', 'object %d: %s' % (i, show(ra))
            stats['refused' if rb[0] == 'raises' else 'stricter'] += 1
            continue
        if rb[0] == 'raises':
            return 'bad', 'object %d: read natively, but the reference readers %s' % (i, show(rb))
        stats['read'] += 1
        if ra[1] is None or rb[1] is None:
            if ra[1] is not rb[1]:
                return 'bad', 'object %d: %s, with the reference readers %s' % (i, show(ra), show(rb))
            continue
        p = Pair(False)
        if ra[1].class_id != rb[1].class_id:
            return 'bad', 'object %d: class' % i
        p.content(ra[1], rb[1], 'object %d' % i)
    stats['native'] = sorted(used)
    return 'ok', stats


def main():
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        req = pickle.loads(inp.read(struct.unpack('<I', h)[0]))
        try:
            if req[0] == 'hello':
                import avb._ext  # noqa
                ans = ('ready',) if avb.file.READERS else ('harness', 'no native readers')
            elif req[0] == 'zone':
                os.environ['TZ'] = req[1]
                import time
                time.tzset()
                ans = ('ok',)
            elif req[0] == 'diff':
                try:
                    ans = diff(*req[1:])
                except Diff as e:
                    ans = ('bad', str(e))
            elif req[0] == 'fuzz':
                try:
                    ans = fuzz(*req[1:])
                except Diff as e:
                    ans = ('bad', str(e))
            else:
                ans = ('harness', 'request')
        except Exception:
            ans = ('harness', traceback.format_exc())
        data = pickle.dumps(ans, 4)
        out.write(struct.pack('<I', len(data)) + data)
        out.flush()


main()
