"""Damaged or foreign files are rejected with an error, never misread or hung on."""
import gc
import io
import os
import resource
import struct
import sys
import tempfile
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'the damage leaves at least one object, or the whole file, without a meaning in the format'
ASSUMPTIONS = [
    'a negative count may be read as none, a repeated extension as the last of them, a repeated attribute name as its '
    'last value; redundant length words, a partial last line number, the outer null characters of text, bytes after the last object and the '
    'reserved header bytes carry no meaning',
    'a rate whose power of ten no double can hold may be refused',
    'a reference to an existing object of an unexpected class is not damage',
]
ROOM = 400 << 20


def tame(v):
    """no rate a double cannot hold"""
    if isinstance(v, R.Dec):
        return abs(v.exp) < 290
    if isinstance(v, dict):
        return all(tame(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(tame(x) for x in v)
    return True


def has_broken(cid, n, v, m, broken):
    """does this field refer to a broken object"""
    found = []
    q = {n: v}
    if 'value_type' in m:
        q['value_type'] = m['value_type']
    R.map_refs(cid, q, lambda r: found.append(r) or '#')
    return any(r in broken for r in found)


def same_refs(exp, got):
    return exp == got


def compare(f, obj, i, doc, broken):
    """obj was read as object i: every field has the value the bytes mean"""
    cid, m = doc.objs[i]
    where = '%s (object %d)' % (cid.decode(), i)
    if bytes(obj.class_id) != cid:
        raise Violation('%s read as %r' % (where, obj.class_id))

    def idof(x):
        return x.instance_id
    if cid in (b'ATTR', b'PRLS', b'TMCS'):
        ent = m['entries']
        if len(obj) != len(ent):
            raise Violation('%s: %d entries, expected %d' % (where, len(obj), len(ent)))
        if cid == b'ATTR' and list(obj.keys()) != [e[0] for e in ent]:
            raise Violation('%s: names differ' % where)
        for j, e in enumerate(ent):
            k, r = (e[0], e[2] if e[1] == 3 else None) if cid == b'ATTR' else (j, e)
            if r in broken:
                must_raise(lambda: obj[k], '%s: entry %r is object %d, which is damaged' % (where, k, r))
                continue
            got = obj[k]
            if cid == b'ATTR':
                q = B.attr_plain({k: got}, idof)[0]
                B.val_eq(e, q, '%s[%r]' % (where, k))
            else:
                B.val_eq(e, None if got is None else idof(got), '%s[%d]' % (where, j))
        return
    plain = {}
    for n, t, opt in R.fields(cid):
        if n not in m:
            if hasattr_safe(obj, n):
                raise Violation('%s: has %s, which is not in the file' % (where, n))
            continue
        if has_broken(cid, n, m[n], m, broken):
            def touch():
                B.to_plain(t, getattr(obj, n), idof, m)
            must_raise(touch, '%s.%s refers to a damaged object' % (where, n))
            continue
        plain[n] = B.to_plain(t, getattr(obj, n), idof, m)
    exp = {k: v for k, v in m.items() if k in plain}
    B.val_eq(B.sort_tracks(exp), B.sort_tracks(plain), where)


def hasattr_safe(o, n):
    try:
        return hasattr(o, n)
    except Exception:
        return True


def must_raise(fn, what):
    try:
        fn()
    except B.Mismatch:
        raise
    except MemoryError:
        raise Violation('memory exhausted: ' + what)
    except Exception:
        return
    raise Violation('no error: ' + what)


class Limit(object):
    """memory out of proportion to these small files is a failure"""
    def __enter__(self):
        with open('/proc/self/statm') as s:
            now = int(s.read().split()[0]) * resource.getpagesize()
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        room = now + ROOM
        if self.old[1] != resource.RLIM_INFINITY:
            room = min(room, self.old[1])
        resource.setrlimit(resource.RLIMIT_AS, (room, self.old[1]))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_AS, self.old)


def judge(ctx, data, reads, how, sure):
    """open data and read its objects in the order 'reads'; sure: the header is as it was"""
    try:
        doc, broken = R.decode_damaged(data)
        why = None
    except (R.FormatError, UnicodeError) as e:
        doc, why = None, str(e)
    path = ctx.path('bad.avb')
    if how != 'bytes':
        with open(path, 'wb') as o:
            o.write(data)
    f = None
    try:
        with Limit():
            try:
                if how == 'bytes':
                    f = C.open_bytes(data)
                else:
                    f = avb.open(path)
            except MemoryError:
                raise Violation('opening takes memory out of all proportion')
            except Exception as e:
                if doc is None:
                    ctx.label('refused at opening')
                    return True
                root = doc.objs[doc.root][1]
                if sure and doc.root in doc.exact and tame(root):
                    raise Violation('an undamaged root is refused: %s: %s' % (type(e).__name__, e))
                ctx.label('ambiguous file refused')
                return bool(broken)
            if doc is None:
                raise Violation('opened although %s' % why)
            if B.stamp_of(f.last_save) != doc.last_save or f.creator_version.strip('\0') != doc.creator:
                raise Violation('header misread: %r %r' % (f.last_save, f.creator_version))
            n = len(doc.positions) - 1
            got = set()
            wild = set(i for i in doc.objs if not (i in doc.exact and tame(doc.objs[i][1])))
            refused = set()
            # which objects can be read at all; a refusal must repeat itself
            for rep in range(2):
                for r in reads:
                    i = r % n + 1
                    try:
                        o = f.read_object(i)
                    except MemoryError:
                        raise Violation('reading object %d takes memory out of all proportion' % i)
                    except Exception as e:
                        if i in broken or i in wild:
                            if i in got:
                                raise Violation('object %d was read before, now it is refused' % i)
                            refused.add(i)
                            continue
                        raise Violation('undamaged object %d (%s) is refused: %s: %s' % (
                            i, doc.objs[i][0].decode(), type(e).__name__, e))
                    if i in broken:
                        raise Violation('object %d (%r) is read although: %s' % (i, doc.positions[i][0], broken[i]))
                    if i in refused:
                        raise Violation('object %d was refused before, now it is read' % i)
                    got.add(i)
            # an ambiguous object counts as damaged if the library says so
            for i in wild:
                if i not in got:
                    try:
                        f.read_object(i)
                        got.add(i)
                    except Exception:
                        refused.add(i)
            bad = set(broken) | refused
            todo = sorted(set(r % n + 1 for r in reads) | {doc.root})
            for i in todo:
                if i in bad:
                    must_raise(lambda: f.read_object(i), 'object %d is damaged' % i)
                else:
                    compare(f, f.read_object(i), i, doc, bad)
            # an undamaged object still takes edits that last
            for i in todo:
                ints = [] if i in bad or i == doc.root else [n for n, t, o in R.fields(doc.objs[i][0])
                                                             if n in doc.objs[i][1] and t is R.S32]
                if ints:
                    o = f.read_object(i)
                    for j in bad:
                        must_raise(lambda: f.read_object(j), 'object %d is damaged' % j)
                    setattr(o, ints[0], 77)
                    o = None
                    if getattr(f.read_object(i), ints[0]) != 77:
                        raise Violation('an edit of undamaged object %d is lost' % i)
                    setattr(f.read_object(i), ints[0], doc.objs[i][1][ints[0]])
                    break
            # enumeration still sees every object
            ch = [(bytes(c.class_id), c.pos, c.size) for c in f.chunks()]
            if ch != doc.positions:
                raise Violation('chunks differ: %r, expected %r' % (ch, doc.positions))
            for i, c in enumerate(f.chunks()):
                if i:
                    if c.pos + c.size > len(data):
                        must_raise(c.read, 'chunk %d is cut short' % i)
                    elif bytes(c.read()) != data[c.pos:c.pos + c.size]:
                        raise Violation('chunk %d has other bytes' % i)
            # a document with a damaged part cannot be saved as if it were whole
            seen, stack = set(), [doc.root]
            while stack:
                k = stack.pop()
                if k in seen:
                    continue
                seen.add(k)
                if k not in bad:
                    stack.extend(R.refs_of(*doc.objs[k]))
            if seen & bad:
                out = ctx.path('out.avb')
                must_raise(lambda: f.write(out), 'saving a document whose object %d is damaged' % min(seen & bad))
                if os.path.exists(out):
                    raise Violation('a failed save left a file')
                ctx.label('save refused')
    finally:
        if f is not None:
            f.close()
        for x in ('bad.avb', 'out.avb'):
            if os.path.exists(ctx.path(x)):
                os.remove(ctx.path(x))
    for i in broken:
        ctx.label('broken:' + doc.positions[i][0].decode('latin1') if doc.positions[i][0] in R.KINDS else 'broken:unknown')
    return bool(broken)


# --------------------------------------------------------------- damage to bytes
EXTREMES = [0, 1, -1, 2, 3, 127, 128, 255, 256, 32767, -32768, 65535, 2 ** 31 - 1, -2 ** 31, 10 ** 6, 2 ** 32 - 2, 2 ** 24, 1 << 28]
FMT = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}

edit = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 1 << 16), st.integers(0, 7)),
    st.tuples(st.just('put'), st.integers(0, 1 << 16), st.sampled_from([0, 1, 2, 3, 65, 66, 68, 69, 71, 72, 75, 76, 80, 127, 128,
                                                                        255, 14, 15])),
    st.tuples(st.just('word'), st.integers(0, 1 << 16), st.sampled_from([2, 4, 4, 8]), st.sampled_from(EXTREMES)),
    st.tuples(st.just('add'), st.integers(0, 1 << 16), st.sampled_from([1, 2, 4]), st.sampled_from([-1, 1, 2, -2, 4, 16])),
    st.tuples(st.just('cut'), st.integers(0, 1 << 16), st.sampled_from([1, 1, 2, 4, 3, 8])),
    st.tuples(st.just('ins'), st.integers(0, 1 << 16), st.binary(min_size=1, max_size=6)),
    st.tuples(st.just('end'), st.integers(0, 1 << 16)),
    st.tuples(st.just('tail'), st.sampled_from([b'\x03', b'\0', b'\x01', b'\x02\x01', b'\xff' * 9, b'\x01\x01'])),
    st.tuples(st.just('dup'), st.integers(0, 1 << 16), st.integers(1, 12)),
    st.tuples(st.just('swap'), st.integers(0, 1 << 16)),
)


def damage(data, e, order, near=0):
    d = bytearray(data)
    n = len(d)
    if e[0] == 'tail':
        return bytes(d + e[1])
    if not n:
        return bytes(d)
    p = e[1] % n
    if near:
        # half of the edits close to the end: the last fields and the terminator
        p = n - 1 - e[1] % min(n, near)
    if e[0] == 'flip':
        d[p] ^= 1 << e[2]
    elif e[0] == 'put':
        d[p] = e[2]
    elif e[0] in ('word', 'add'):
        w = e[2]
        if p + w > n:
            p = max(0, n - w)
        if p + w <= n:
            o = '<' if order == 'little' else '>'
            v = e[3] if e[0] == 'word' else struct.unpack(o + FMT[w], d[p:p + w])[0] + e[3]
            d[p:p + w] = struct.pack(o + FMT[w], v & ((1 << 8 * w) - 1))
    elif e[0] == 'cut':
        del d[p:p + e[2]]
    elif e[0] == 'ins':
        d[p:p] = e[2]
    elif e[0] == 'end':
        del d[p:]
    elif e[0] == 'dup':
        d[p:p] = d[p:p + e[2]]
    elif e[0] == 'swap' and p + 1 < n:
        d[p], d[p + 1] = d[p + 1], d[p]
    return bytes(d)


KEYS = [(c, vt) for c in R.ALLKINDS if c not in (b'ABIN', b'BINF') for vt in ((1, 2, 4) if c in (b'PRCL', b'PRIT') else (1,))]
hows = st.sampled_from(['bytes', 'bytes', 'path'])


@st.composite
def one_cases(draw):
    key = draw(st.sampled_from(KEYS))
    full = draw(st.booleans())
    edits = draw(st.lists(edit, min_size=1, max_size=2))
    return key, full, edits, draw(st.sampled_from([0, 0, 0, 8, 40])), draw(st.sampled_from(['little', 'big'])), \
        draw(st.integers(0, 3)), draw(hows)


def one(ctx, case):
    """one object of each kind with every field, its bytes damaged"""
    (c, vt), full, edits, near, order, place, how = case
    m = L.full_model(c, vt)
    if not full:
        z = R.zero_model(c, False)
        if 'value_type' in z or c in (b'ATTR',):
            z = m
        m = z
    doc = L.wrap([(c, m), (b'FILL', L.full_model(b'FILL'))], order)
    ids = list(doc.objs)
    fo = ids[place:] + ids[:place]
    data, refmap = R.encode_file(doc, fo)
    p = R.encode_file.positions[refmap[1]]
    body = data[p[1]:p[1] + p[2]]
    for e in edits:
        body = damage(body, e, order, near)
    doc.objs[1] = (c, body)
    data, refmap = R.encode_file(doc, fo)
    if body == b'':
        ctx.label('emptied')
    return judge(ctx, data, [refmap[1] - 1] + list(range(len(ids))), how, True)


@st.composite
def doc_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=2, max_objs=8))
    ks = list(doc.objs)
    fo = list(draw(st.permutations(ks)) if draw(st.booleans()) else ks)
    hits = []
    for i in range(draw(st.integers(1, 2))):
        k = draw(st.sampled_from(ks))
        what = draw(st.sampled_from(['edit', 'edit', 'ref', 'class', 'body', 'empty', 'root']))
        if what == 'root':
            k, what = doc.root, 'edit'
        if what == 'edit':
            hits.append((k, what, draw(st.lists(edit, min_size=1, max_size=2)), draw(st.sampled_from([0, 0, 30]))))
        elif what == 'ref':
            hits.append((k, what, draw(st.integers(0, 50)), draw(st.sampled_from([1, 2, 100, 2 ** 31 - 20, 2 ** 31, 2 ** 32 - 20]))))
        elif what == 'class':
            hits.append((k, what, draw(st.sampled_from([b'ZZZZ', b'\0\0\0\0', b'FILL', b'ATTR', b'OBJD', b'TRKG', b'CMPO', b'abin']))))
        elif what == 'body':
            hits.append((k, what, draw(st.sampled_from(ks))))
        else:
            hits.append((k, what))
    reads = draw(st.lists(st.integers(0, len(ks) - 1), min_size=1, max_size=12))
    return doc, fo, hits, reads + (list(range(len(ks))) if draw(st.booleans()) else []), draw(hows)


def strike(doc, fo, hits):
    data, refmap = R.encode_file(doc, fo)
    pos = R.encode_file.positions
    bodies = {k: data[pos[refmap[k]][1]:pos[refmap[k]][1] + pos[refmap[k]][2]] for k in doc.objs}
    new = R.Doc(type(doc.objs)((k, (c, bodies[k])) for k, (c, m) in doc.objs.items()), doc.root, doc.order,
                doc.last_save, doc.creator)
    for h in hits:
        k, what = h[:2]
        c, body = new.objs[k]
        if what == 'edit':
            for e in h[2]:
                body = damage(body, e, doc.order, h[3])
        elif what == 'class':
            c = h[2]
        elif what == 'body':
            body = bodies[h[2]]
        elif what == 'empty':
            body = b''
        elif what == 'ref':
            cid, m = doc.objs[k]
            places = [p for p, t in L.leaves(cid, m) if isinstance(t, R.Ref)] if not isinstance(m, bytes) else []
            if places:
                m2 = G.copy_model(m)
                L.put(m2, places[h[2] % len(places)], 'bad')
                rm = dict(refmap)
                rm['bad'] = min(len(refmap) + h[3], 2 ** 32 - 1)
                body = R.encode_chunk(cid, m2, doc.order, rm)
        new.objs[k] = (c, body)
    return R.encode_file(new, fo)[0]


def documents(ctx, case):
    doc, fo, hits, reads, how = case
    return judge(ctx, strike(doc, fo, hits), reads, how, True)


# ------------------------------------------------------------------ damage to files
@st.composite
def file_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=2, legacy_ids=False), min_objs=1, max_objs=5))
    ks = list(doc.objs)
    fo = list(draw(st.permutations(ks)) if draw(st.booleans()) else ks)
    where = draw(st.sampled_from(['header', 'header', 'size', 'any', 'cut', 'cut', 'cut', 'fields']))
    if where == 'fields':
        e = draw(st.tuples(st.sampled_from(['count', 'root']), st.sampled_from([0, 1, 2, 3, len(ks), len(ks) + 1, 255, 65536, 2 ** 28,
                                                                               2 ** 32 - 1])))
    elif where == 'cut':
        e = ('end', draw(st.integers(0, 1 << 16)))
    elif where == 'size':
        e = (draw(st.integers(1, len(ks))), draw(st.sampled_from([-1, 1, 4, -4, 8, 100, 2 ** 31, 2 ** 32 - 1, 2 ** 30, 0])))
    else:
        e = draw(edit)
    return doc, fo, where, e, draw(st.lists(st.integers(0, 30), min_size=1, max_size=6)), draw(hows)


def files(ctx, case):
    doc, fo, where, e, reads, how = case
    data, refmap = R.encode_file(doc, fo)
    pos = R.encode_file.positions
    head = pos[0][1] + pos[0][2]
    if where == 'header':
        data = damage(data[:head], e, doc.order) + data[head:]
    elif where == 'size':
        i, delta = e
        p = pos[i][1] - 4
        o = '<' if doc.order == 'little' else '>'
        data = data[:p] + struct.pack(o + 'I', min(max(pos[i][2] + delta, 0), 2 ** 32 - 1)) + data[p + 4:]
    elif where == 'fields':
        o = '<' if doc.order == 'little' else '>'
        p = 8 + 4 + 2 + 7 + 1 + 2 + 19 + (4 if e[0] == 'root' else 0)
        data = data[:p] + struct.pack(o + 'I', e[1]) + data[p + 4:]
    else:
        data = damage(data, e, doc.order)
    ctx.label('where:' + where)
    return judge(ctx, data, reads, how, False)


_bytes = {}


def samples(ctx, case):
    """the repository's sample bins, damaged"""
    n, es, reads, how = case
    paths = G.sample_paths()
    p = paths[n % len(paths)]
    if p not in _bytes:
        _bytes[p] = C.read(p)
    data = _bytes[p]
    for where, e in es:
        # damage falls anywhere: positions of the drawn edits are stretched over the file
        e = list(e)
        if len(e) > 1 and isinstance(e[1], int):
            e[1] = e[1] * len(data) // (1 << 16) + where
        data = damage(data, tuple(e), 'little')
    return judge(ctx, data, reads, how, False)


sample_cases = st.tuples(st.integers(0, 20), st.lists(st.tuples(st.integers(0, 40), edit), min_size=1, max_size=3),
                         st.lists(st.integers(0, 300), min_size=1, max_size=60), hows)


def foreign_cases():
    magic = [b'', b'\x06\0Domain', b'\0\x06Domain', b'\x06\0DomainDJBO\x07\0AObjDoc\x04', b'\0\x06DomainOBJD\0\x07AObjDoc\x04',
             b'PK\x03\x04', b'RIFF', b'\x06\x0e+4', b'Domain', b'\x06\0domain', b'\xff\xfe', b'<?xml']
    return st.tuples(st.sampled_from(magic), st.one_of(st.binary(max_size=200), st.binary(max_size=40).map(lambda b: b * 50)),
                     hows)


def foreign(ctx, case):
    magic, rest, how = case
    return judge(ctx, magic + rest, [0], how, False)


# ------------------------------------------------------------------ everywhere
PIECES = [('ins', b'\x01\x7f'), ('ins', b'\0'), ('ins', b'\x01'), ('ins', b'\x03'), ('ins', b'\x01\x01'), ('ins', b'\x01\x02\x42\x01'),
          ('ins', b'\xff\xff\xff\xff'), ('del', 1), ('del', 2), ('del', 4), ('del', 8), ('flip', 1), ('flip', 128), ('flip', 255)]


def pieced(b, op):
    """the same small damage at every place"""
    if op[0] == 'ins':
        return [b[:i] + op[1] + b[i:] for i in range(len(b) + 1)]
    if op[0] == 'del':
        return [b[:i] + b[i + op[1]:] for i in range(len(b))]
    return [b[:i] + bytes([b[i] ^ op[1]]) + b[i + 1:] for i in range(len(b))]


BINS = [(c, large) for c in (b'ABIN', b'BINF') for large in ('small', 'large')]


def everywhere(ctx, case):
    """one small damage at every place of a complete object, each in an object of its own"""
    (c, vt), order, op = case
    if c in (b'ABIN', b'BINF'):
        m = L.full_model(c)
        m['large_bin'] = vt == 'large'
        m['items'] = [R.OrderedDict((n, R.zero(t)) for n, t in R.BinHead.ITEM.fields) for i in range(2)]
    else:
        m = L.full_model(c, vt)
    body = R.encode_chunk(c, m, order, {None: 0})
    bodies = pieced(body, op)
    objs = type(L.wrap([]).objs)(((('x', i)), (c, b)) for i, b in enumerate(bodies))
    doc = L.wrap([], order)
    objs.update(doc.objs)
    new = R.Doc(objs, doc.root, order, doc.last_save, doc.creator)
    return judge(ctx, R.encode_file(new, list(objs))[0], list(range(len(objs))), 'bytes', True)


SUBS = [
    Sub('everywhere', st.tuples(st.sampled_from(KEYS + BINS), st.sampled_from(['little', 'big']), st.sampled_from(PIECES)), everywhere, quick=60,
        thorough=1500, cpu_limit=60),
    Sub('one_object', one_cases(), one, quick=9000, cpu_limit=20),
    Sub('documents', doc_cases(), documents, quick=3500, cpu_limit=20),
    Sub('files', file_cases(), files, quick=4000, cpu_limit=20),
    Sub('samples', sample_cases, samples, quick=800, cpu_limit=20),
    Sub('foreign', foreign_cases(), foreign, quick=1500, cpu_limit=20),
]


def EXAMPLES(tier):
    r = []
    for i, k in enumerate(KEYS + BINS):
        for j, op in enumerate(PIECES):
            for order in (['little', 'big'] if tier == 'thorough' else [['little', 'big'][(i + j) % 2]]):
                r.append(('everywhere', (k, order, op)))
    return r
