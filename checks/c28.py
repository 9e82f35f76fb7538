"""Reading retains nothing; closing and failing to open release everything."""
import gc
import io
import os
import weakref
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.core
import gen as G
import refspec as R
import bridge as B
import common as C
import nav as N
import edits as E
from c05 import look
from c08 import damage, edit
from runner import Sub, Violation

RULE = 'released: at least five objects besides the root were reached and dropped; open and closed: a descriptor was opened by the library'
ASSUMPTIONS = [
    'the bin itself stays alive with its document, and looking mobs up by identifier may keep the mobs of the bin',
    'memory is reclaimed when the garbage collector has run',
    'new objects are kept by their document until they are gone with it',
    'a file object handed to the library is closed along with the document; after a failed opening it is left to the program',
]


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a)


def worker_setup(ctx):
    gc.collect()
    gc.freeze()


def fds():
    r = []
    for x in os.listdir('/proc/self/fd'):
        try:
            r.append((x, os.readlink('/proc/self/fd/' + x)))
        except OSError:
            pass
    return r


def opened_in(d):
    return sorted(t for n, t in fds() if t.startswith(d))


# ------------------------------------------------------------------ released
@st.composite
def visits(draw, max_objs=9, min_objs=2):
    doc = draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=min_objs, max_objs=max_objs))
    key = st.sampled_from(list(doc.objs))
    classes = st.lists(st.sampled_from(sorted(set(c for c, m in doc.objs.values()))), min_size=1, max_size=4, unique=True)
    op = st.one_of(
        st.tuples(st.just('ref'), key, st.integers(0, 1)),
        st.tuples(st.just('ref'), key, st.integers(0, 1)),
        st.tuples(st.just('idx'), key),
        st.tuples(st.just('enum'), classes),
        st.tuples(st.just('some'), classes),
        st.tuples(st.just('mobs')), st.tuples(st.just('lists')), st.tuples(st.just('walk'), key),
        st.tuples(st.just('chunks')), st.tuples(st.just('snapshot')),
        st.tuples(st.just('copy'), key),
        st.tuples(st.just('save'), st.sampled_from(['little', 'big'])),
        st.tuples(st.just('failed save')),
        st.tuples(st.just('all')),
        st.tuples(st.just('hold'), key), st.tuples(st.just('hold'), key),
        st.tuples(st.just('edit'), key),
        st.tuples(st.just('check')))
    return doc, draw(st.lists(op, min_size=3, max_size=15)), draw(st.sampled_from(['path', 'bytes', 'buf0']))


def plain_field(cid, m):
    for n, t, opt in G.fields(cid)[0]:
        if n in m and isinstance(t, (R.Int, R.Bool, R.Str)) and not (isinstance(t, R.Str) and t.none):
            return n
    return None


def released(ctx, case):
    """a document walked in every way; what the program does not hold is gone"""
    doc, ops, how = case
    data, refmap = R.encode_file(doc)
    path = ctx.path('src.avb')
    with open(path, 'wb') as o:
        o.write(data)
    f = C.open_bytes(data) if how == 'bytes' else avb.open(path, **(dict(buffering=0) if how == 'buf0' else {}))
    seen = {}             # weak references to everything reached
    held = {}
    edited = set()
    other = avb.open()

    def note(o):
        if o is not f.content and isinstance(o, (avb.core.AVBObject, avb.core.AVBRefList, avb.attributes.Attributes)) and \
           getattr(o, 'class_id', None):
            seen[o.instance_id] = weakref.ref(o)

    def check():
        gc.collect()
        allowed = set(x.instance_id for x in held.values()) | edited | {f.content.instance_id}
        # an object holds on to what the program has put into it, here nothing
        for i, w in list(seen.items()):
            o = w()
            if o is not None and i not in allowed:
                c = o.class_id
                del o
                raise Violation('%s %d is kept, nobody refers to it' % (c.decode(), i))
            if o is None and i in edited:
                raise Violation('object %d was changed and is gone' % i)
            del o
        kept = [i for i in f.object_cache.keys() if i not in allowed]
        need(not kept, 'objects %r are kept, nobody refers to them', kept)
        need(set(f.modified_objects) == edited, 'objects kept as modified: %r, expected %r', sorted(f.modified_objects), sorted(edited))

    try:
        for op in ops:
            what = op[0]
            ctx.label('visit:' + what)
            if what == 'ref':
                o = f.content
                for a in N.path_to(doc, op[1], op[2]):
                    o = N.step(o, a)
                    note(o)
                look(o)
            elif what == 'idx':
                o = f.read_object(refmap[op[1]])
                note(o)
                look(o)
            elif what in ('enum', 'some'):
                it = f.iter_class_ids(op[1])
                for o in it:
                    note(o)
                    look(o)
                    if what == 'some':
                        break
                del it
            elif what == 'mobs':
                for o in f.content.mobs:
                    note(o)
                for q in ('compositionmobs', 'mastermobs', 'toplevel'):
                    try:
                        for o in getattr(f.content, q)():
                            note(o)
                    except ValueError:
                        pass        # mobs of no known type
            elif what == 'lists':
                for i in f.content.items:
                    o = i.mob
                    if o is not None:
                        note(o)
                        list(o.tracks)
                i = None
            elif what == 'walk':
                for o in avb.core.walk_references(f.read_object(refmap[op[1]])):
                    note(o)
            elif what == 'chunks':
                for o in f.chunks():
                    o.read()
            elif what == 'snapshot':
                s = B.snapshot(f)
                del s
            elif what == 'copy':
                if doc.objs[op[1]][0] not in (b'ABIN', b'BINF'):
                    o = f.read_object(refmap[op[1]])
                    note(o)
                    o = o.copy(other)
            elif what == 'save':
                f.write(ctx.path('o.avb'), op[1])
            elif what == 'failed save':
                keep = f.creator_version
                f.creator_version = None
                try:
                    f.write(ctx.path('o.avb'))
                    raise Violation('saved without a creator version')
                except (AttributeError, TypeError):
                    pass
                f.creator_version = keep
            elif what == 'all':
                l = [f.read_object(i) for i in refmap.values() if i]
                for o in l:
                    note(o)
                del l
            elif what == 'hold':
                o = f.read_object(refmap[op[1]])
                note(o)
                if op[1] != doc.root:
                    held[op[1]] = o
            elif what == 'edit':
                n = plain_field(*doc.objs[op[1]]) if doc.objs[op[1]][0] not in (b'ATTR', b'PRLS', b'TMCS') else None
                if n:
                    o = f.read_object(refmap[op[1]])
                    note(o)
                    setattr(o, n, getattr(o, n))
                    edited.add(o.instance_id)
            elif what == 'check':
                o = None
                check()
                if len(held) > 2:
                    held.pop(next(iter(held)))
            o = None
        check()
        held.clear()
        check()
        # the document itself goes with everything in it
        w = weakref.ref(f)
        wr = weakref.ref(f.content)
        f.close()
        f = None
        gc.collect()
        need(w() is None and wr() is None, 'the document is kept although nobody refers to it')
        need(all(x() is None for x in seen.values()), 'objects outlive their document')
        need(not opened_in(ctx.scratch), 'still open: %r', opened_in(ctx.scratch))
    finally:
        if f is not None:
            f.close()
        for x in os.listdir(ctx.scratch):
            if x.endswith('.avb'):
                os.remove(ctx.path(x))
    return len(seen) >= 5


# ---------------------------------------------------------- open and closed
class Boom(Exception):
    pass


@st.composite
def sessions(draw):
    doc = draw(G.documents(G.Opts(maxlist=2, legacy_ids=False), min_objs=1, max_objs=5))
    kind = draw(st.sampled_from(['good', 'good', 'header', 'cut', 'empty', 'other', 'missing', 'directory', 'root']))
    how = draw(st.sampled_from([('path',), ('buffering', 0), ('buffering', 5), ('buffering', 1 << 16), ('fileobj',), ('bytesio',)]))
    leave = draw(st.sampled_from(['close', 'close twice', 'with', 'raise', 'raise in write', 'save over']))
    return doc, kind, how, leave, draw(edit), draw(st.integers(0, 400)), draw(st.booleans())


def sessions_run(ctx, case):
    """documents opened, used and left in every way"""
    doc, kind, how, leave, ed, n, use = case
    data, refmap = R.encode_file(doc)
    if kind == 'header':
        data = damage(data[:min(len(data), 110)], ed, doc.order, 0) + data[110:]
    elif kind == 'cut':
        data = data[:n % len(data)]
    elif kind == 'empty':
        data = b''
    elif kind == 'other':
        data = bytes((i * 37 + n) % 256 for i in range(n))
    elif kind == 'root':
        i = refmap[doc.root]
        p = R.encode_file.positions[i][1]
        data = data[:p] + b'\xee' + data[p + 1:]
    d = ctx.path('dir')
    os.mkdir(d)
    path = os.path.join(d, 's.avb')
    if kind == 'directory':
        os.mkdir(path)
    elif kind != 'missing':
        with open(path, 'wb') as o:
            o.write(data)
        os.utime(path, ns=(10 ** 18, 10 ** 18))
    stat = os.stat(path) if os.path.exists(path) else None
    base = sorted(fds())
    keep = []
    given = None
    mine = False
    made = []
    try:
        if how[0] == 'bytesio':
            given = io.BytesIO(data)
        elif how[0] == 'fileobj' and kind not in ('missing', 'directory'):
            given = open(path, 'rb')
        try:
            if given is not None:
                f = avb.open(given)
            elif how[0] == 'buffering':
                f = avb.open(path, buffering=how[1])
            else:
                f = avb.open(path)
                mine = True
        except Exception as e:
            keep.append(e)          # with everything its traceback refers to
            f = None
        ctx.label('opened' if f else 'not opened', 'kind:' + kind)
        if f is None:
            need(kind != 'good', 'a good file is not opened: %r', keep)
            if given is not None:
                need(not given.closed, 'the file object given was closed by a failed opening')
                given.close()
            need(sorted(fds()) == base, 'left open by a failed opening: %r', sorted(set(fds()) - set(base)))
        else:
            mine = given is None
            objs = []
            if use:
                for i in range(1, len(f.object_positions)):
                    try:
                        objs.append((i, f.read_object(i)))
                    except Exception as e:
                        need(kind != 'good', 'an object of a good file is not read: %r', e)
                    if len(objs) > 1:
                        break
            plain = [B.obj_plain(o, lambda x: '#') for i, o in objs] if kind == 'good' else []
            if leave == 'close':
                f.close()
            elif leave == 'close twice':
                f.close()
                f.close()
            elif leave == 'with':
                with f as g:
                    need(g is f, 'with gives %r', g)
            elif leave == 'raise':
                try:
                    with f:
                        raise Boom()
                except Boom:
                    pass
                else:
                    raise Violation('the exception raised inside with is gone')
            elif leave == 'raise in write':
                try:
                    with f:
                        f.write(os.path.join(d, 'no', 'such', 'directory'))
                except OSError as e:
                    keep.append(e)
                except Exception as e:
                    need(kind != 'good', 'saving raises %r', e)
                else:
                    raise Violation('saved into a directory that is not there')
            elif leave == 'save over':
                with f:
                    try:
                        f.write(os.path.join(d, 'o.avb'))
                        made = ['o.avb']
                    except Exception as e:
                        need(kind != 'good', 'saving raises %r', e)
                        keep.append(e)
            if given is not None:
                need(given.closed, 'the file object is open after closing the document')
            need(sorted(fds()) == base, 'left open: %r', sorted(set(fds()) - set(base)))
            # what was read before stays usable, what was not is not read as something else
            for (i, o), p in zip(objs, plain):
                need(repr(B.obj_plain(o, lambda x: '#')) == repr(p), 'object %d changed by closing', i)
            if kind == 'good':
                have = set(f.object_cache.keys())
                for i in range(1, len(f.object_positions)):
                    if i not in have:
                        try:
                            f.read_object(i)
                        except ValueError:
                            pass
                        else:
                            raise Violation('object %d was read from a closed file' % i)
                        break
            objs = o = None
            f = None
        names = sorted(os.listdir(d))
        need(names == sorted(([] if kind == 'missing' else ['s.avb']) + made), 'files left behind: %r', names)
        if stat is not None:
            s2 = os.stat(path)
            need((s2.st_ino, s2.st_mtime_ns, s2.st_size, s2.st_mode) == (stat.st_ino, stat.st_mtime_ns, stat.st_size, stat.st_mode),
                 'the file opened was touched')
            if kind != 'directory':
                need(C.read(path) == data, 'the file opened was changed')
    finally:
        if given is not None:
            given.close()
        keep.clear()
        for x in os.listdir(d):
            p = os.path.join(d, x)
            os.rmdir(p) if os.path.isdir(p) else os.remove(p)
        os.rmdir(d)
    return mine


SUBS = [
    Sub('released', visits(), released, quick=1000),
    Sub('released_many', visits(max_objs=40, min_objs=15), released, quick=150),
    Sub('sessions', sessions(), sessions_run, quick=2500),
]
