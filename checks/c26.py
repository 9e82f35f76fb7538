"""Saving to a path never destroys the only copy of a document."""
import datetime
import gc
import os
import resource
import signal
import sys
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
import edits as E
import c04
import c10
from runner import Sub, Violation, HarnessError

RULE = 'a save over the file the document was opened from succeeded, or a save onto an existing file failed'
ASSUMPTIONS = ['while a document is open, nothing but its own saves writes to its source file']

ALIASES = ['same', 'same', 'relative', 'dots', 'symlink', 'hardlink', 'slashes', 'symlink2']
FAILS = ['fsize', 'fsize', 'value', 'value', 'foreign', 'order', 'creator', 'source', 'kill', 'kill']

fail = st.tuples(st.just('fail'), st.sampled_from(FAILS), st.integers(0, 65535), st.integers(0, 65535),
                 st.sampled_from(['little', 'big']))
over = st.tuples(st.just('over'), st.sampled_from(ALIASES), st.sampled_from(['little', 'big']))


@st.composite
def cases(draw, most=5):
    start, doc, ops = draw(c04.histories(most=most, max_objs=6))
    out = []
    alias = st.sampled_from(ALIASES + ['other', 'other'])
    for op in ops:
        if op[0] in ('reload', 'save'):
            continue
        w = draw(st.integers(0, 3))
        if w == 0:
            out.append((draw(fail), draw(alias)))
        if w == 1:
            out.append(draw(over))
        out.append(op)
    out.append(draw(st.sampled_from([0, 1])) and draw(over) or (draw(fail), draw(alias)))
    out.append(draw(over))
    how = draw(st.sampled_from(['path', 'path', 'file', 'update', 'unbuffered', 'small', 'relative', 'symlink']))
    return start, doc, out, how, draw(st.booleans())


class Dir(object):
    """a directory of its own"""
    def __init__(self, ctx):
        self.scratch, self.label, self.tier = ctx.path('dir'), ctx.label, ctx.tier
        if not os.path.isdir(self.scratch):
            os.mkdir(self.scratch)

    def path(self, name='f.avb'):
        return os.path.join(self.scratch, name)


def aliases(ctx, p):
    d, n = os.path.split(p)
    s, s2, h = ctx.path('sym.avb'), ctx.path('sym2.avb'), ctx.path('hard.avb')
    for x in (s, s2, h):
        if os.path.lexists(x):
            os.remove(x)
    os.symlink(n, s)
    os.symlink(s, s2)
    os.link(p, h)
    return {'same': p, 'relative': os.path.relpath(p), 'dots': os.path.join(d, '.', '..', os.path.basename(d), n), 'symlink': s,
            'symlink2': s2, 'hardlink': h, 'slashes': d + '//' + n, 'other': ctx.path('other.avb')}


def opened(ctx, p, how):
    if how == 'path':
        return avb.open(p)
    if how == 'relative':
        return avb.open(os.path.relpath(p))
    if how == 'symlink':
        q = ctx.path('open.avb')
        os.symlink(p, q)
        return avb.open(q)
    if how == 'file':
        return avb.open(open(p, 'rb'))
    if how == 'update':
        return avb.open(open(p, 'r+b'))
    if how == 'unbuffered':
        return avb.open(open(p, 'rb', buffering=0))
    return avb.open(p, buffering=64)


def litter(ctx, known):
    return sorted(x for x in os.listdir(ctx.scratch) if x not in known)


def killed(f, path, order, lim):
    """save in a child process that the system ends when the file gets longer than lim"""
    sys.stdout.flush()
    # both processes share one position in the source file
    try:
        fd = f.f.fileno()
        at = os.lseek(fd, 0, os.SEEK_CUR)
    except (AttributeError, OSError):
        fd = None
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
            f.write(path, order)
            os._exit(0)
        except BaseException:
            os._exit(1)
    r = os.waitpid(pid, 0)[1]
    if fd is not None:
        os.lseek(fd, at, os.SEEK_SET)
    return os.WIFSIGNALED(r)


def run(ctx, case):
    start, doc0, ops, how, reads = case
    ctx = Dir(ctx)
    C.set_zone(doc0.last_save)
    home = os.getcwd()
    os.chdir(ctx.scratch)
    a = c10.Side(ctx, doc0, start, 'a', False)
    b = c10.Side(ctx, doc0, start, 'b', False)
    hits = 0
    try:
        src = ctx.path('src.avb')
        if start == 'created':
            b.step(('save', 'little'), 0)
            os.rename(b.last, src)
        else:
            a.f.close()
            os.rename(ctx.path('asrc.avb'), src)
            a.f = opened(ctx, src, how)
            a.objs = c10.Lazy(a.f, a.objs.refmap)
        here = {k: C.read(src) for k in ALIASES}
        prev = avb.open()
        prev.write(ctx.path('other.avb'))
        here['other'] = C.read(ctx.path('other.avb'))
        known = {'src.avb', 'bsrc.avb', 'other.avb', 'sym.avb', 'sym2.avb', 'hard.avb', 'open.avb', 'b.avb'}
        for i, op in enumerate(ops):
            if op[0] == 'over':
                where, order = op[1:]
                p = aliases(ctx, src)[where]
                b.f.write(ctx.path('b.avb'), order)
                want = C.read(ctx.path('b.avb'))
                a.f.write(p, order)
                got = C.read(p)
                if got != want:
                    raise Violation('saving over the source file (%s) writes something else than saving to a new path' % where)
                if where != 'hardlink' and C.read(src) != want:
                    raise Violation('saving through %s leaves the file it names unchanged' % where)
                with avb.open(p) as g:
                    B.match_docs(a.doc, B.snapshot(g), locks_default=True)
                here.update({k: C.read(src) for k in ALIASES})
                hits += start != 'created'
                ctx.label('over:' + where)
            elif isinstance(op[0], tuple):
                fl, where = op
                al = aliases(ctx, src)
                p = al[where]
                if fl[1] == 'kill':
                    d = E.clone(a.doc)
                    E.prune(d)
                    n = len(R.encode_file(d)[0])
                    lim = [fl[2] * n >> 16, fl[2] % 300, 0, n - 60][fl[3] % 4]
                    bad = killed(a.f, p, fl[4], max(lim, 0))
                else:
                    bad = c10.one_fail(ctx, a.f, a.objs, a.doc, fl, None, i, p)
                if bad:
                    hits += 1
                    ctx.label('failed:%s:%s' % (fl[1], where))
                    if C.read(p) != here[where] or C.read(src) != here['same']:
                        raise Violation('a failed save (%s) onto %s changed the file' % (fl[1], where))
                    avb.open(p).close()
                elif fl[1] != 'kill':
                    here.update({k: C.read(src) for k in ALIASES})
                    here['other'] = C.read(ctx.path('other.avb'))
                else:
                    here.update({k: C.read(src) for k in ALIASES})
                    here['other'] = C.read(ctx.path('other.avb'))
                if bad and fl[1] != 'kill' and litter(ctx, known):
                    raise Violation('a failed save leaves %s' % litter(ctx, known))
                for x in litter(ctx, known):
                    os.remove(ctx.path(x))
            else:
                a.step(op, i)
                b.step(op, i)
            if litter(ctx, known):
                raise Violation('left behind: %s' % litter(ctx, known))
        # the open document is still whole, also what it had not loaded yet
        B.match_docs(a.doc, B.snapshot(a.f), locks_default=True)
    finally:
        os.chdir(home)
        for s in (a, b):
            s.f.close()
        for n in os.listdir(ctx.scratch):
            os.remove(ctx.path(n))
    return hits > 0


# ------------------------------------------------------ larger files, every length
@st.composite
def sweep_cases(draw):
    doc = draw(G.sample_documents()) if draw(st.booleans()) else draw(G.documents(G.Opts(maxlist=3, legacy_ids=False), min_objs=2,
                                                                                  max_objs=8))
    return doc, draw(st.sampled_from(['little', 'big'])), draw(st.integers(0, 65535)), draw(st.sampled_from(ALIASES + ['other'])), \
        draw(st.sampled_from(['fsize', 'kill']))


def sweep(ctx, case):
    """room for a given number of bytes only, saving over the source without having loaded anything"""
    doc, order, at, where, how = case
    ctx = Dir(ctx)
    C.set_zone(doc.last_save)
    src = ctx.path('src.avb')
    data = R.encode_file(doc)[0]
    with open(src, 'wb') as o:
        o.write(data)
    with open(ctx.path('other.avb'), 'wb') as o:
        o.write(data)
    home = os.getcwd()
    os.chdir(ctx.scratch)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    f = avb.open(src)
    n = 0
    try:
        p = aliases(ctx, src)[where]
        for j in range(4):
            lim = (at * (j + 1) * 7919) % max(len(data) - 50, 1)
            if how == 'kill':
                bad = killed(f, p, order, lim)
            else:
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
                try:
                    f.write(p, order)
                    bad = False
                except Exception:
                    bad = True
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, old)
            if not bad:
                raise Violation('a save of %d bytes to a device with room for %d succeeds' % (len(data), lim))
            n += 1
            if C.read(src) != data or C.read(p) != data:
                raise Violation('a save that failed after %d bytes destroyed the file' % lim)
        f.write(p, order)
        with avb.open(p) as g:
            B.match_docs(doc, B.snapshot(g), locks_default=True)
        B.match_docs(doc, B.snapshot(f), locks_default=True)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        os.chdir(home)
        f.close()
        for x in os.listdir(ctx.scratch):
            os.remove(ctx.path(x))
    ctx.label('limit:' + how)
    return n > 0


SUBS = [
    Sub('histories', cases(), run, quick=2500),
    Sub('limits', sweep_cases(), sweep, quick=600),
]
