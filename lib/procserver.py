"""Plays histories in a process of its own, whose circumstances the parent has chosen, and reports what was observed.

Runs under any interpreter (hypothesis is replaced by a stand-in where it is missing: nothing is generated here)."""
import datetime
import gc
import hashlib
import io
import os
import pickle
import re
import signal
import struct
import sys
import traceback
import types
from collections import OrderedDict

try:
    import hypothesis  # noqa: F401
except ImportError:
    class Nothing(object):
        def __getattr__(self, n):
            return self

        def __call__(self, *a, **k):
            return self
    fake = types.ModuleType('hypothesis')
    fake.strategies = sys.modules['hypothesis.strategies'] = Nothing()
    sys.modules['hypothesis'] = fake

HERE = __name__ == '__main__'
out = os.fdopen(os.dup(1), 'wb')
inp = os.fdopen(os.dup(0), 'rb')
null_ = os.open(os.devnull, os.O_RDWR)
os.dup2(null_, 1)
os.dup2(null_, 0)

sys.modules['avb._ext'] = None        # native readers may be there, built from another tree
import avb  # noqa: E402
import avb.core  # noqa: E402
import avb.utils  # noqa: E402
import refspec as R  # noqa: E402
import bridge as B  # noqa: E402
import common as C  # noqa: E402
import edits as E  # noqa: E402


class Late(BaseException):
    pass


def sha(b):
    return hashlib.sha1(b).hexdigest()[:16]


def canon(v):
    """without mappings, whose text form differs between interpreters"""
    if isinstance(v, dict):
        return ('dict', [(k, canon(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return v


def plain(f):
    """everything reachable, in the order it presents itself"""
    s = B.snapshot(f)
    return s, ascii([(k, c, canon(m)) for k, (c, m) in s.objs.items()])


def seen(f, root):
    """what a program sees: values, orders, listings"""
    r = [plain(f)[1]]
    r.append(repr([bytes(c.class_id) for c in f.chunks()] if f.f is not None else None))
    if f.f is not None:
        cs = sorted(set(bytes(c.class_id) for c in f.chunks()) & set(avb.utils.AVBClaseID_dict))
        r.append(repr([o.instance_id for o in f.iter_class_ids(cs[:40])]))
    if hasattr(f.content, 'mobs'):
        r.append(repr([m if m is None else m.instance_id for m in f.content.mobs]))
        for q in ('compositionmobs', 'mastermobs', 'toplevel'):
            try:
                r.append(repr([m.instance_id for m in getattr(f.content, q)()]))
            except ValueError:
                r.append('ValueError')
    for o in B.snapshot(f).keep:
        if hasattr(o, 'property_data'):
            r.append(repr(list(o.property_data)))
        if not isinstance(o, dict):
            t = repr(o)
            if all(' ' <= c <= '~' for c in t) and '\\' not in t:     # which characters are printable depends on the interpreter
                r.append(re.sub('0x[0-9a-f]+', '#', t[:2000]))
    r.append(repr([x.instance_id for x in avb.core.walk_references(f.content)]))
    return r


def mapping(doc, f):
    snap = B.snapshot(f)
    mp = B.match_docs(doc, snap, locks_default=True)
    return {k: snap.keep[mp[k] - 1] for k in mp}


def opened(how, path, data):
    if how == 'bytes':
        return avb.open(io.BytesIO(data))
    if how == 'buf0':
        return avb.open(path, buffering=0)
    return avb.open(path)


def play(case, how, base):
    """observations of a history, comparable between processes"""
    start, doc0, ops = case
    doc = E.clone(doc0)
    r = []
    path = os.path.join(base, 'src.avb')
    last = None
    if start == 'created':
        f, objs = B.build(doc)
    else:
        data = R.encode_file(doc)[0]
        with open(path, 'wb') as o:
            o.write(data)
        f = opened(how, path, data)
        r.append(('seen', [sha(x.encode('utf-8', 'replace')) for x in seen(f, base)]))
        objs = mapping(doc, f)
    n = 0

    def save(order):
        p = os.path.join(base, 'o%d.avb' % len(r))
        if os.path.exists(p):
            os.remove(p)
        f.write(p, order)
        with open(p, 'rb') as i:
            b = i.read()
        r.append(('save', order, len(b), sha(b)))
        return p, b
    try:
        for op in ops:
            if op[0] == 'save':
                last = save(op[1])
            elif op[0] == 'reload':
                f.close()
                f = opened(how, *last)
                E.prune(doc)
                objs = mapping(doc, f)
                r.append(('seen', [sha(x.encode('utf-8', 'replace')) for x in seen(f, base)]))
            elif op[0] == 'header':
                f.creator_version, f.last_save = op[1], datetime.datetime.fromtimestamp(op[2])
                doc.creator, doc.last_save = op[1], op[2]
            else:
                E.apply_lib(f, objs, doc, op)
                E.apply_model(doc, op)
        for order in ('little', 'big'):
            save(order)
        r.append(('seen', [sha(x.encode('utf-8', 'replace')) for x in seen(f, base)]))
    finally:
        f.close()
        for x in os.listdir(base):
            if x.endswith('.avb'):
                os.remove(os.path.join(base, x))
    return r


def serve():
    conf = eval(os.environ['PROC_CONF'])
    base = os.environ['PROC_SCRATCH']
    if conf.get('gc') == 'off':
        gc.disable()
    elif conf.get('gc') and hasattr(gc, 'set_threshold'):
        gc.set_threshold(*conf['gc'])
    extra = []

    def late(sig, frm):
        raise Late('did not finish within 60 s of processor time')
    signal.signal(signal.SIGVTALRM, late)
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        n, = struct.unpack('<I', head)
        req = pickle.loads(inp.read(n))
        if req[0] == 'hello':
            ans = ('ready',)
        else:
            zone, case = req[1:]
            C.set_zone(zone)
            signal.setitimer(signal.ITIMER_VIRTUAL, 60)
            try:
                ans = None
                for i in range(conf.get('times', 1)):
                    ans = ('done', play(case, conf.get('how', 'path'), base))
            except (Exception, Late) as e:
                ans = ('raised', type(e).__name__, str(e)[:300], traceback.format_exc()[-1500:])
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if conf.get('others'):
                # documents stay open
                extra.append(avb.open())
                extra[-1].content.mobs
                del extra[:-5]
            if conf.get('gc') == 'off':
                gc.collect()
        data = pickle.dumps(ans, 4)
        out.write(struct.pack('<I', len(data)) + data)
        out.flush()


if HERE:
    serve()
