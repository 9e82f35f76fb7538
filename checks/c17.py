"""The native readers are memory-safe and bounded on arbitrary bytes."""
import os
import random
import re
import shutil
import subprocess
import sys
from collections import OrderedDict
from hypothesis import strategies as st
import gen as G
import refspec as R
import leaves as L
import extlib as X
from c08 import damage, edit, pieced, PIECES
from runner import Sub, Violation, HarnessError, REPO, VERIF

RULE = 'at least one of the damaged chunks is refused and was read through a native reader (core: at least 1000 inputs ran)'
ASSUMPTIONS = [
    'memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer report for the extension, built with gcc for PyPy, and, for the '
    'C++ core alone, with clang under libFuzzer',
    'a native reader may refuse damaged bytes which the reference reader accepts, never the other way around',
    'out of proportion: more than 128 MB, and 2 KB for every byte of the file, for reading one object with both readers (core: one allocation of '
    'more than 64 MB for inputs of at most 2000 bytes)',
]
SHARED = {}
BUDGET = {'quick': 420, 'thorough': 3400}
AS_LIMIT = -1
NATIVE = [b'CMPO', b'TKFX', b'MDES', b'DIDD', b'CDCI', b'SLCT', b'SEQU', b'FILL', b'SCLP', b'PRCL', b'PRIT', b'TRKR', b'FXPS', b'ATTR']
KEYS = [(c, vt) for c in NATIVE for vt in ((1, 2, 4) if c in (b'PRCL', b'PRIT') else (1,))]
SERVERS = {}
CLANG = ['clang++', '-g', '-O1', '-w', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize=enum,alignment,vptr,function',
         '-fno-sanitize-recover=undefined']


def setup(ctx):
    import threading
    res = {}

    def work(name, fn):
        try:
            res[name] = fn()
        except HarnessError as e:
            res[name] = e
    jobs = [('san', lambda: X.build(os.path.join(ctx.scratch, 'san'), True)), ('plain', lambda: X.build(os.path.join(ctx.scratch, 'plain'))),
            ('core', lambda: build_core(ctx.scratch))]
    ts = [threading.Thread(target=work, args=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for v in res.values():
        if isinstance(v, HarnessError):
            raise v
    SHARED.update(res)


def build_core(scratch):
    """libFuzzer around the C++ readers; None when they no longer have the shape the driver expects"""
    exe = os.path.join(scratch, 'corefuzz')
    src = os.path.join(REPO, 'src', 'avb', '_ext_core.cpp')
    p = subprocess.run(CLANG + ['-DCORE_SOURCE="%s"' % src, os.path.join(VERIF, 'lib', 'corefuzz.cpp'), '-o', exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return exe if p.returncode == 0 else None


def worker_setup(ctx):
    SERVERS['san'] = X.Server(SHARED['san'], ctx.scratch, san=True)
    SERVERS['plain'] = X.Server(SHARED['plain'], ctx.scratch, mem=3 << 30)


def worker_teardown(ctx):
    for s in SERVERS.values():
        s.stop()


# ------------------------------------------------------------------ chunks
def body_of(c, vt, full):
    m = L.full_model(c, vt)
    if not full:
        z = R.zero_model(c, False)
        if c != b'ATTR' and 'value_type' not in z and c != b'SLCT':
            m = z
    return R.encode_chunk(c, m, 'little', {None: 0})


def bodies_file(bodies):
    """a file whose first objects have these bytes"""
    doc = L.wrap([])
    n = len(bodies)
    objs = OrderedDict((('x', i), b) for i, b in enumerate(bodies))
    objs.update(doc.objs)
    new = R.Doc(objs, doc.root, 'little', doc.last_save, doc.creator)
    return R.encode_file(new, list(objs))[0], list(range(1, n + 1))


def judge(ctx, bodies, which):
    data, idx = bodies_file(bodies)
    bad = None
    for w in which:
        r = SERVERS[w].ask(('fuzz', data, idx))
        if r[0] == 'bad':
            raise Violation(r[1])
        s = r[1]
        ctx.labels['chunks refused'] = ctx.labels.get('chunks refused', 0) + s['refused']
        ctx.labels['chunks read like the reference'] = ctx.labels.get('chunks read like the reference', 0) + s['read']
        ctx.labels['chunks refused, not by the reference'] = ctx.labels.get('chunks refused, not by the reference', 0) + s['stricter']
        for c in s['native']:
            ctx.label('native:' + c.decode())
        bad = s
    return bool(bad['native']) and bad['refused'] > 0


whichs = st.sampled_from([('san',), ('san',), ('plain',)])
damaged = st.tuples(st.sampled_from(KEYS), st.booleans(), st.lists(edit, min_size=1, max_size=3), st.sampled_from([0, 0, 0, 8, 40]))


def variants(ctx, case):
    """several chunks, each damaged in one to three places"""
    items, which = case
    bodies = []
    for (c, vt), full, edits, near in items:
        b = body_of(c, vt, full)
        for e in edits:
            b = damage(b, e, 'little', near)
        bodies.append((c, b))
    return judge(ctx, bodies, which)


@st.composite
def doc_cases(draw):
    doc = draw(G.documents(G.Opts(maxlist=3), kinds=NATIVE, min_objs=2, max_objs=6, orders=('little',)))
    hits = draw(st.lists(st.tuples(st.integers(0, 20), st.lists(edit, min_size=1, max_size=2), st.sampled_from([0, 0, 30])), min_size=1, max_size=8))
    return doc, hits, draw(whichs)


def docs(ctx, case):
    """damaged chunks that were generated rather than complete ones"""
    doc, hits, which = case
    refmap = {k: i + 1 for i, k in enumerate(doc.objs)}
    refmap[None] = 0
    ks = [k for k in doc.objs if doc.objs[k][0] in NATIVE]
    bodies = []
    for k, edits, near in hits:
        c, m = doc.objs[ks[k % len(ks)]]
        b = R.encode_chunk(c, m, 'little', {x: min(i, 3) for x, i in refmap.items()})
        for e in edits:
            b = damage(b, e, 'little', near)
        bodies.append((c, b))
    return judge(ctx, bodies, which)


WORDS = [(1, v) for v in (0, 1, 2, 3, 127, 128, 255)] + [(2, v) for v in (0, 1, 2, 255, 32767, 32768, 65534, 65535)] + \
    [(4, v) for v in (0, 1, 2, 1000, 65536, 2 ** 24, 2 ** 28, 2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 4, 2 ** 32 - 1)] + \
    [(8, v) for v in (0x7ff0000000000000, 0xfff8000000000001, 2 ** 64 - 1, 2 ** 63)]


@st.composite
def place_cases(draw):
    key = draw(st.sampled_from(KEYS))
    n = len(body_of(key[0], key[1], True))
    return key, draw(st.integers(0, n - 1)), draw(whichs)


def places(ctx, case):
    """every telling value at one place of a complete chunk; the chunk with and without what follows"""
    (c, vt), at, which = case
    b = body_of(c, vt, True)
    bodies = [(c, b[:at])]
    for w, v in WORDS:
        if at + w <= len(b):
            x = b[:at] + v.to_bytes(w, 'little')
            bodies += [(c, x + b[at + w:]), (c, x)] if w in (2, 4) else [(c, x + b[at + w:])]
    return judge(ctx, bodies, which)


def prefixes(ctx, case):
    """every prefix of a chunk, and every chunk with something appended"""
    (c, vt), full, which = case
    b = body_of(c, vt, full)
    return judge(ctx, [(c, b[:i]) for i in range(len(b) + 1)] + [(c, b + x) for x in (b'\0', b'\x03', b'\x01', b'\xff', b'\x01\x01', b'\0' * 9)],
                 which)


def pieces(ctx, case):
    """one small damage at every place of a complete chunk"""
    (c, vt), full, op, which = case
    return judge(ctx, [(c, x) for x in pieced(body_of(c, vt, full), op)], which)


raw = st.binary(max_size=120)


def noise(ctx, case):
    """arbitrary bytes, alone or after the start of a real chunk"""
    items, which = case
    return judge(ctx, [(c, body_of(c, vt, True)[:keep] + b) for (c, vt), keep, b in items], which)


# ------------------------------------------------------------------ big chunks
def big(ctx, case):
    """long lists that are complete, or end early by a few bytes"""
    (c, vt), path, n, cut, which = case
    m = L.full_model(c, vt)
    v = L.get(m, path)
    L.put(m, path, (v or [None]) * n if not isinstance(v, (bytes, str)) else (v or (b'a' if isinstance(v, bytes) else 'a')) * n)
    try:
        b = R.encode_chunk(c, m, 'little', {None: 0})
    except Exception:
        return False
    return judge(ctx, [(c, b[:len(b) - x]) for x in (0, cut, 1)], which)


LISTS = []
for _c, _v in KEYS:
    _m = L.full_model(_c, _v)
    for _n, _t, _o in R.fields(_c):
        if _n in _m and isinstance(_m[_n], (list, bytes, str)) and G.limit(_t):
            LISTS.append(((_c, _v), (_n,)))
LISTS += [((b'SEQU', 1), ('components',)), ((b'PRCL', 2), ('control_points', 0, 'pp')), ((b'PRCL', 1), ('control_points',)),
          ((b'FXPS', 1), ('parameters', 0, 'colors')), ((b'FXPS', 1), ('parameters', 0, 'user_param')), ((b'CMPO', 1), ('tracks',))]
LISTS = [x for x in LISTS if x[0][0] != b'ATTR'] + [((b'ATTR', 1), ('entries', 2, 2)), ((b'ATTR', 1), ('entries', 1, 2))]


# ------------------------------------------------------------------ the C++ core
def core(ctx, case):
    """coverage-guided inputs straight into the C++ readers, starting from complete chunks"""
    exe = SHARED['core']
    if not exe:
        ctx.label('core: not run, the readers have another shape')
        return False
    kind, arg = case
    d = os.path.join(ctx.scratch, 'core')
    os.makedirs(os.path.join(d, 'in'))
    try:
        env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
        env['ASAN_OPTIONS'] = 'detect_leaks=0'
        cmd = [exe, '-malloc_limit_mb=64', '-timeout=10', '-rss_limit_mb=2048', '-artifact_prefix=' + d + '/']
        if kind == 'bytes':
            with open(os.path.join(d, 'one'), 'wb') as f:
                f.write(arg)
            cmd += [os.path.join(d, 'one')]
        else:
            seed, runs = arg
            rnd = random.Random(seed)
            for i, (c, vt) in enumerate(KEYS):
                for full in (True, False):
                    b = body_of(c, vt, full)
                    if rnd.random() < 0.3:
                        b = b[:rnd.randrange(1, len(b) + 1)]
                    with open(os.path.join(d, 'in', '%d%d' % (i, full)), 'wb') as f:
                        f.write(bytes([NATIVE.index(c)]) + b)
            cmd += ['-runs=%d' % runs, '-seed=%d' % (seed + 1), '-max_len=%d' % rnd.choice([200, 600, 2000]), '-len_control=0',
                    os.path.join(d, 'in')]
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        out = p.stdout.decode('latin1')
        arts = [f for f in os.listdir(d) if re.match('(crash|oom|timeout|leak)-', f)]
        if p.returncode and not arts and kind != 'bytes':
            raise HarnessError('libFuzzer: ' + out[-1500:])
        if p.returncode:
            bad = open(os.path.join(d, arts[0]), 'rb').read() if arts else arg
            raise Violation('%s reader, bytes %s\n%s' % (NATIVE[bad[0] % 14].decode(), bad[1:].hex(), X.digest(out)))
        n = re.search(r'Done (\d+) runs', out)
        ctx.labels['core inputs'] = ctx.labels.get('core inputs', 0) + int(n.group(1) if n else 1)
        return kind == 'bytes' or bool(n and int(n.group(1)) >= 1000)
    finally:
        shutil.rmtree(d)


SUBS = [
    Sub('places', place_cases(), places, 1300, 30000),
    Sub('variants', st.tuples(st.lists(damaged, min_size=1, max_size=12), whichs), variants, 2400, 60000),
    Sub('documents', doc_cases(), docs, 1200, 30000),
    Sub('noise', st.tuples(st.lists(st.tuples(st.sampled_from(KEYS), st.integers(0, 80), raw), min_size=1, max_size=12), whichs), noise, 800, 20000),
    Sub('big', st.tuples(st.sampled_from(LISTS), st.sampled_from([2, 100, 1000, 4000, 20000]), st.integers(1, 40), whichs).map(
        lambda x: x[0] + x[1:]), big, 240, 4000),
    Sub('prefixes', st.tuples(st.sampled_from(KEYS), st.booleans(), whichs), prefixes, 60, 400),
    Sub('pieces', st.tuples(st.sampled_from(KEYS), st.booleans(), st.sampled_from(PIECES), whichs), pieces, 60, 1000),
    Sub('core', st.tuples(st.just('seed'), st.tuples(st.integers(0, 10 ** 6), st.just(60000))), core, 24, 800, cpu_limit=3000),
]
EXAMPLES = [('prefixes', (k, f, ('san',))) for k in KEYS for f in (True, False)]
EXAMPLES += [('pieces', (k, True, op, ('san',))) for k in KEYS for op in PIECES]
