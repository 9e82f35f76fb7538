"""Dependency listing is complete, duplicate-free, children-first and terminates."""
import gc
import itertools
from collections import OrderedDict
from hypothesis import strategies as st
import avb
import avb.mobid
import gen as G
import refspec as R
import bridge as B
import common as C
import leaves as L
from runner import Sub, Violation, HarnessError

RULE = 'a mob with at least two dependants of which one depends on another, or a reference cycle, was listed'
ASSUMPTIONS = [
    'every mob of the bin has its own identifier, which is not the all-zero one',
    'mobs refer to other mobs through source clips only (not directly, as an attribute value could)',
    'between mobs that depend on each other no order is required',
    'source clips lie inside the tracks of a mob; clips elsewhere in it (its attributes) are not used',
]
BUDGET = {'quick': 300, 'thorough': 3000}


def need(ok, what, *a):
    if not ok:
        raise Violation(what % a if a else what)


def ident(i):
    b = bytearray(range(1, 33))
    b[i % 32] ^= 0x40
    b[(i // 32) % 32] ^= 0x80
    b[(i // 1024) % 32] ^= 0x20
    return bytes(b)


def mob_id(i):
    return avb.mobid.MobID(bytes_le=ident(i))


# every place of every class a component can be stored in (BOBs and effects' own keyframes excepted)
def places():
    res = []
    for c in sorted(R.ALLKINDS):
        if c in (b'ABIN', b'BINF', b'CMPO', b'BVst'):
            continue
        m = L.full_model(c, 4 if c in (b'PRCL', b'PRIT') else 1)
        for p, t in L.leaves(c, m):
            if isinstance(t, R.Ref) and (t.kind == 'any' or b'SCLP' in R.REFKINDS[t.kind]):
                res.append((c, p))
        for n, t, o in R.fields(c):
            if isinstance(t, R.Lst) and isinstance(t.elem, R.Ref) and (t.elem.kind == 'any' or b'SCLP' in R.REFKINDS[t.elem.kind]):
                res.append((c, (n, '*')))
    return res


PLACES = places()
CONT = [p for p in PLACES if p[0] in R.COMPONENTS]
TRACK = [p for c, p in PLACES if c == b'TNFX' and p[0] == 'tracks']

# a stored tree: ('clip', target) or (place number, [subtree, ...])
# a place in a class that isn't a component is reached through the attributes of a filler, an 'any' reference
leaf = st.tuples(st.just('clip'), st.one_of(st.integers(0, 20), st.integers(0, 20), st.integers(0, 20), st.integers(-2, -1)))
tree = st.recursive(leaf, lambda k: st.one_of(
    st.tuples(st.integers(0, len(PLACES) - 1), st.lists(k, min_size=1, max_size=2)),
    st.tuples(st.just('seq'), st.lists(k, min_size=1, max_size=3)),
    st.tuples(st.just('trk'), st.lists(k, min_size=1, max_size=3))), max_leaves=4)


class Maker(object):
    def __init__(self):
        self.models = []
        self.clips = []

    def add(self, cid, m):
        self.models.append((cid, m))
        return len(self.models)

    def clip(self, target):
        m = L.full_model(b'SCLP')
        if target == -1:
            m['mob_id'] = bytes(32)
        elif target == -2:
            del m['mob_id']
        else:
            m['mob_id'] = ident(target)
        k = self.add(b'SCLP', m)
        self.clips.append([k, target])
        return k

    def tree(self, t, n, owner):
        """-> object number"""
        if t[0] == 'clip':
            tg = t[1]
            k = self.clip(tg if tg < 0 else tg % (n + 1))
            owner.append(len(self.clips) - 1)
            return k
        ks = [self.tree(x, n, owner) for x in t[1]]
        if t[0] == 'seq':
            m = L.full_model(b'SEQU')
            m['components'] = ks
            return self.add(b'SEQU', m)
        if t[0] == 'trk':
            m = L.full_model(b'EQMB')
            z = m['tracks'][0]
            m['tracks'] = [OrderedDict(list(z.items()) + [('component', k)]) for k in ks]
            return self.add(b'EQMB', m)
        cid, p = PLACES[t[0]]
        m = L.full_model(cid, 4 if cid in (b'PRCL', b'PRIT') else 1)
        if p[-1] == '*':
            m[p[0]] = ks
        else:
            L.put(m, p, ks[0])
            if len(ks) > 1 and cid in R.COMPONENTS:
                m['right_bob' if p == ('left_bob',) else 'left_bob'] = ks[1]
            elif len(ks) > 1:
                ks2 = L.full_model(b'SEQU')
                ks2['components'] = ks
                L.put(m, p, self.add(b'SEQU', ks2))
        k = self.add(cid, m)
        if cid not in R.COMPONENTS:
            # reach it from a component
            a = OrderedDict(entries=[['x', 3, k]])
            k = self.add(b'ATTR', a)
            f = L.full_model(b'FILL')
            f['attributes'] = k
            k = self.add(b'FILL', f)
        return k


def make(mobs, items, root, noid=None):
    """-> (doc, owners: clips of each mob, mk, clips)"""
    mk = Maker()
    n = len(mobs)
    nums, owners = [], []
    for i, tracks in enumerate(mobs):
        m = L.full_model(b'CMPO')
        z = m['tracks'][0]
        m['tracks'] = []
        own = []
        for place, t in tracks:
            x = OrderedDict(z)
            x['index'] = len(m['tracks']) + 1
            k = mk.tree(t, n, own)
            p = TRACK[place % len(TRACK)][-1]
            x[p] = k
            if p in ('attributes', 'session_attr'):
                raise HarnessError('track place')
            m['tracks'].append(x)
        if i == noid:
            del m['mob_id']
        else:
            m['mob_id'] = ident(i)
        m['mob_type_id'] = 1 + i % 3
        nums.append(mk.add(b'CMPO', m))
        owners.append(own)
    b = L.full_model(root)
    b['items'] = [OrderedDict([('mob', nums[i]), ('x', 0), ('y', 0), ('keyframe', 0), ('user_placed', True)]) for i in items]
    return L.wrap(mk.models, root=(root, b)), owners, nums, mk.clips


def reach(adj, a):
    seen = set()
    todo = list(adj[a])
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(adj[x])
    return seen


def judge(got, adj, root, objs, when):
    """got: listed mobs (library objects); adj: number -> set of numbers"""
    num = {ident(i): i for i in adj}
    ids = []
    for m in got:
        need(m is not None and bytes(m.mob_id.bytes_le) in num, '%s: %r is listed', when, m)
        k = num[bytes(m.mob_id.bytes_le)]
        need(m is objs(k), '%s: a mob which is not the one in the bin is listed', when)
        ids.append(k)
    need(root not in ids, '%s: mob %d is listed as its own dependant', when, root)
    need(len(set(ids)) == len(ids), '%s: a mob is listed twice: %r', when, ids)
    want = reach(adj, root) - {root}
    need(set(ids) == want, '%s: listed %r, expected %r', when, sorted(ids), sorted(want))
    r = {i: reach(adj, i) for i in ids}
    pos = {i: p for p, i in enumerate(ids)}
    for a in ids:
        for b in adj[a]:
            if b in pos and a not in r[b]:
                need(pos[b] < pos[a], '%s: mob %d is listed before mob %d, which it depends on', when, a, b)
    return ids, any(root in r[i] or i in r[i] for i in ids) or root in adj[root], any(adj[i] & set(ids) for i in ids)


def listing(ctx, case):
    mobs, held, root, src, ops, noid = case
    n = len(mobs)
    C.set_zone(0)
    items = [i for i in range(n) if held[i % len(held)] != 0]
    items += [i for i in items if held[i % len(held)] == 2]
    noid = noid if noid is not None and noid < n and src == 'loaded' else None
    doc, owners, nums, clips = make(mobs, items, root, noid)
    if src == 'loaded':
        data, refmap = R.encode_file(doc)
        f = C.open_bytes(data)
        find = lambda k: f.content.attributes['o%d' % (k - 1)]
    else:
        f, objs = B.build(doc)
        find = lambda k: objs[k]
    inbin = set(items) - {noid}
    target = {i: t for i, (k, t) in enumerate(clips)}

    def adj():
        return {i: {target[c] for c in owners[i] if target[c] in inbin} for i in range(n)}

    def binmob(k):
        for it in f.content.items:
            if getattr(it.mob, 'mob_id', None) == mob_id(k):
                return it.mob

    deep = cyclic = False

    def check(i, when):
        m = find(nums[i])
        r = judge(list(m.dependant_mobs()), adj(), i, binmob, '%s, mob %d' % (when, i))
        return r

    def note(r):
        nonlocal deep, cyclic
        deep, cyclic = deep or (len(r[0]) >= 2 and r[2]), cyclic or r[1]

    for i in range(n):
        note(check(i, 'at first'))
    for op in ops:
        if op[0] == 'retarget' and clips:
            c = op[1] % len(clips)
            t = op[2] if op[2] < 0 else op[2] % (n + 1)
            x = find(clips[c][0])
            if t == -2:
                x.mob_id = None
            else:
                x.mob_id = avb.mobid.MobID() if t == -1 else mob_id(t)
            target[c] = t
            if not hasattr(x, 'mob_id'):
                raise HarnessError('clip')
            x.mark_modified()
        elif op[0] == 'remove' and len(inbin):
            k = sorted(inbin)[op[1] % len(inbin)]
            f.content.items[:] = [it for it in f.content.items if getattr(it.mob, 'mob_id', None) != mob_id(k)]
            inbin.discard(k)
            f.content.mark_modified()
        elif op[0] == 'add':
            k = op[1] % n
            f.content.add_mob(find(nums[k]))
            if k != noid:
                inbin.add(k)
        elif op[0] == 'interleave':
            a, b = op[1] % n, op[2] % n
            ga, gb = find(nums[a]).dependant_mobs(), find(nums[b]).dependant_mobs()
            la, lb = [], []
            for x, y in itertools.zip_longest(ga, gb):
                la += [x] if x is not None else []
                lb += [y] if y is not None else []
            note(judge(la, adj(), a, binmob, 'interleaved, mob %d' % a))
            note(judge(lb, adj(), b, binmob, 'interleaved, mob %d' % b))
        elif op[0] == 'partial':
            for x in itertools.islice(find(nums[op[1] % n]).dependant_mobs(), op[2]):
                pass
            gc.collect()
        elif op[0] == 'again':
            note(check(op[1] % n, 'later'))
        if src == 'loaded' and op[0] in ('remove',):
            gc.collect()
    for i in range(n):
        note(check(i, 'at last'))
    ctx.label('cyclic' if cyclic else 'acyclic', src)
    return deep or cyclic


track = st.tuples(st.integers(0, 40), tree)
mobs = st.one_of(
    st.lists(st.lists(track, max_size=2), min_size=1, max_size=5),
    st.lists(st.lists(st.tuples(st.just(0), st.tuples(st.just('clip'), st.integers(0, 12))), max_size=4), min_size=2, max_size=8),
    st.lists(st.lists(track, min_size=1, max_size=3), min_size=3, max_size=7))
I = st.integers(0, 20)
op = st.one_of(st.tuples(st.just('retarget'), I, st.integers(-2, 20)), st.tuples(st.just('remove'), I), st.tuples(st.just('add'), I),
               st.tuples(st.just('interleave'), I, I), st.tuples(st.just('partial'), I, st.integers(0, 3)), st.tuples(st.just('again'), I))
cases = st.tuples(mobs, st.lists(st.sampled_from([1, 1, 1, 1, 2, 0]), min_size=1, max_size=8), st.sampled_from([b'ABIN', b'BINF']),
                  st.sampled_from(['loaded', 'created']), st.lists(op, max_size=6), st.one_of(st.none(), st.none(), st.integers(0, 7)))


def big(ctx, case):
    """long chains, rings, ladders and stars"""
    kind, n, src, extra = case
    if kind == 'chain':
        g = {i: [i + 1] if i + 1 < n else [] for i in range(n)}
    elif kind == 'ring':
        g = {i: [(i + 1) % n] for i in range(n)}
    elif kind == 'back':
        g = {i: [i - 1] if i else [] for i in range(n)}
    elif kind == 'ladder':
        # exponentially many paths
        n = min(n, 60) // 2 * 2 + 2
        g = {i: [j for j in (i // 2 * 2 + 2, i // 2 * 2 + 3) if j < n] for i in range(n)}
    elif kind == 'star':
        n = min(n, 200)
        g = {i: list(range(1, n)) if i == 0 else [] for i in range(n)}
    else:
        n = min(n, 14)
        g = {i: [j for j in range(n)] for i in range(n)}
    for a, b in extra:
        g[a % n] = g[a % n] + [b % n]
    ms = [[(0, ('seq', [('clip', t) for t in g[i]]))] if g[i] else [] for i in range(n)]
    # targets are taken modulo n + 1 in the model, none reaches n here
    doc, owners, nums, clips = make(ms, list(range(n)), b'ABIN')
    if src == 'loaded':
        f = C.open_bytes(R.encode_file(doc)[0])
        find = lambda k: f.content.attributes['o%d' % (k - 1)]
    else:
        f, objs = B.build(doc)
        find = lambda k: objs[k]
    adj = {i: set(g[i]) for i in range(n)}
    held = {bytes(m.mob_id.bytes_le): m for m in f.content.mobs}
    for i in {0, n - 1, n // 2}:
        judge(list(find(nums[i]).dependant_mobs()), adj, i, lambda k: held[ident(k)], '%s of %d, mob %d' % (kind, n, i))
    ctx.label(kind)
    return n > 4


bigs = st.tuples(st.sampled_from(['chain', 'ring', 'back', 'ladder', 'star', 'full']), st.integers(2, 300), st.sampled_from(['loaded', 'created']),
                 st.lists(st.tuples(st.integers(0, 300), st.integers(0, 300)), max_size=3))

def shared(ctx, case):
    """sequences that are components of many others: exponentially many paths to few clips"""
    depth, widths, targets, src, tail = case
    n = 6
    mk = Maker()
    nums, owners, adj = [], [], {}
    for i in range(n):
        own = []
        if i == 0:
            below = [mk.clip(t % (n + 1)) for t in targets]
            adj[i] = {t % (n + 1) for t in targets}
            for d in range(depth):
                w = widths[d % len(widths)]
                layer = []
                for _ in range(2):
                    m = L.full_model(b'SEQU')
                    m['components'] = (below * w)[:max(w, len(below))]
                    layer.append(mk.add(b'SEQU', m))
                below = layer
            tops = below
        else:
            t = tail[i % len(tail)] % (n + 1)
            tops = [mk.clip(t)]
            adj[i] = {t}
        m = L.full_model(b'CMPO')
        z = m['tracks'][0]
        m['tracks'] = []
        for k in tops:
            x = OrderedDict(z)
            x['index'] = len(m['tracks']) + 1
            x['component'] = k
            m['tracks'].append(x)
        m['mob_id'] = ident(i)
        m['mob_type_id'] = 2
        nums.append(mk.add(b'CMPO', m))
    adj = {i: {t for t in ts if t < n} for i, ts in adj.items()}
    b = L.full_model(b'ABIN')
    b['items'] = [OrderedDict([('mob', k), ('x', 0), ('y', 0), ('keyframe', 0), ('user_placed', True)]) for k in nums]
    doc = L.wrap(mk.models, root=(b'ABIN', b))
    if src == 'loaded':
        f = C.open_bytes(R.encode_file(doc)[0])
        find = lambda k: f.content.attributes['o%d' % (k - 1)]
    else:
        f, objs = B.build(doc)
        find = lambda k: objs[k]
    held = {bytes(m.mob_id.bytes_le): m for m in f.content.mobs}
    for i in range(n):
        judge(list(find(nums[i]).dependant_mobs()), adj, i, lambda k: held[ident(k)], 'shared, mob %d' % i)
    ctx.label('shared', src)
    return depth > 4 and len(reach(adj, 0)) > 1


shareds = st.tuples(st.integers(3, 40), st.lists(st.integers(2, 3), min_size=1, max_size=3), st.lists(st.integers(0, 20), min_size=1, max_size=4),
                    st.sampled_from(['loaded', 'created']), st.lists(st.integers(0, 20), min_size=1, max_size=5))

EXAMPLES = [('shared', (40, [3], [1, 2, 3], 'loaded', [4, 5, 1])), ('big', ('chain', 1200, 'loaded', [])), ('big', ('ring', 1100, 'created', []))]
SUBS = [
    Sub('listing', cases, listing, quick=1600, thorough=24000),
    Sub('big', bigs, big, quick=60, thorough=600, cpu_limit=200),
    Sub('shared', shareds, shared, quick=80, thorough=1200, cpu_limit=60),
]
