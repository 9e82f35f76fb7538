"""Finding library objects again, from the root, along the references of the model."""
import refspec as R
import gen as G


def edges(cid, m):
    """[(accessor, id)]"""
    r = []
    if cid == b'ATTR':
        return [(('key', n), v) for n, t, v in m['entries'] if t == 3 and v is not None]
    if cid in (b'PRLS', b'TMCS'):
        return [(('elem', i), v) for i, v in enumerate(m['entries']) if v is not None]
    for n, t, o in G.fields(cid)[0]:
        if n not in m:
            continue
        v = m[n]
        if isinstance(t, R.Ref):
            if v is not None:
                r.append((('field', n), v))
        elif isinstance(t, R.ItemValue):
            if m['value_type'] == 4 and v is not None:
                r.append((('field', n), v))
        elif isinstance(t, R.ParamValues):
            if m['value_type'] == 4:
                r += [(('sub', n, i, 'value'), c['value']) for i, c in enumerate(v) if c['value'] is not None]
        elif isinstance(t, R.Lst) and isinstance(t.elem, R.Ref):
            r += [(('list', n, i), x) for i, x in enumerate(v) if x is not None]
        elif n == 'tracks' or isinstance(t, R.Lst) and isinstance(t.elem, R.Struct):
            fs = R.TrackT.fields if n == 'tracks' else t.elem.fields
            for fn, ft in fs:
                if isinstance(ft, R.Ref):
                    r += [(('sub', n, i, fn), x[fn]) for i, x in enumerate(v) if x.get(fn) is not None]
    return r


def step(obj, a):
    if a[0] == 'key':
        return obj[a[1]]
    if a[0] == 'elem':
        return obj[a[1]]
    if a[0] == 'field':
        return getattr(obj, a[1])
    if a[0] == 'list':
        return getattr(obj, a[1])[a[2]]
    return getattr(getattr(obj, a[1])[a[2]], a[3])


def path_to(doc, k, pick=0):
    """a path from the root to object k; pick selects among the edges met first"""
    prev = {doc.root: None}
    queue = [doc.root]
    while queue:
        x = queue.pop(0)
        if x == k:
            break
        es = edges(*doc.objs[x])
        if pick & 1:
            es = es[::-1]
        for a, y in es:
            if y not in prev:
                prev[y] = (x, a)
                queue.append(y)
    if k not in prev:
        raise KeyError(k)
    p = []
    while prev[k] is not None:
        k, a = prev[k]
        p.append(a)
    return p[::-1]


def find(f, doc, k, pick=0):
    o = f.content
    for a in path_to(doc, k, pick):
        o = step(o, a)
    return o


class Nav(object):
    """mapping of model ids to library objects that holds on to nothing"""
    def __init__(self, f, doc, pick=0):
        self.f, self.doc, self.pick = f, doc, pick
        self.pending = {}

    def __getitem__(self, k):
        if k in self.pending:
            return self.pending[k]
        return find(self.f, self.doc, k, self.pick)

    def __setitem__(self, k, v):
        self.pending[k] = v

    def __contains__(self, k):
        return True
