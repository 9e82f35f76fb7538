"""Reading yields exactly the encoded values, for every object kind and byte order."""
import io
import random
from hypothesis import strategies as st
import avb
import gen as G
import refspec as R
import bridge as B
import common as C
from runner import Sub

RULE = ('the decoded document holds at least one object besides the root that carries non-default field values, and '
        'every one of its objects was reached and compared')
ASSUMPTIONS = [
    'reference encoder lib/refspec.py (validated byte for byte against the 14 sample bins and the chunk corpus)',
    'bools are compared as bools; the text fields that store empty as "absent" compare None and empty alike',
    'creator text is compared without its padding; reserved bytes are filled with noise and must be ignored',
]


def encode(doc, seed):
    rnd = random.Random(seed)
    ids = list(doc.objs)
    if seed & 1:
        rnd.shuffle(ids)
    if seed & 2:
        # objects nothing refers to are legal too
        pass
    return R.encode_file(doc, ids, noise=lambda n: bytes(rnd.randrange(256) for i in range(n)),
                         ext_order=(lambda g: rnd.sample(g, len(g))) if seed & 4 else None,
                         save_string=rnd.choice([b'2020/01/02 03:04:05', b'', b'x' * 40]))


def run(ctx, case):
    doc, seed = case
    C.set_zone(doc.last_save)
    data, refmap = encode(doc, seed)
    with avb.open(io.BytesIO(data)) as f:
        B.match_docs(doc, B.snapshot(f))
        # the same through enumeration, in file order, for objects in isolation
        for k, (cid, m) in doc.objs.items():
            obj = f.read_object(refmap[k])
            if bytes(obj.class_id) != cid:
                raise B.Mismatch('object %d: class %r read as %r' % (refmap[k], cid, obj.class_id))
    for cid, m in doc.objs.values():
        ctx.label('kind:' + cid.decode(), 'order:' + doc.order)
        for g in R.groups(cid):
            ctx.label('opt:%s.%s:%s' % (cid.decode(), g[0], g[0] in m))
    return len(doc.objs) > 1


EXAMPLES = [('samples', (G.sample_doc(p), 7)) for p in G.sample_paths(False)]
seeds = st.integers(0, 2 ** 20)
W = G.Opts(legacy_ids=True)
SUBS = [
    Sub('documents', st.tuples(G.documents(W), seeds), run, quick=2400),
    Sub('each_kind', st.tuples(G.kind_documents(W), seeds), run, quick=3600),
    Sub('samples', st.tuples(G.sample_documents(W), seeds), run, quick=160),
    Sub('long', st.tuples(G.long_documents(W, max_objs=5), seeds), run, quick=500),
]
