"""What is read and saved does not depend on the process."""
import os
import subprocess
import sys
from hypothesis import strategies as st
import extlib as X
import gen as G
from c04 import histories, LK
from runner import Sub, Violation, HarnessError

RULE = 'the document had at least two objects and was saved at least twice in each of the processes'
ASSUMPTIONS = [
    'the document is valid and all its fields are set (fresh identifiers and times differ between programs)',
    'all processes use the same time zone (the text form of the save time is local)',
    'only refusing damage is allowed to depend on assertions: that is not looked at here',
]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

# name, interpreter and flags, environment, circumstances
ENVS = [
    ('plain', [sys.executable], dict(PYTHONHASHSEED='0'), dict(how='path')),
    ('optimized', [sys.executable, '-O'], dict(PYTHONHASHSEED='1', LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0'),
     dict(how='bytes', gc='off')),
    ('optimized twice', [sys.executable, '-OO'], dict(PYTHONHASHSEED='4242', LC_ALL='C.UTF-8'), dict(how='buf0', gc=(7, 2, 2))),
    ('used', [sys.executable, '-X', 'utf8'], dict(PYTHONHASHSEED='99'), dict(how='path', gc='off', times=2, others=True)),
    ('pypy', [X.PYPY], dict(PYTHONHASHSEED='5'), dict(how='path')),
]
SERVERS = []


class Proc(X.Server):
    def __init__(self, scratch, name, cmd, env, conf):
        X.Server.__init__(self, os.path.join(REPO, 'src'), scratch)
        self.cmd, self.env, self.conf, self.name = cmd, env, conf, name

    def start(self):
        env = {k: v for k, v in os.environ.items()
               if k not in ('PYTHONPATH', 'LD_PRELOAD', 'PYTHONHASHSEED', 'LC_ALL', 'LANG', 'PYTHONUTF8', 'PYTHONOPTIMIZE')}
        env.update(PYTHONPATH=self.src + ':' + os.path.join(VERIF, 'lib'), PYTHONDONTWRITEBYTECODE='1', PROC_SCRATCH=self.dir,
                   PROC_CONF=repr(self.conf), PYTHONPYCACHEPREFIX=os.path.join(self.dir, 'pyc'))
        env.update(self.env)
        self.err = open(os.path.join(self.dir, 'stderr'), 'w+b')
        self.p = subprocess.Popen(self.cmd + ['-B', os.path.join(VERIF, 'lib', 'procserver.py')], env=env, cwd=self.dir,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.n = 0
        if self.ask(('hello',), 120) != 'ready':
            raise HarnessError('the process %s does not answer' % self.name)


def worker_setup(ctx):
    for e in ENVS:
        SERVERS.append(Proc(ctx.scratch, *e))


def worker_teardown(ctx):
    for s in SERVERS:
        s.stop()


def difference(a, b):
    if a[0] != 'done' or b[0] != 'done':
        return None if a[:2] == b[:2] else '%r / %r' % (a[:3] if a[0] != 'done' else 'done', b[:3] if b[0] != 'done' else 'done')
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if x != y:
            if x[0] == 'seen' == y[0]:
                return 'observation %d, part %s' % (i, [k for k, (p, q) in enumerate(zip(x[1], y[1])) if p != q] or 'count')
            return 'observation %d: %r / %r' % (i, x, y)
    return None if len(a[1]) == len(b[1]) else 'number of observations'


def compare(ctx, case):
    start, doc0, ops = case
    ans = []
    for s in SERVERS:
        ans.append(s.ask(('play', doc0.last_save, case), 300))
    ctx.label('start:' + start, 'plain:' + ans[0][0])
    for s, a in list(zip(SERVERS, ans))[1:]:
        d = difference(ans[0], a)
        if d:
            raise Violation('%s process: %s%s' % (s.name, d, '\n' + a[3] if a[0] == 'raised' else ''))
    return ans[0][0] == 'done' and len(doc0.objs) >= 2


@st.composite
def read_only(draw, docs):
    doc = draw(docs)
    return 'loaded', doc, draw(st.lists(st.one_of(st.tuples(st.just('save'), st.sampled_from(['little', 'big'])),
                                                  st.just(('reload',))), max_size=3).map(tidy))


def tidy(ops):
    r, saved = [], False
    for o in ops:
        if o[0] == 'save' or saved:
            r.append(o)
        saved = saved or o[0] == 'save'
    return r


W = G.Opts(legacy_ids=False)
SUBS = [
    Sub('histories', histories(), compare, quick=350),
    Sub('lists', histories(most=10, kinds=LK, focus=[b'SEQU', b'PRLS', b'TMCS', b'MULD', b'TKDS', b'TKDA', b'TKPS'],
                           maxlist=5, max_objs=10), compare, quick=150),
    Sub('each_kind', read_only(G.kind_documents(W)), compare, quick=500),
    Sub('long', read_only(G.long_documents(W, max_cost=8000)), compare, quick=150),
    Sub('attributes', read_only(G.long_documents(W, max_cost=8000, kinds=[b'ATTR', b'FILL'], min_objs=2)), compare, quick=80),
    Sub('documents', read_only(G.documents(W, max_objs=14)), compare, quick=250),
]


def EXAMPLES(tier):
    return [('documents', ('loaded', G.sample_doc(p), [('save', 'little'), ('reload',), ('save', 'big')])) for p in G.sample_paths()]
