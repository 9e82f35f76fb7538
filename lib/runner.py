"""Shared driver: forks shards, drives Hypothesis, shrinks, writes replay and evidence files.

A check module (checks/cNN.py) provides
    RULE         what makes a case non-trivial (text, goes to the evidence)
    SUBS         list of Sub
    EXAMPLES     optional list of (sub name, case), or a function of the tier that makes one: cases run before generation
    PROBES       optional list of (finding key, function): function() raises while the finding persists
    ASSUMPTIONS  optional list of strings
    setup(ctx) / teardown(ctx)   optional, run in the parent
"""
import hashlib
import importlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class HarnessError(Exception):
    """the machinery itself is broken: never a violation"""


class Violation(Exception):
    """the property is broken; any other exception out of a case means the same"""


class Abort(BaseException):
    pass


class CaseTimeout(Exception):
    pass


class Sub(object):
    def __init__(self, name, strategy, run, quick, thorough=None, cpu_limit=60, shards=None, cold=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.cpu_limit, self.shards, self.cold = cpu_limit, shards, cold


class Ctx(object):
    """what a case may use: scratch paths, labels"""
    def __init__(self, scratch, tier):
        self.scratch, self.tier = scratch, tier
        self.labels = {}
        self.n = 0
        self.shared = {}

    def path(self, name='f.avb'):
        return os.path.join(self.scratch, name)

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1


CTX = None


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = '<unprintable %s>' % e
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


def case_key(case):
    return hashlib.blake2b(pickle.dumps(case, 4), digest_size=8).digest()


def examples(mod, tier):
    ex = getattr(mod, 'EXAMPLES', [])
    return list(ex(tier) if callable(ex) else ex)


def one_case(sub, case):
    """run one case; returns the case's nontriviality, raises on failure"""
    def on_alarm(sig, frm):
        raise CaseTimeout('did not finish within %d s of processor time' % sub.cpu_limit)
    def limited():
        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu_limit)
        try:
            return sub.run(CTX, case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return in_child(limited) if sub.cold else limited()


def in_child(run):
    """run in a forked process, so that no case sees what an earlier one left in the library's modules"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            CTX.labels = {}
            try:
                r = ('ok', bool(run()), CTX.labels)
            except HarnessError as e:
                r = ('harness', str(e))
            except Exception as e:
                r = ('fail', '%s: %s' % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(wr, 'wb') as o:
                pickle.dump(r, o)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, 'rb') as i:
        data = i.read()
    status = os.waitpid(pid, 0)[1]
    if not data:
        raise Violation('the process died (status %d)' % status)
    r = pickle.loads(data)
    if r[0] == 'harness':
        raise HarnessError(r[1])
    if r[0] == 'fail':
        raise Violation('%s\n%s' % r[1:])
    for k, n in r[2].items():
        CTX.labels[k] = CTX.labels.get(k, 0) + n
    return r[1]


class State(object):
    pass


def run_sub(sub, n, seed, st, deadline, stopflag):
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    from hypothesis.errors import HypothesisException, UnsatisfiedAssumption, Unsatisfiable
    fail = {}
    keys = st.keys.setdefault(sub.name, set())

    def body(case):
        now = time.time()
        if now > deadline:
            raise Abort('budget')
        if fail and now - fail['t0'] > 40:
            raise Abort('shrink')
        if os.path.exists(stopflag) and not fail:
            raise Abort('stop')
        st.evals += 1
        try:
            r = one_case(sub, case)
        except (UnsatisfiedAssumption, HypothesisException):
            raise
        except HarnessError:
            raise
        except Exception as e:
            if isinstance(e, MemoryError):
                pass
            fail.setdefault('t0', time.time())
            fail['case'] = case
            fail['tb'] = traceback.format_exc()
            fail['err'] = '%s: %s' % (type(e).__name__, e)
            raise
        if r and not fail:
            keys.add(case_key(case))
            ss = st.samples.setdefault(sub.name, [])
            if len(ss) < 3:
                ss.append(short(case))

    test = given(sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Abort as e:
        if str(e) == 'budget':
            st.budget_hit.append(sub.name)
    except HarnessError:
        raise
    except Unsatisfiable:
        raise HarnessError('generator of %s produced nothing' % sub.name)
    except BaseException:
        if not fail:
            raise HarnessError(traceback.format_exc())
    return fail or None


def worker(mod, shard, shards, tier, seed, deadline, base, outpath):
    global CTX
    scratch = os.path.join(base, 's%d' % shard)
    os.mkdir(scratch)
    CTX = Ctx(scratch, tier)
    CTX.shared = mod.__dict__.get('SHARED', {})
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = scratch
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(os.devnull, 'w')
    lim = getattr(mod, 'AS_LIMIT', 6 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    st = State()
    st.evals, st.keys, st.samples, st.budget_hit = 0, {}, {}, []
    st.fails, st.harness, st.per = [], None, {}
    stopflag = os.path.join(base, 'stop')
    try:
        if hasattr(mod, 'worker_setup'):
            mod.worker_setup(CTX)
        byname = {s.name: s for s in mod.SUBS}
        for name, case in examples(mod, tier)[shard::shards]:
            if os.path.exists(stopflag) or time.time() > deadline:
                break
            st.evals += 1
            sub = byname[name]
            try:
                if one_case(sub, case):
                    st.keys.setdefault(name, set()).add(case_key(case))
            except HarnessError:
                raise
            except Exception as e:
                st.fails.append((name, dict(case=case, tb=traceback.format_exc(),
                                            err='%s: %s' % (type(e).__name__, e))))
                open(stopflag, 'w').close()
                break
        subs = list(mod.SUBS)
        k = (shard * len(subs)) // shards
        for sub in subs[k:] + subs[:k]:
            if st.fails or time.time() > deadline or os.path.exists(stopflag):
                break
            if sub.shards is not None and shard >= sub.shards:
                continue
            total = sub.quick if tier == 'quick' else sub.thorough
            m = sub.shards or shards
            n = total // m + (1 if shard < total % m else 0)
            if not n:
                continue
            t0, e0 = time.time(), st.evals
            f = run_sub(sub, n, (seed * 1000003 + shard * 7919 + zlib.crc32(sub.name.encode())) & 0x7fffffff,
                        st, deadline, stopflag)
            st.per[sub.name] = (st.evals - e0, time.time() - t0)
            if f:
                st.fails.append((sub.name, f))
                open(stopflag, 'w').close()
    except HarnessError as e:
        st.harness = str(e)
    except BaseException:
        st.harness = traceback.format_exc()
    finally:
        if hasattr(mod, 'worker_teardown'):
            try:
                mod.worker_teardown(CTX)
            except Exception:
                pass
    st.labels = CTX.labels
    try:
        with open(outpath, 'wb') as f:
            pickle.dump(st.__dict__, f)
    except Exception:
        with open(outpath, 'wb') as f:
            pickle.dump(dict(harness=traceback.format_exc()), f)


def load_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                parts = dict(x.split('=', 1) for x in l.split(None, 3)[1:3])
                r.append((parts['property'], parts['key'], l.split(None, 3)[3]))
    return r


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS', '0')))
    a = ap.parse_args(argv)
    t0 = time.time()
    pid = a.id.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    base = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 2
    try:
        sys.pycache_prefix = os.path.join(base, 'pyc')
        os.environ['PYTHONPYCACHEPREFIX'] = sys.pycache_prefix
        os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = base
        sys.path.insert(0, os.path.join(REPO, 'src'))
        sys.path.insert(0, os.path.join(VERIF, 'checks'))
        rc = run_check(pid, a, seed, base, t0)
    except HarnessError as e:
        print('ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    return rc


def write_replay(pid, name, f, replay_dir):
    os.makedirs(replay_dir, exist_ok=True)
    h = hashlib.blake2b(f['tb'].encode(), digest_size=5).hexdigest()
    p = os.path.join(replay_dir, '%s-%s-%s.pickle' % (pid, name, h))
    with open(p, 'wb') as o:
        pickle.dump((name, f['case']), o)
    with open(p[:-7] + '.txt', 'w') as o:
        o.write('case: %s\n\n%s\n' % (short(f['case'], 20000), f['tb']))
    return p


def run_check(pid, a, seed, base, t0):
    global CTX
    mod = importlib.import_module(pid.lower())
    subs = mod.SUBS
    if a.only:
        mod.SUBS = subs = [s for s in subs if s.name in a.only.split(',')]
        mod.EXAMPLES = [e for e in examples(mod, a.tier) if e[0] in a.only.split(',')]
    for s in subs:
        s.quick = max(1, int(s.quick * a.scale))
        s.thorough = max(1, int(s.thorough * a.scale))
    pctx = Ctx(base, a.tier)
    pctx.labels = {}
    if hasattr(mod, 'setup'):
        mod.setup(pctx)
    try:
        if a.replay:
            os.mkdir(os.path.join(base, 'r'))
            CTX = Ctx(os.path.join(base, 'r'), a.tier)
            name, case = pickle.load(open(a.replay, 'rb'))
            sub = {s.name: s for s in subs}[name]
            if hasattr(mod, 'worker_setup'):
                mod.worker_setup(CTX)
            try:
                one_case(sub, case)
            except HarnessError:
                raise
            except Exception:
                traceback.print_exc()
                print('VIOLATION property=%s replay=%s' % (pid, a.replay))
                return 1
            finally:
                if hasattr(mod, 'worker_teardown'):
                    mod.worker_teardown(CTX)
            print('replay passes')
            return 0
        return explore(pid, a, seed, base, t0, mod, subs)
    finally:
        if hasattr(mod, 'teardown'):
            mod.teardown(pctx)


def explore(pid, a, seed, base, t0, mod, subs):
    shards = a.shards or min(8, os.cpu_count() or 4)
    budget = getattr(mod, 'BUDGET', {}).get(a.tier) or (300 if a.tier == 'quick' else 3600)
    deadline = t0 + budget
    pids = {}
    for s in range(shards):
        out = os.path.join(base, 'out%d' % s)
        p = os.fork()
        if p == 0:
            try:
                worker(mod, s, shards, a.tier, seed, deadline, base, out)
            finally:
                os._exit(0)
        pids[p] = out
    harness = []
    left = dict(pids)
    while left:
        for p in list(left):
            r, status = os.waitpid(p, os.WNOHANG)
            if r:
                del left[p]
                if status:
                    harness.append('worker ended with status %d' % status)
        if left:
            if time.time() > deadline + 120:
                for p in left:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                left = {}
            time.sleep(0.02)
    evals, keys, samples, labels, hit, fails, per = 0, {}, {}, {}, set(), [], {}
    for out in pids.values():
        if not os.path.exists(out):
            continue
        d = pickle.load(open(out, 'rb'))
        if d.get('harness'):
            harness.append(d['harness'])
        if 'evals' not in d:
            continue
        evals += d['evals']
        for k, v in d['keys'].items():
            keys.setdefault(k, set()).update(v)
        for k, v in d['samples'].items():
            samples.setdefault(k, []).extend(v)
        for k, v in d['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, (n, t) in d['per'].items():
            x = per.setdefault(k, [0, 0.0])
            x[0] += n
            x[1] += t
        hit.update(d['budget_hit'])
        fails += d['fails']
    rc = 0
    viols = []
    known = [(k, t) for p, k, t in load_findings() if p == pid]
    probes = dict(getattr(mod, 'PROBES', []))
    global CTX
    if known and not fails:
        sc = os.path.join(base, 'probe')
        os.mkdir(sc)
        CTX = Ctx(sc, a.tier)
        for k, text in known:
            if k not in probes:
                raise HarnessError('no probe for known finding %s' % k)
            try:
                with open(os.devnull, 'w') as dn:
                    so, sys.stdout = sys.stdout, dn
                    try:
                        probes[k](CTX)
                    finally:
                        sys.stdout = so
                print('known finding no longer fails: property=%s %s' % (pid, k))
            except HarnessError:
                raise
            except Exception:
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
    replay_dir = os.path.join(VERIF, 'replays')
    for name, f in fails[:4]:
        p = write_replay(pid, name, f, replay_dir)
        viols.append(dict(sub=name, error=f['err'][:500], replay=p))
        print('%s/%s: %s' % (pid, name, f['err'][:1000]))
        if a.v:
            print(f['tb'])
        print('VIOLATION property=%s replay=%s' % (pid, p))
        rc = 1
    if harness and not rc:
        print('ERROR in the machinery:\n%s' % '\n'.join(harness[:3]))
        rc = 2
    nontriv = sum(len(v) for v in keys.values())
    ev = dict(property=pid, tier=a.tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv, rule=mod.RULE,
                            samples=[dict(sub=k, case=x) for k, v in samples.items() for x in v[:2]][:24],
                            per_sub={k: dict(evaluations=n, cpu_wall_s=round(t, 1), distinct_nontrivial=len(keys.get(k, ())))
                                     for k, (n, t) in per.items()},
                            classes=labels, budget_hit=sorted(hit)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + ['shards=%d' % shards],
              wall_s=round(time.time() - t0, 2), violations=viols)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o:
        json.dump(ev, o, indent=1, sort_keys=True, default=str)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (
        pid, a.tier, evals, nontriv, ev['wall_s'], ', budget hit: %s' % ','.join(sorted(hit)) if hit else ''))
    if a.v:
        for k, (n, t) in sorted(per.items()):
            print('   %-24s %6d cases %7.1f cpu-s  nontrivial %d' % (k, n, t, len(keys.get(k, ()))))
        for k, v in sorted(labels.items()):
            print('   label %-40s %d' % (k, v))
    return rc
