"""Open documents do not affect one another."""
import importlib
import os
import pkgutil
import shutil
import signal
import sys
import threading
import traceback
from hypothesis import strategies as st
import avb
import common as C
import runner
from runner import Sub, Violation

RULE = 'at least two documents were in the middle of something at the same time, control passing between them at least three times'
ASSUMPTIONS = [
    'each document, with its objects and its file, belongs to one program part (thread); parts share nothing but the library',
    'all parts live in the same time zone',
]

AVB = os.path.dirname(os.path.abspath(avb.__file__)) + os.sep
SECONDS = 60

# the programs: generated cases of other checks, each a history of one or two documents with its own oracle
SOURCES = [('c01', 'documents'), ('c01', 'each_kind'), ('c02', 'created'), ('c02', 'loaded'), ('c03', 'documents'),
           ('c03', 'each_kind'), ('c04', 'histories'), ('c04', 'lists'), ('c04', 'mobs'), ('c05', 'histories'),
           ('c05', 'assigned_back'), ('c06', 'schedules'), ('c07', 'enumerations'), ('c07', 'in_turns'), ('c11', 'rates'),
           ('c11', 'doubles'), ('c13', 'pairs'), ('c14', 'copies'), ('c14', 'independence'), ('c15', 'history'),
           ('c21', 'listing'), ('c23', 'lists'), ('c23', 'dicts'), ('c27', 'loaded'), ('c27', 'created')]
STRATEGIES, RUNS = {}, {}
for mod_, sub_ in SOURCES:
    for s_ in importlib.import_module(mod_).SUBS:
        if s_.name == sub_:
            STRATEGIES[mod_, sub_], RUNS[mod_, sub_] = s_.strategy, s_.run
assert len(RUNS) == len(SOURCES)
for m_ in pkgutil.iter_modules([AVB]):
    if m_.name != '_ext':
        try:
            importlib.import_module('avb.' + m_.name)
        except ImportError:
            pass

def programs(names):
    return st.sampled_from(names).flatmap(lambda n: st.tuples(st.just(n), STRATEGIES[n]))


ANY = programs(SOURCES)
EDITING = programs([s for s in SOURCES if s[0] in ('c02', 'c03', 'c04', 'c05', 'c06', 'c14')])
GAPS = st.one_of(st.integers(1, 6), st.integers(1, 60), st.integers(1, 800), st.integers(1, 8000))


class Room(object):
    """what one program sees as its own check context"""
    def __init__(self, ctx, i):
        self.scratch = os.path.join(ctx.scratch, 'room%d' % i)
        self.tier, self.shared = ctx.tier, {}
        os.mkdir(self.scratch)

    def path(self, name='f.avb'):
        return os.path.join(self.scratch, name)

    def label(self, *names):
        pass


def play(ctx, i, program):
    """one program; None, or what went wrong"""
    (name, case) = program
    try:
        RUNS[name](Room(ctx, i), case)
    except Exception as e:
        return '%s/%s: %s: %s' % (name + (type(e).__name__, e)), traceback.format_exc()
    return None


def contained(ctx, run):
    """in a process of its own, which no earlier case has touched"""
    def body():
        def on_alarm(sig, frm):
            raise runner.CaseTimeout('did not finish within %d s of processor time' % SECONDS)
        C.set_zone(1)
        C.set_zone = lambda n: None
        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS)
        return run()
    try:
        return runner.in_child(body)
    finally:
        for i in range(20):
            shutil.rmtree(ctx.path('room%d' % i), ignore_errors=True)


def judged(ctx, todo, bad):
    """a program that fails among others must be fine when alone"""
    for i, p in enumerate(todo):
        def alone():
            r = play(ctx, i, p)
            return r is not None
        if contained(ctx, alone):
            ctx.label('fails alone')
            return False
    raise bad


def among(ctx, todo, run):
    try:
        return contained(ctx, run)
    except Violation as e:
        return judged(ctx, todo, e)


# ------------------------------------------------------------------ nested
def nested(ctx, case):
    """a program stops in the middle of whatever the library does for it, others run, it goes on"""
    outer, inner = case

    def run():
        rest = list(enumerate(inner))
        state = dict(left=rest[0][1][0], n=0)
        bad = []

        def local(frame, event, arg):
            if event == 'line' and rest:
                state['left'] -= 1
                if state['left'] <= 0:
                    i, (gap, p) = rest.pop(0)
                    state['n'] += 1
                    r = play(ctx, i + 1, p)
                    if r:
                        bad.append(r)
                    state['left'] = rest[0][1][0] if rest else 0
            return local

        def start(frame, event, arg):
            co = frame.f_code
            return local if rest and co.co_filename.startswith(AVB) and co.co_name != '<module>' else None
        sys.settrace(start)
        try:
            r = play(ctx, 0, outer)
        finally:
            sys.settrace(None)
        if r:
            bad.insert(0, r)
        if bad:
            raise Violation('in company: %s\n%s' % bad[0])
        runner.CTX.label('nested:%s in %s' % ('1' if state['n'] == 1 else 'more', outer[0][0]))
        return state['n'] >= 1 and len(inner) + 1 >= 2
    return among(ctx, [outer] + [p for g, p in inner], run)


# ------------------------------------------------------------------ threads
class Gone(BaseException):
    pass


class Turns(object):
    """a baton: one thread at a time, passed on after a given number of executed lines of the library"""
    def __init__(self, n, gaps):
        self.gaps, self.k, self.n = gaps, 0, n
        self.alive = list(range(n))
        self.gates = [threading.Semaphore(0) for i in range(n)]
        self.left = gaps[0][1]
        self.switches = self.ticks = 0
        self.free = False
        self.over = False
        self.done = threading.Event()

    def following(self, i):
        self.k = (self.k + 1) % len(self.gaps)
        who, self.left = self.gaps[self.k]
        others = [j for j in self.alive if j != i]
        return others[who % len(others)] if others else None

    def tick(self, i):
        if self.over:
            raise Gone()
        if self.free:
            return
        self.ticks += 1
        self.left -= 1
        if self.left <= 0:
            j = self.following(i)
            if j is not None:
                self.switches += 1
                self.gates[j].release()
                self.gates[i].acquire()
                if self.over:
                    raise Gone()

    def finish(self, i):
        self.alive.remove(i)
        if not self.alive:
            self.done.set()
        elif not self.free:
            self.gates[self.following(i)].release()

    def release(self):
        """everybody runs as they like"""
        self.free = True
        for g in self.gates:
            g.release()

    def stop(self):
        self.over = True
        for g in self.gates:
            g.release()


def threads(ctx, case):
    """one thread per program; control changes hands in the middle of whatever the library does"""
    todo, gaps = case

    def run():
        t = Turns(len(todo), gaps)
        res = [None] * len(todo)

        def body(i):
            def local(frame, event, arg):
                if event == 'line':
                    t.tick(i)
                return local

            def start(frame, event, arg):
                co = frame.f_code
                return local if co.co_filename.startswith(AVB) and co.co_name != '<module>' else None
            t.gates[i].acquire()
            try:
                sys.settrace(start)
                res[i] = play(ctx, i, todo[i])
            except Gone:
                pass
            except BaseException as e:
                res[i] = '%s: %s' % (type(e).__name__, e), traceback.format_exc()
            finally:
                sys.settrace(None)
                t.finish(i)
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(todo))]
        for x in ts:
            x.start()
        t.gates[0].release()
        try:
            seen = -1
            while not t.done.wait(10):
                if t.ticks == seen and not t.free:
                    t.release()        # somebody waits for something a paused thread holds
                seen = t.ticks
            for x in ts:
                x.join(10)
        except BaseException:
            t.stop()
            raise
        for r in res:
            if r:
                raise Violation('in company: %s\n%s' % r)
        runner.CTX.label('threads:%d' % len(todo), 'switches:%s' % ('<3' if t.switches < 3 else '3-30' if t.switches < 31 else '31-300' if
                         t.switches < 301 else '>300'))
        for p in todo:
            runner.CTX.label('program:' + p[0][0])
        if t.free:
            runner.CTX.label('threads ran freely')
        return t.switches >= 3
    return among(ctx, todo, run)


NEST = st.lists(st.tuples(GAPS, ANY), min_size=1, max_size=3)
TURNS = st.lists(st.tuples(st.integers(0, 3), GAPS), min_size=1, max_size=12)
SUBS = [
    Sub('nested', st.tuples(ANY, NEST), nested, quick=500),
    Sub('nested_edits', st.tuples(EDITING, st.lists(st.tuples(GAPS, EDITING), min_size=1, max_size=2)), nested, quick=450),
    Sub('threads', st.tuples(st.lists(ANY, min_size=2, max_size=4), TURNS), threads, quick=500),
    Sub('thread_edits', st.tuples(st.lists(EDITING, min_size=2, max_size=3), TURNS), threads, quick=450),
]
