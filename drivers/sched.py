"""Controlled thread schedules: threads running the code under test are switched between its source lines.

Only one thread runs at a time.  A thread gives way before each line of the traced files, and where it waits for a lock of
that code.  Import this module before the code under test: locks made by it are made here."""
import os
import sys
import threading
import time

REPO = os.environ["PYTHONPATH"].split(":")[0]
_real_lock, _real_rlock = threading.Lock, threading.RLock
current = None      # the schedule being run
_me = threading.local()


class CoopLock:
    def __init__(self, real):
        self.real = real
        self.holders = 0

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = getattr(_me, "i", None)
        if s is None or me is None or not blocking:
            ok = self.real.acquire(blocking, timeout)
            if ok:
                self.holders += 1
            return ok
        end = time.monotonic() + timeout if timeout >= 0 else None
        while not self.real.acquire(False):
            if end is not None and time.monotonic() > end:
                return False
            s.give_way(me, self)
        self.holders += 1
        return True

    def release(self):
        self.holders -= 1
        self.real.release()

    def locked(self):
        return self.holders > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _factory(real):
    def make(*a, **kw):
        if sys._getframe(1).f_code.co_filename.startswith(REPO):
            return CoopLock(real())
        return real()
    return make


threading.Lock = _factory(_real_lock)
threading.RLock = _factory(_real_rlock)


class Sched:
    """run fns (one thread each) under a policy: policy(step, ready threads, last) -> thread"""

    def __init__(self, fns, policy, on_step=None, dirs=("mysockpool",), stuck=0.03, limit=4.0):
        self.fns, self.policy, self.on_step = fns, policy, on_step
        self.dirs = tuple(os.path.join(REPO, d) for d in dirs)
        self.gate = [threading.Semaphore(0) for _ in fns]
        self.main = threading.Semaphore(0)
        self.state = ["ready"] * len(fns)       # ready / running / stuck / done
        self.waits = [None] * len(fns)
        self.steps = 0
        self.choices = []
        self.stuck, self.limit = stuck, limit
        self.deadlock = False
        self.over = False
        self.errors = []

    def give_way(self, i, lock=None):
        if self.over:
            if lock is not None:
                time.sleep(0.001)
            return
        self.waits[i] = lock
        self.state[i] = "ready"
        self.main.release()
        self.gate[i].acquire()
        self.waits[i] = None

    def thread(self, i):
        _me.i = i
        self.gate[i].acquire()
        dirs = self.dirs

        def local(frame, event, arg):
            if event == "line":
                self.give_way(i)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(dirs) else None
        sys.settrace(glob)
        try:
            self.fns[i]()
        except BaseException as e:
            self.errors.append(repr(e))
        sys.settrace(None)
        self.state[i] = "done"
        self.main.release()

    def run(self):
        global current
        current = self
        ths = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ths:
            t.start()
        last = None
        quiet_since = None
        while True:
            if all(s == "done" for s in self.state):
                break
            ready = [i for i, s in enumerate(self.state) if s == "ready" and not (self.waits[i] and self.waits[i].holders > 0
                                                                                 and any(x != "done" for j, x in enumerate(self.state) if j != i))]
            if not ready:
                ready = [i for i, s in enumerate(self.state) if s == "ready" and self.waits[i] is None]
            if not ready:
                quiet_since = quiet_since or time.monotonic()
                if time.monotonic() - quiet_since > self.limit:
                    self.deadlock = True
                    break
                self.main.acquire(timeout=0.002)
                continue
            quiet_since = None
            i = self.policy(self.steps, ready, last if last in ready else None)
            self.choices.append(i)
            self.steps += 1
            last = i
            self.state[i] = "running"
            self.gate[i].release()
            end = time.monotonic() + self.stuck
            while self.state[i] == "running":
                if not self.main.acquire(timeout=max(0.0005, end - time.monotonic())) and time.monotonic() > end:
                    if self.state[i] == "running":
                        self.state[i] = "stuck"
                    break
            if self.on_step:
                self.on_step()
            if self.steps > 20000:
                self.deadlock = True
                break
        self.over = True
        for g in self.gate:
            g.release()
        if not self.deadlock:
            for t in ths:
                t.join(2)
        current = None
        return self


def preempt(switches):
    """run on until the given steps, where another thread takes over: switches = {step: thread}"""
    def pol(step, ready, last):
        t = switches.get(step)
        if t is not None and t in ready:
            return t
        return last if last is not None else ready[0]
    return pol


def randomly(rng, p):
    def pol(step, ready, last):
        if last is None or rng.random() < p:
            return rng.choice(ready)
        return last
    return pol


def pct(rng, n, depth, steps):
    """priorities with `depth` random change points"""
    prio = list(range(n))
    rng.shuffle(prio)
    points = {rng.randrange(max(1, steps)) for _ in range(depth)}

    def pol(step, ready, last):
        if step in points and last is not None:
            prio[last] = min(prio) - 1
        return max(ready, key=lambda i: prio[i])
    return pol


def explore(make, rng, budget, full_single=True):
    """Runs make(policy) -> (key, result) under many schedules: every order without preemption, every single preemption,
    then pairs of preemptions, random and priority schedules up to the budget.  Yields (schedule, result)."""
    import itertools
    n_runs = 0
    base = {}
    n = None
    first = []

    def go(pol, what):
        nonlocal n_runs
        n_runs += 1
        s, r = make(pol)
        return s, (what, r)
    s, r = go(preempt({}), "plain")
    n = len(s.fns)
    yield r
    lens = {0: s.steps}
    for p in range(1, n):
        s, r = go(preempt({0: p}), "start%d" % p)
        lens[p] = s.steps
        yield r
    singles = [(st, i, j) for st in range(n) for i in range(1, lens[st]) for j in range(n)]
    if len(singles) > budget * 0.6:
        rng.shuffle(singles)
        singles = singles[:int(budget * 0.6)]
    for st, i, j in singles:
        s, r = go(preempt({0: st, i: j}), [st, i, j])
        yield r
    while n_runs < budget:
        x = rng.random()
        m = max(lens.values())
        if x < 0.45:
            sw = {0: rng.randrange(n)}
            for _ in range(rng.choice([2, 2, 3])):
                sw[rng.randrange(1, m)] = rng.randrange(n)
            s, r = go(preempt(sw), sorted(sw.items()))
        elif x < 0.7:
            s, r = go(randomly(rng, rng.choice([.05, .1, .3, .7])), "random")
        else:
            s, r = go(pct(rng, n, rng.choice([1, 2, 3]), m), "pct")
        yield r
