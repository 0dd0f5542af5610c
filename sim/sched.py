"""Cooperative scheduler over real threads: one runs, the others are parked on a baton.

A switch can happen before any executed line of SMT code (sys.settrace), and at explicit yield
points (simulated disk operations, simulated evaluations).  Which task runs next is decided by the
schedule alone: either drawn from a seeded generator, or read from an explicit list of switches
(replay and minimisation).
"""
import math, random, sys, threading
from . import inject


ACTIVE = None


class Deadlock(Exception):
    pass


class SimLock:
    """Stands for threading.Lock / RLock made by SMT code: blocking is the scheduler's business."""

    def __init__(self, reentrant=False):
        self.re, self.owner, self.n = reentrant, None, 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner == me and self.re:
            self.n += 1
            return True
        if self.owner is not None:
            if not blocking or timeout >= 0:
                return False
            if ACTIVE is None or ACTIVE.cur is None:
                raise Deadlock("lock held and nobody to release it")
            ACTIVE.wait(lambda: self.owner is None)
        self.owner, self.n = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n <= 0:
            self.owner, self.n = None, 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def smt_caller():
        f = sys._getframe(2)
        name = f.f_code.co_filename
        # scipy guards COBYLA and its iterative solvers, which call back into SMT code, with locks of its own
        return inject.in_scope(name) or "/site-packages/scipy/" in name

    def Lock():
        return SimLock() if smt_caller() else real_lock()

    def RLock():
        return SimLock(True) if smt_caller() else real_rlock()
    threading.Lock, threading.RLock = Lock, RLock


class Sched:
    def __init__(self, spec, rng_states=True, max_events=20_000_000):
        """spec: {"mode": "random", "seed": s, "gap": g} or {"mode": "list", "switches": [[n, t], ...]}"""
        self.spec = spec
        self.events = 0
        self.switches = []         # recorded [event number, task]
        self.tasks = []
        self.cur = None
        self.rng_states = rng_states
        self.max_events = max_events
        self.points = {}
        self.files = set()
        if spec["mode"] == "random":
            self.rng = random.Random(spec["seed"])
            self.gap = max(1, int(spec["gap"]))
            self.next = self._draw()
        else:
            self.todo = {int(a): int(b) for a, b in spec["switches"]}
            self.next = min(self.todo) if self.todo else None
        self.overlap = 0

    def _draw(self):
        u = self.rng.random()
        # a run keeps to some thousands of switches: later ones come further apart
        gap = self.gap * 2 ** (len(self.switches) // 1500)
        return self.events + 1 + int(-math.log(1 - u) * gap)

    def refine(self, case):
        """The case with the switches of this run written out."""
        if self.spec["mode"] != "random" or len(self.switches) > 4000:
            return None
        import copy
        c = copy.deepcopy(case)
        c["sched"] = dict(self.spec, mode="list", switches=[list(x) for x in self.switches])
        for k in ("seed", "gap"):
            c["sched"].pop(k, None)
        return c

    def spawn(self, fn, np_seed=None):
        t = _Task(self, len(self.tasks), fn, np_seed)
        self.tasks.append(t)
        return t

    def run(self, lines=True):
        """Runs all tasks to their end; lines=False: switches at explicit yield points only."""
        global ACTIVE
        import numpy as np
        if not self.tasks:
            return
        self.lines = lines
        ACTIVE = self
        self._main = threading.Semaphore(0)
        self._np = np
        saved = np.random.get_state()
        for t in self.tasks:
            t.thread.start()
        first = self.tasks[self.spec.get("first", 0) % len(self.tasks)]
        self._resume(first)
        self._main.acquire()
        for t in self.tasks:
            t.thread.join()
        ACTIVE = None
        self.cur = None
        np.random.set_state(saved)

    def wait(self, free):
        """The running task cannot go on before free(): hands over to the others in turn."""
        me = self.cur
        me.free = free
        while not free():
            live = self._live(me)
            if not live:
                raise Deadlock("task %d waits for ever" % me.no)
            self._switch(me, min(live, key=lambda t: (t.no - me.no) % len(self.tasks)))
        me.free = None

    def _live(self, me):
        return [t for t in self.tasks if not t.done and t is not me and (t.free is None or t.free())]

    # ---- hand-over
    def _resume(self, t):
        if self.rng_states:
            self._np.random.set_state(t.np_state)
        self.cur = t
        t.baton.release()

    def _park(self, t):
        if self.rng_states:
            t.np_state = self._np.random.get_state()

    def _switch(self, me, other):
        self.switches.append([self.events, other.no])
        self._park(me)
        self._resume(other)
        me.baton.acquire()

    def _finished(self, me):
        self._park(me)
        me.done = True
        if all(t.done for t in self.tasks):
            self._main.release()
            return
        live = self._live(me) or [t for t in self.tasks if not t.done]
        # forced choice: next live task after me, cyclically (or as the schedule says)
        nxt = min(live, key=lambda t: (t.no - me.no) % len(self.tasks))
        self._resume(nxt)

    def yield_point(self, label="line"):
        """Called by the running task; may hand over to another one."""
        me = self.cur
        if me is None or threading.current_thread() is not me.thread:
            return
        self.events += 1
        if self.events > self.max_events:
            raise inject.StepLimit("schedule exceeds %d events" % self.max_events)
        if self.next is None or self.events < self.next:
            return
        live = self._live(me)
        if self.spec["mode"] == "random":
            self.next = self._draw()
            if not live:
                return
            other = live[self.rng.randrange(len(live))]
        else:
            want = self.todo.pop(self.events, None)
            self.next = min(self.todo) if self.todo else None
            other = next((t for t in live if t.no == want), None)
            if other is None:
                return
        self.points[label] = self.points.get(label, 0) + 1
        if label != "line" or True:
            fr = sys._getframe(1)
            self.files.add((label, fr.f_code.co_name if label != "line" else ""))
        self._switch(me, other)

    # ---- tracing
    def _gtrace(self, frame, event, arg):
        return self._ltrace if inject.in_scope(frame.f_code.co_filename) else None

    def _ltrace(self, frame, event, arg):
        if event == "line":
            n = self.events + 1
            if self.next is None or n < self.next:
                self.events = n
            else:
                self.where = (frame.f_code.co_name, frame.f_lineno)
                self.yield_point("line")
        return self._ltrace

    def run_traced(self, fn):
        if not self.lines:
            return fn()
        sys.settrace(self._gtrace)
        try:
            return fn()
        finally:
            sys.settrace(None)


class _Task:
    def __init__(self, sched, no, fn, np_seed):
        import numpy as np
        self.sched, self.no, self.fn = sched, no, fn
        self.baton = threading.Semaphore(0)
        self.done = False
        self.free = None           # set while blocked on a lock
        self.result = None
        self.error = None
        self.np_state = np.random.RandomState(0 if np_seed is None else np_seed).get_state()
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.baton.acquire()
        try:
            self.result = self.sched.run_traced(self.fn)
        except BaseException as e:        # recorded; the oracle judges it
            self.error = e
        self.sched._finished(self)
