"""Deterministic scheduler for caller threads.

Every simulated thread is a real thread, parked on its own gate; exactly one of them holds the baton.  The baton
moves only at points the scheduler decides: at an instruction of the code under test (see instr.py), when a
thread blocks on a simulated lock, on a condition or on the virtual clock, and when it ends.  Which thread goes on
is drawn from the run's generator or read from an explicit schedule (replay, minimisation)."""
import heapq
import sys
import threading
from _thread import allocate_lock, get_ident

from . import instr
from .core import HarnessError, THINC, fp

WATCHDOG_S = 120.0


class Deadlock(Exception):
    pass


class SimThread:
    def __init__(self, sched, idx, fn, name):
        self.sched, self.idx, self.fn, self.name = sched, idx, fn, name
        self.gate = allocate_lock()
        self.gate.acquire()
        self.count = 0
        self.next_stop = instr.NEVER
        self.done = False
        self.pred = None  # blocked while pred is set and pred() is false
        self.exc = None
        self.result = None
        self.kill = None  # exception to raise in this thread at its next preemption point
        self.killed = False
        self.points = []  # remaining explicit/PCT preemption counts

    def ready(self):
        return not self.done and (self.pred is None or bool(self.pred()))

    def stop(self, code, offset):
        self.sched._preempt(self, code, offset)


_current = {}  # ident -> SimThread


def current():
    return _current.get(get_ident())


class Sched:
    """mode: {"kind": "random", "gap": g} | {"kind": "pct", "points": [[thread, count], ...]} |
    {"kind": "explicit", "switches": [[thread, count, target], ...], "picks": [target, ...]} |
    {"kind": "serial"}"""

    def __init__(self, run, mode, rng):
        self.run_, self.mode, self.rng = run, mode, rng
        self.threads = []
        self.now = 0.0
        self.timers = []
        self.seq = 0
        self.main_gate = allocate_lock()
        self.main_gate.acquire()
        self.switches = []  # recorded [thread, count, target]
        self.picks = []  # recorded picks at blocking points
        self.deadlocked = False
        self.error = None
        self._pick_i = 0
        self.fingerprint = []

    # -- building
    def spawn(self, fn, name=None):
        t = SimThread(self, len(self.threads), fn, name or f"t{len(self.threads)}")
        self.threads.append(t)
        return t

    # -- running
    def run(self):
        kind = self.mode["kind"]
        for t in self.threads:
            if kind == "random":
                t.next_stop = self._gap()
            elif kind == "pct":
                t.points = sorted(c for i, c in self.mode["points"] if i == t.idx)
                t.next_stop = t.points.pop(0) if t.points else instr.NEVER
            elif kind == "explicit":
                t.points = sorted([c, tgt] for i, c, tgt in self.mode["switches"] if i == t.idx)
                t.next_stop = t.points[0][0] if t.points else instr.NEVER
        reals = []
        for t in self.threads:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            reals.append(th)
            th.start()
        first = self._pick(None)
        if first is not None:
            first.gate.release()
            if not self.main_gate.acquire(timeout=WATCHDOG_S):
                raise HarnessError("simulated threads made no progress (real lock held across a preemption?)")
        for th in reals:
            th.join(10)
        self.run_.steps += sum(t.count for t in self.threads)
        self.run_.sim_time += self.now
        if self.error is not None:
            raise self.error
        self.run_.explicit = {"kind": "explicit", "switches": self.switches, "picks": self.picks}
        self.run_.measure.add(fp(tuple(self.fingerprint)))
        return self

    def _body(self, t):
        t.gate.acquire()
        _current[get_ident()] = t
        instr.register(t)
        try:
            t.result = t.fn()
        except BaseException as e:  # noqa: B902  recorded and judged by the property
            t.exc = e
        finally:
            instr.unregister()
            _current.pop(get_ident(), None)
            t.done = True
            self.run_.log.add("end", t.idx, t.count, type(t.exc).__name__)
            try:
                nxt = self._pick(None)
            except BaseException as e:
                self.error = e
                nxt = None
            (nxt.gate if nxt is not None else self.main_gate).release()

    def _gap(self):
        return 1 + int(self.rng.expovariate(1.0 / self.mode["gap"]))

    # -- decisions
    def _preempt(self, t, code, offset):
        kind = self.mode["kind"]
        if t.kill is not None:
            exc, t.kill = t.kill, None
            t.killed = True
            t.next_stop = instr.NEVER
            raise exc
        if kind == "random":
            t.next_stop = t.count + self._gap()
            ready = [x for x in self.threads if x.ready()]
            target = ready[self.rng.randrange(len(ready))]
        elif kind == "pct":
            t.next_stop = t.points.pop(0) if t.points else instr.NEVER
            ready = [x for x in self.threads if x is not t and x.ready()] or [t]
            target = ready[self.rng.randrange(len(ready))]
        else:
            _, tgt = t.points.pop(0)
            t.next_stop = t.points[0][0] if t.points else instr.NEVER
            target = self.threads[tgt] if tgt < len(self.threads) and self.threads[tgt].ready() else t
        if target is t:
            return
        self.switches.append([t.idx, t.count, target.idx])
        self.fingerprint.append((t.idx, code.co_name, offset, target.idx))
        self.run_.log.add("switch", t.idx, t.count, code.co_qualname, offset, target.idx)
        self.run_.probe("preemptions")
        self._handoff(t, target)

    def _handoff(self, t, target):
        target.gate.release()
        t.gate.acquire()
        if self.deadlocked:
            raise Deadlock("all threads are blocked")

    def _pick(self, t):
        """Next thread after the current one blocked or ended; advances the virtual clock when nobody can run."""
        while True:
            ready = [x for x in self.threads if x.ready()]
            if ready:
                if self.mode["kind"] == "explicit":
                    target = None
                    if self._pick_i < len(self.mode["picks"]):
                        i = self.mode["picks"][self._pick_i]
                        if i < len(self.threads) and self.threads[i].ready():
                            target = self.threads[i]
                    self._pick_i += 1
                    if target is None:
                        target = ready[0]
                elif self.mode["kind"] == "serial":
                    target = ready[0]
                else:
                    target = ready[self.rng.randrange(len(ready))]
                self.picks.append(target.idx)
                self.fingerprint.append(("pick", target.idx))
                self.run_.log.add("pick", target.idx, round(self.now, 9))
                return target
            if self.timers:
                at, _, fn = heapq.heappop(self.timers)
                self.now = max(self.now, at)
                fn()
                continue
            if all(x.done for x in self.threads):
                return None
            # Nobody can run and no timer is left: wake all blocked threads with an error.
            self.deadlocked = True
            self.run_.probe("deadlock")
            for x in self.threads:
                x.pred = None

    # -- services for simulated threads and simulated environment
    def after(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.timers, (self.now + delay, self.seq, fn))

    def block_until(self, pred):
        t = current()
        if t is None:
            if not pred():
                raise HarnessError("block_until outside a simulated thread")
            return
        while not pred():
            t.pred = pred
            target = self._pick(t)
            if target is not t:
                self._handoff(t, target)
            t.pred = None
            if self.deadlocked:
                raise Deadlock("all threads are blocked")

    def sleep(self, dt):
        fired = []
        self.after(dt, lambda: fired.append(1))
        self.block_until(lambda: fired)

    def yield_(self):
        """Explicit preemption point in harness code."""
        t = current()
        if t is None or self.mode["kind"] == "serial":
            return
        target = self._pick(t)
        if target is not t:
            self._handoff(t, target)


# ------------------------------------------------------------------ simulated locks

class SimLock:
    """threading.Lock for the code under test: blocks in the scheduler, not in the kernel."""

    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        t = current()
        me = t if t is not None else "main"
        if self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if t is None:
                raise HarnessError("lock held by a simulated thread while none is running")
            t.sched.run_.probe("lock_contention")
            t.sched.block_until(lambda: self.owner is None)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth <= 0:
            self.depth = 0
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    reentrant = True


def install_lock_seam():
    """threading.Lock/RLock called from the code under test give simulated locks.  Call before importing thinc."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_thinc():
        f = sys._getframe(2)
        for _ in range(3):
            if f is None:
                return False
            if f.f_code.co_filename.startswith(THINC):
                return True
            if not f.f_code.co_filename.endswith("threading.py"):
                return False
            f = f.f_back
        return False

    def Lock():
        return SimLock() if from_thinc() else real_lock()

    def RLock(*a, **k):
        return SimRLock() if from_thinc() else real_rlock(*a, **k)

    threading.Lock, threading.RLock = Lock, RLock
