"""The simulated scheduler: real threads of which exactly one runs, switched only where the seed says.

Every executed line and every return of a Python function of the tree under test is a scheduling point
(sys.monitoring). At a point the scheduler may hand the run to another task, or raise an injected exception in the
running task (an interrupt arriving there). Compiled code runs between two points, as it does under the interpreter
lock. The schedule is data: a list of [point number, task]; with it, a run repeats exactly."""
import _thread
import sys
import threading

from .core import Violation

TOOL = 4
MARK = "/mmcore/"

_active = None
_owner = {}
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class Aborted(BaseException):
    pass


class Injected(Exception):
    """The exception an injected fault raises inside the code under test."""


class Task:
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.result = None
        self.error = None
        self.waiting = None
        self.points = 0


class Scheduler:
    """mode: {'preempt': [[point, task], ...]} replays; {'rng': Stream, 'p': float} draws and records."""

    def __init__(self, ctx, preempt=None, rng=None, p=0.05, faults=(), limit=3_000_000, sticky=0):
        self.ctx = ctx
        self.tasks = []
        self.replay = None if preempt is None else {int(s): int(t) for s, t in preempt}
        self.rng = rng
        self.p = p
        self.recorded = []
        self.faults = {}
        for f in faults:
            self.faults[(f["task"], f["at"])] = f
        self.fired = []
        self.step = 0
        self.limit = limit
        self.current = None
        self.switches = 0
        self.main = _real_lock()
        self.main.acquire()
        self.failure = None
        self.trace_hash = 0

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    # -- running ---------------------------------------------------------------------------------------------
    def run(self):
        global _active
        if not self.tasks:
            return
        _active = self
        for t in self.tasks:
            threading.Thread(target=self._body, args=(t,), daemon=True).start()
        _install()
        try:
            first = self._choose(None)
            self.current = first
            first.gate.release()
            self.main.acquire()
        finally:
            _uninstall()
            _active = None
        self.ctx.steps += self.step
        self.ctx.count("switches", self.switches)
        self.ctx.event("sched", self.step, self.switches, self.trace_hash)
        if self.switches:
            self.ctx.states.add(self.trace_hash & 0xFFFFFFFFFFFF)
        if self.failure is not None:
            raise self.failure

    def _body(self, t):
        t.gate.acquire()
        _owner[_thread.get_ident()] = (self, t)
        try:
            if self.failure is None:
                t.result = t.fn()
        except Aborted:
            pass
        except BaseException as e:  # noqa: BLE001 - the task's outcome, judged by the caller
            t.error = e
        finally:
            _owner.pop(_thread.get_ident(), None)
            t.done = True
            self._handover(t)

    def _handover(self, t):
        nxt = self._choose(None)
        if nxt is None:
            if any(not x.done for x in self.tasks):
                if self.failure is None:
                    self.failure = Violation("deadlock", "every unfinished task waits for a lock")
                for x in self.tasks:  # wake them so that they end
                    if not x.done:
                        x.waiting = None
                        self.current = x
                        x.gate.release()
                        return
            self.main.release()
            return
        self.current = nxt
        nxt.gate.release()

    def _runnable(self):
        return [t for t in self.tasks if not t.done and (t.waiting is None or not t.waiting.locked())]

    def _choose(self, me):
        """The next task at a forced choice (start, end of a task, block)."""
        ready = self._runnable()
        if not ready:
            return None
        if len(ready) == 1:
            return ready[0]
        if self.replay is not None:
            want = self.replay.get(self.step)
            for t in ready:
                if t.index == want:
                    return t
            return ready[0]
        pick = ready[self.rng.randrange(len(ready))] if self.rng is not None else ready[0]
        if pick is not ready[0]:
            self.recorded.append([self.step, pick.index])
        return pick

    def point(self, t, where):
        if self.failure is not None:
            raise Aborted()
        self.step += 1
        t.points += 1
        if self.step > self.limit:
            self.failure = Violation("no-progress", f"no end after {self.limit} scheduling points")
            raise Aborted()
        f = self.faults.pop((t.index, t.points), None)
        if f is not None:
            self.fired.append(f)
            self.ctx.fault(f["kind"])
            self.ctx.event("inject", f["kind"], t.index, t.points)
            raise make_exception(f["kind"])
        if len(self.tasks) == 1:
            return
        target = None
        if self.replay is not None:
            want = self.replay.get(self.step)
            if want is not None and want != t.index and want < len(self.tasks):
                c = self.tasks[want]
                if not c.done and (c.waiting is None or not c.waiting.locked()):
                    target = c
        elif self.rng is not None and self.rng.random() < self.p:
            ready = [x for x in self._runnable() if x is not t]
            if ready:
                target = ready[self.rng.randrange(len(ready))]
                self.recorded.append([self.step, target.index])
        if target is not None:
            self._switch(t, target, where)

    def _switch(self, t, target, where):
        self.switches += 1
        self.trace_hash = (self.trace_hash * 1000003 + hash((t.index, target.index, t.points, target.points))) & (
            (1 << 61) - 1
        )
        self.current = target
        target.gate.release()
        t.gate.acquire()
        if self.failure is not None:
            raise Aborted()

    def block(self, t, lock):
        """Called by a task that found `lock` taken."""
        t.waiting = lock
        self.step += 1
        ready = [x for x in self._runnable() if x is not t]
        if not ready:
            self.failure = Violation("deadlock", "every unfinished task waits for a lock")
            raise Aborted()
        if self.replay is not None:
            want = self.replay.get(self.step)
            target = next((x for x in ready if x.index == want), ready[0])
        else:
            target = ready[self.rng.randrange(len(ready))] if self.rng is not None else ready[0]
            if target is not ready[0]:
                self.recorded.append([self.step, target.index])
        self._switch(t, target, "lock")
        t.waiting = None

    def schedule(self):
        if self.replay is not None:
            return sorted([s, t] for s, t in self.replay.items())
        return [list(x) for x in self.recorded]


def make_exception(kind):
    if kind == "interrupt":
        return KeyboardInterrupt("injected")
    if kind == "nomem":
        return MemoryError("injected")
    return Injected(kind)


# -- the monitoring seam ---------------------------------------------------------------------------------------
_installed = False
mon = sys.monitoring


def _mine(code):
    return MARK in code.co_filename and "/verif/" not in code.co_filename


def _on_line(code, line):
    if not _mine(code):
        return mon.DISABLE
    own = _owner.get(_thread.get_ident())
    if own is not None:
        own[0].point(own[1], line)


def _on_return(code, offset, value):
    if not _mine(code):
        return mon.DISABLE
    own = _owner.get(_thread.get_ident())
    if own is not None:
        own[0].point(own[1], -offset)


def _install():
    global _installed
    if not _installed:
        mon.use_tool_id(TOOL, "verif-sim")
        mon.register_callback(TOOL, mon.events.LINE, _on_line)
        mon.register_callback(TOOL, mon.events.PY_RETURN, _on_return)
        _installed = True
    mon.set_events(TOOL, mon.events.LINE | mon.events.PY_RETURN)
    mon.restart_events()


def _uninstall():
    mon.set_events(TOOL, 0)


# -- locks: a task of the simulation must never block the only running thread ------------------------------------
class SimLock:
    _make = staticmethod(_real_lock)

    def __init__(self):
        self._l = self._make()
        self._holder = None
        self._depth = 0

    def locked(self):
        return self._holder is not None

    def acquire(self, blocking=True, timeout=-1):
        own = _owner.get(_thread.get_ident())
        if own is None:
            ok = self._l.acquire(blocking, timeout)
            if ok:
                self._holder = _thread.get_ident()
                self._depth = 1
            return ok
        while not self._l.acquire(False):
            if not blocking:
                return False
            own[0].block(own[1], self)
        self._holder = _thread.get_ident()
        self._depth = 1
        return True

    def release(self):
        self._holder = None
        self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    def acquire(self, blocking=True, timeout=-1):
        if self._holder == _thread.get_ident():
            self._depth += 1
            return True
        return super().acquire(blocking, timeout)

    __enter__ = acquire

    def release(self):
        if self._holder != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._depth -= 1
        if self._depth == 0:
            super().release()

    def _is_owned(self):
        return self._holder == _thread.get_ident()

    def _release_save(self):
        d = self._depth
        self._depth = 1
        self.release()
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self._depth = d


def patch_locks():
    """Locks created by the tree under test from now on know the scheduler."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


def run_single(ctx, fn, faults=(), limit=3_000_000):
    """Runs fn as the only task, with interrupts injected at the given points. Returns (result, error, points)."""
    s = Scheduler(ctx, preempt=[], faults=faults, limit=limit)
    t = s.spawn(fn)
    s.run()
    return t.result, t.error, t.points, s


def here(where="callback"):
    """A scheduling point inside the caller's own function, called back by the code under test."""
    own = _owner.get(_thread.get_ident())
    if own is not None:
        own[0].point(own[1], where)
