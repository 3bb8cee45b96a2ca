"""Deterministic thread scheduler.

Real threads, released one at a time.  A task runs until it reaches a *point*
(a source line of the code under test, a call into an instrumented backend, a
lock operation, or its end); there the plan decides who runs next.  Because at
most one task is ever running, code executed on a helper thread of the runtime
(XLA callbacks) is attributed to the running task.
"""
from __future__ import annotations

import os
import sys
import threading as _th
import _thread

from .core import HarnessError, Violation

_RealLock = _thread.allocate_lock
_real_Lock, _real_RLock = _th.Lock, _th.RLock
_active = None          # the running Sim, if any


class _Task:
    __slots__ = ("name", "fn", "gate", "state", "exc", "waiting", "n_points", "host")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.gate = _RealLock()
        self.gate.acquire()
        self.state = "ready"      # ready | blocked | done
        self.exc = None
        self.waiting = None
        self.n_points = 0
        self.host = 0             # >0: inside host code (no runtime lock is held)


class Deadlock(Violation):
    pass


class Sim:
    """decisions: sparse list of [channel, position, k].  At the position-th point of
    that channel ("line" points or "seam" points) the task is preempted in favour of
    the k-th other runnable task; everywhere else the running task goes on.  Channel
    "pick" decides who goes on when a task blocks or ends."""

    def __init__(self, decisions, max_points=200000):
        self.dec = {(c, int(p)): int(k) for c, p, k in decisions}
        self.pos = {"line": 0, "seam": 0, "pick": 0}
        self.tasks = []
        self.cur = None
        self.points = 0
        self.switches = 0
        self.max_points = max_points
        self.trace = []           # (task name, label) of every switch
        self.fault_at = {}        # global point number -> callable raising
        self.fault_hook = None    # f(sim, task, label) may raise
        self.done = _th.Event()
        self.fatal = None
        self.aborting = False
        self.host_only = False    # preempt only inside host callbacks

    def spawn(self, name, fn):
        self.tasks.append(_Task(name, fn))

    # -- running ------------------------------------------------------------
    def _body(self, task):
        task.gate.acquire()
        try:
            if not self.aborting:
                task.fn()
        except BaseException as e:      # noqa
            task.exc = e
        task.state = "done"
        self._handoff(task)

    def run(self, timeout=60.0):
        global _active
        _active = self
        threads = []
        try:
            for t in self.tasks:
                th = _th.Thread(target=self._body, args=(t,), name="sim-" + t.name, daemon=True)
                th.start()
                threads.append(th)
            first = self._choose([t for t in self.tasks], None, "pick")
            self.cur = first
            first.gate.release()
            if not self.done.wait(timeout):
                raise HarnessError("scheduler stalled: " + repr(
                    [(t.name, t.state) for t in self.tasks]))
            for th in threads:
                th.join(5)
        finally:
            _active = None
        if self.fatal is not None:
            raise self.fatal

    def _next_dec(self, chan):
        p = self.pos[chan]
        self.pos[chan] = p + 1
        return self.dec.get((chan, p), 0)

    def _choose(self, runnable, cur, chan):
        d = self._next_dec(chan)
        if cur is not None and cur in runnable:
            others = [t for t in runnable if t is not cur]
            if d <= 0 or not others:
                return cur
            return others[(d - 1) % len(others)]
        return runnable[d % len(runnable)]

    def _handoff(self, task):
        """The running task cannot go on (done or blocked): pick another."""
        runnable = [t for t in self.tasks if t.state == "ready"]
        if runnable:
            nxt = self._choose(runnable, None, "pick")
            self.cur = nxt
            self.trace.append((nxt.name, "after-" + task.name))
            nxt.gate.release()
            return True
        if any(t.state == "blocked" for t in self.tasks):
            self.fatal = Violation("deadlock", "all tasks blocked: " + repr(
                [(t.name, t.state, str(t.waiting)) for t in self.tasks]))
            # break the deadlock so that threads can unwind
            self.aborting = True
            for t in self.tasks:
                if t.state == "blocked":
                    t.state = "ready"
                    t.waiting = None
            nxt = [t for t in self.tasks if t.state == "ready"][0]
            self.cur = nxt
            nxt.gate.release()
            return True
        self.done.set()
        return False

    def point(self, label, chan="line"):
        """A place where the running task may be preempted."""
        task = self.cur
        if task is None or self.aborting or (self.host_only and not task.host):
            return
        self.points += 1
        task.n_points += 1
        if self.points > self.max_points:
            return
        if self.fault_hook is not None:
            self.fault_hook(self, task, label)
        runnable = [t for t in self.tasks if t.state == "ready"]
        if len(runnable) <= 1:
            return
        nxt = self._choose(runnable, task, chan)
        if nxt is task:
            return
        self.switches += 1
        self.trace.append((nxt.name, label))
        self.cur = nxt
        nxt.gate.release()
        task.gate.acquire()

    def block(self, what):
        task = self.cur
        task.state = "blocked"
        task.waiting = what
        self._handoff(task)
        task.gate.acquire()
        if self.aborting:
            raise RuntimeError("simulation aborted (deadlock)")

    def wake(self, pred):
        for t in self.tasks:
            if t.state == "blocked" and pred(t.waiting):
                t.state = "ready"
                t.waiting = None


# ------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock / RLock replacement owned by the scheduler."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._real = _real_RLock() if reentrant else _real_Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _active
        if sim is None or sim.cur is None:
            self._outside = True
            return self._real.acquire(blocking, timeout)
        sim.point("lock.acquire")
        me = sim.cur
        while self._owner is not None and not (self._re and self._owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            sim.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        sim = _active
        if self._owner is None:
            return self._real.release()
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if sim is not None:
                sim.wake(lambda w: w is self)
                sim.point("lock.release")

    def locked(self):
        return self._owner is not None or (not self._re and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # Condition support (RLock protocol)
    def _is_owned(self):
        return self._owner is not None


def _in_repo(frame, repo):
    return frame.f_code.co_filename.startswith(repo)


def install_locks(repo):
    """From now on, locks created by code under *repo* belong to the scheduler."""
    repo = os.path.join(os.path.realpath(repo), "feax") + os.sep

    def mk(orig, reentrant):
        def factory(*a, **k):
            if _in_repo(sys._getframe(1), repo):
                return SimLock(reentrant)
            return orig(*a, **k)
        return factory

    _th.Lock = mk(_real_Lock, False)
    _th.RLock = mk(_real_RLock, True)


# -------------------------------------------------------------- line points
_TOOL = 4
_installed = False


def install_line_points(prefixes):
    """Every source line executed in files under *prefixes* becomes a point."""
    global _installed
    mon = sys.monitoring
    prefixes = tuple(os.path.realpath(p) for p in prefixes)
    cache = {}

    def on_line(code, line):
        fn = code.co_filename
        ok = cache.get(fn)
        if ok is None:
            ok = cache[fn] = os.path.realpath(fn).startswith(prefixes)
        if not ok:
            return mon.DISABLE
        sim = _active
        if sim is None:
            return None
        sim.point(f"{os.path.basename(fn)}:{code.co_name}:{line}")
        return None

    if _installed:
        return
    mon.use_tool_id(_TOOL, "feax-sim")
    mon.register_callback(_TOOL, mon.events.LINE, on_line)
    mon.set_events(_TOOL, mon.events.LINE)
    _installed = True


def point(label, chan="seam"):
    if _active is not None:
        _active.point(label, chan)


# ------------------------------------------------------- host callback seam
_cb_cache = {}


def install_pure_callback():
    """Mark the extent of host callbacks (jax.pure_callback) of the running task."""
    import jax

    orig = jax.pure_callback

    def wrap(cb):
        w = _cb_cache.get(id(cb))
        if w is None or w[0] is not cb:
            def host(*a, **k):
                sim = _active
                task = sim.cur if sim is not None else None
                if task is None:
                    return cb(*a, **k)
                task.host += 1
                try:
                    sim.point("callback.enter", "seam")
                    return cb(*a, **k)
                finally:
                    task.host -= 1
            w = _cb_cache[id(cb)] = (cb, host)
        return w[1]

    def pure_callback(callback, *a, **k):
        return orig(wrap(callback), *a, **k)

    jax.pure_callback = pure_callback
    # Op-by-op evaluation: run the host function on the calling thread instead of
    # inside a one-op XLA executable (whose first execution holds a compile lock).
    from jax._src import callback as jcb

    jcb.pure_callback_p.def_impl(jcb.pure_callback_impl)
