"""Deterministic scheduler for real threads: exactly one thread runs at a time, switches happen only at yield points.

Yield points are device calls and lock operations (and, when enabled, every line of the code under test). The schedule is
an explicit list of preemptions [step, thread]; everything else follows from it, so a run replays exactly.
"""
from __future__ import annotations

import sys
import threading
import types

from sim.core import HarnessError, SimHang

_RealLock = threading.Lock
_RealRLock = threading.RLock
_Thread = threading.Thread
_Semaphore = threading.Semaphore

_active: Scheduler | None = None


class Scheduler:
    def __init__(self, preemptions: list, event):
        self.preempt = {int(s): int(t) for s, t in preemptions}
        self.event = event
        self.step = 0
        self.switches = 0
        self.current = -1
        self.sems: list = []
        self.state: list[str] = []  # ready | blocked | done
        self.waiting: dict[int, object] = {}
        self.main_sem = _Semaphore(0)
        self.by_ident: dict[int, int] = {}
        self.abort: str | None = None
        self.errors: list = []
        self.last = max(self.preempt, default=0)

    def run(self, bodies: list) -> None:
        """Run the bodies in real threads to completion under the schedule."""
        global _active
        n = len(bodies)
        self.sems = [_Semaphore(0) for _ in range(n)]
        self.state = ["ready"] * n

        def wrapper(i: int) -> None:
            self.sems[i].acquire()
            self.by_ident[threading.get_ident()] = i
            try:
                if self.abort is None:
                    bodies[i]()
            except BaseException as e:  # noqa: BLE001
                self.errors.append((i, e))
            finally:
                self.by_ident.pop(threading.get_ident(), None)
                self.state[i] = "done"
                self._leave(i)

        threads = [_Thread(target=wrapper, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        _active = self
        try:
            self.current = 0
            self.sems[0].release()
            if not self.main_sem.acquire(timeout=120):
                raise HarnessError("scheduled threads are stuck outside the scheduler")
        finally:
            _active = None
        for t in threads:
            t.join()

    def me(self) -> int | None:
        return self.by_ident.get(threading.get_ident())

    def _next(self, after: int) -> int | None:
        n = len(self.state)
        for k in range(1, n + 1):
            j = (after + k) % n
            if self.state[j] == "ready":
                return j
        return None

    def _leave(self, i: int) -> None:
        """Thread i is done; hand the baton on."""
        j = self._next(i)
        if j is None:
            blocked = [k for k, s in enumerate(self.state) if s == "blocked"]
            if blocked:
                # everyone left waits for a lock nobody will release
                self.abort = self.abort or "deadlock"
                for k in blocked:
                    self.state[k] = "ready"
                j = blocked[0]
            else:
                self.main_sem.release()
                return
        self.current = j
        self.sems[j].release()

    def _switch(self, i: int, j: int) -> None:
        self.switches += 1
        self.event(f"switch {i}->{j} step {self.step}")
        self.current = j
        self.sems[j].release()
        self.sems[i].acquire()
        self._check()

    def _check(self) -> None:
        if self.abort is not None:
            raise SimHang(self.abort)

    def yield_point(self, what: str) -> None:
        i = self.me()
        if i is None:
            return
        self._check()
        self.step += 1
        target = self.preempt.get(self.step)
        if target is None:
            return
        target %= len(self.state)
        if target != i and self.state[target] == "ready":
            self._switch(i, target)

    def block_on(self, lock) -> None:
        i = self.me()
        self.state[i] = "blocked"
        self.waiting[i] = lock
        j = self._next(i)
        if j is None:
            self.abort = "deadlock"
            self.state[i] = "ready"
            for k, s in enumerate(self.state):
                if s == "blocked":
                    self.state[k] = "ready"
            self._check()
        self._switch(i, j)

    def released(self, lock) -> None:
        for k, waited in list(self.waiting.items()):
            if waited is lock:
                del self.waiting[k]
                if self.state[k] == "blocked":
                    self.state[k] = "ready"


class SimLock:
    """Drop-in for threading.Lock that is a yield point for scheduled threads."""

    _factory = staticmethod(_RealLock)

    def __init__(self):
        self._real = self._factory()

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        sched = _active
        if sched is None or sched.me() is None:
            return self._real.acquire(blocking, timeout)
        sched.yield_point("acquire")
        while not self._real.acquire(False):
            if not blocking or timeout >= 0:
                return False
            sched.block_on(self)
        return True

    def release(self) -> None:
        self._real.release()
        sched = _active
        if sched is not None and sched.me() is not None:
            sched.released(self)
            if sched.abort is None:
                sched.yield_point("release")

    def locked(self) -> bool:
        return self._real.locked()

    def __getattr__(self, name):
        if name == "_real":
            raise AttributeError(name)
        return getattr(self._real, name)

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *args) -> None:
        self.release()


class SimRLock(SimLock):
    _factory = staticmethod(_RealRLock)


class _ThreadingProxy(types.ModuleType):
    def __init__(self):
        super().__init__("threading")
        self.Lock = SimLock
        self.RLock = SimRLock

    def __getattr__(self, name):
        return getattr(threading, name)


def patch_threading():
    """Locks that modules create while they are imported must be ours as well. Returns a function that undoes the change."""
    threading.Lock, threading.RLock = SimLock, SimRLock

    def restore() -> None:
        threading.Lock, threading.RLock = _RealLock, _RealRLock

    return restore


def patch_modules() -> None:
    """Called after all imports: rebind lock factories wherever dissect modules hold a reference to them."""
    proxy = _ThreadingProxy()
    for name, module in list(sys.modules.items()):
        if not name.startswith("dissect") or module is None:
            continue
        for attr, value in list(vars(module).items()):
            if value is _RealLock or value is SimLock:
                setattr(module, attr, SimLock)
            elif value is _RealRLock or value is SimRLock:
                setattr(module, attr, SimRLock)
            elif value is threading:
                setattr(module, attr, proxy)


def line_hook(code, line):
    sched = _active
    if "dissect/volume" not in code.co_filename and "dissect/util/stream" not in code.co_filename:
        return sys.monitoring.DISABLE
    if sched is not None and sched.step < sched.last:
        sched.yield_point("line")
    return None


_line_tool = 5
_line_installed = False


def enable_line_yields(on: bool) -> None:
    global _line_installed
    mon = sys.monitoring
    if not _line_installed:
        if not on:
            return
        mon.use_tool_id(_line_tool, "sim-line-yield")
        mon.register_callback(_line_tool, mon.events.LINE, line_hook)
        _line_installed = True
    mon.set_events(_line_tool, mon.events.LINE if on else 0)

