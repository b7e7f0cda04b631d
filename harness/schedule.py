"""Runs real threads one at a time under a chosen schedule.

A thread can be preempted exactly where CPython can preempt it: at the start of
a function, after a call returns, at a backward jump, and while it waits for a
lock.  threading.Lock and threading.RLock are replaced by wrappers that hand
control over instead of blocking, so a deadlock is seen at once."""
from __future__ import annotations

import _thread
import opcode
import sys
import threading
import time
from typing import Any, Callable

_REAL_LOCK, _REAL_RLOCK = threading.Lock, threading.RLock
_ACTIVE: "Scheduler | None" = None
STUCK_SECONDS = 1.5


class Abort(BaseException):
    """The run is over; the thread unwinds."""


class CoopLock:
    real_type: Any = _REAL_LOCK

    def __init__(self) -> None:
        self._real = self.real_type()

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        s = _ACTIVE
        me = s.me() if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        s.point(me)
        while not self._real.acquire(False):
            if not blocking or timeout >= 0:
                return False
            s.block(me, self)
        return True

    def release(self) -> None:
        self._real.release()
        s = _ACTIVE
        me = s.me() if s is not None else None
        if me is not None:
            s.wake(self)
            if not s.over:
                s.point(me)

    def locked(self) -> bool:
        if self._real.acquire(False):
            self._real.release()
            return False
        return True

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *_: Any) -> None:
        self.release()


class CoopRLock(CoopLock):
    real_type = _REAL_RLOCK


def patch() -> None:
    threading.Lock = CoopLock  # type: ignore[misc,assignment]
    threading.RLock = CoopRLock  # type: ignore[misc,assignment]


def unpatch() -> None:
    threading.Lock, threading.RLock = _REAL_LOCK, _REAL_RLOCK  # type: ignore[misc]


_POINTS: dict[Any, frozenset[int]] = {}
_CALLS = {opcode.opmap["CALL"], opcode.opmap["CALL_FUNCTION_EX"]}
_LOOPS = {n for name, n in opcode.opmap.items() if name.startswith("JUMP_BACKWARD")}
_CACHE = opcode.opmap["CACHE"]


def points(code: Any) -> frozenset[int]:
    """Offsets of instructions before which the interpreter may switch threads."""
    got = _POINTS.get(code)
    if got is None:
        out = set()
        after_call = False
        raw = code.co_code
        for at in range(0, len(raw), 2):
            op = raw[at]
            if op == _CACHE:
                continue
            if after_call or op in _LOOPS:
                out.add(at)
            after_call = op in _CALLS
        got = _POINTS[code] = frozenset(out)
    return got


class Thread:
    def __init__(self, n: int, body: Callable[[], None]) -> None:
        self.n = n
        self.body = body
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = "ready"       # ready | blocked | lost | done
        self.waits_for: Any = None
        self.ident = 0
        self.error: BaseException | None = None


class Scheduler:
    """choose(ready thread numbers, current thread number or -1) -> thread number."""

    def __init__(self, bodies: list[Callable[[], None]], choose: Callable[[list[int], int], int], limit: int = 400000) -> None:
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        self.by_ident: dict[int, Thread] = {}
        self.choose = choose
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.steps = 0
        self.limit = limit
        self.over = False
        self.outcome = ""
        self.cur = -1
        self.chosen = -1

    def me(self) -> Thread | None:
        return self.by_ident.get(_thread.get_ident())

    # ---- called in managed threads ------------------------------------
    def point(self, t: Thread) -> None:
        if self.over:
            raise Abort
        if t.state == "lost":     # it waited for something unknown; the others went on
            t.state = "ready"
        else:
            if t.state == "ready" and self.steps < self.limit and self.decide() == t.n:
                return
            self.back.release()
        t.go.acquire()
        if self.over:
            raise Abort

    def decide(self) -> int:
        self.steps += 1
        ready = [t.n for t in self.threads if t.state == "ready"]
        self.chosen = self.cur = self.choose(ready, self.cur)
        return self.cur

    def block(self, t: Thread, lock: Any) -> None:
        t.state, t.waits_for = "blocked", lock
        self.point(t)

    def wake(self, lock: Any) -> None:
        for t in self.threads:
            if t.state == "blocked" and t.waits_for is lock:
                t.state, t.waits_for = "ready", None

    def _trace(self, frame: Any, event: str, _arg: Any) -> Any:
        code = frame.f_code
        name = code.co_filename
        if "diwire" not in name and name[:1] != "<":
            return None
        if name.startswith("<frozen"):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        where = points(code)
        t = self.by_ident[_thread.get_ident()]

        def local(fr: Any, ev: str, _a: Any) -> Any:
            if ev == "opcode" and fr.f_lasti in where and not self.over:
                self.point(t)
            return local

        if not self.over:
            self.point(t)
        return local

    def _main(self, t: Thread) -> None:
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        t.go.acquire()
        try:
            if not self.over:
                sys.settrace(self._trace)
                try:
                    t.body()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.error = e
        lost = t.state == "lost"
        t.state = "done"
        if not lost:
            self.chosen = -1
            self.back.release()

    # ---- called in the controlling thread ---------------------------------
    def run(self) -> str:
        """"" when every thread ended, otherwise deadlock / stuck / too long."""
        global _ACTIVE
        patch()
        _ACTIVE = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._main, (t,))
            while True:
                ready = [t.n for t in self.threads if t.state == "ready"]
                if not ready:
                    if all(t.state == "done" for t in self.threads):
                        return ""
                    if not self._back_in_time():
                        return self._stop("deadlock")
                    continue
                if self.steps >= self.limit:
                    return self._stop("too long")
                if self.chosen not in ready:
                    self.decide()
                t = self.threads[self.chosen]
                self.chosen = -1
                t.go.release()
                if not self.back.acquire(True, STUCK_SECONDS):
                    t.state = "lost"
                    self.chosen = -1
        finally:
            _ACTIVE = None
            unpatch()

    def _back_in_time(self) -> bool:
        """Whether a thread that waits for something unknown comes back."""
        end = time.time() + 2 * STUCK_SECONDS
        while any(t.state == "lost" for t in self.threads) and time.time() < end:
            if any(t.state == "ready" for t in self.threads):
                return True
            time.sleep(0.002)
        return all(t.state == "done" for t in self.threads) or any(t.state == "ready" for t in self.threads)

    def _stop(self, why: str) -> str:
        """The other threads stay where they are: the process is thrown away."""
        self.outcome = why
        return why
