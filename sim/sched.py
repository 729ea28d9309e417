"""Deterministic thread scheduler.

Simulated clients are real threads of which exactly one runs at any time: the holder of the baton.  Preemption points are
the line (or opcode) events of frames of the library under test, and every lock operation.  At each point the scheduler,
and nothing else, decides who runs next.  Decisions are recorded as [thread, local step, target] and can be replayed.
"""
from __future__ import annotations

import _thread
import os
import sys
import threading

import lib
import steps

_alloc = _thread.allocate_lock
CURRENT = None  # the active Sim, if any


class SimStop(BaseException):
    """Unwinds a simulated thread (deadlock, step budget)."""


class Deadlock(BaseException):
    """A thread that is the only one waits for a lock that nobody will release."""


HELD: dict = {}  # owner -> number of locks it holds


# ------------------------------------------------------------------ locks the scheduler can see
class SimLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        s = CURRENT
        if s is not None:
            t = s.by_ident.get(_thread.get_ident())
            if t is not None:
                return t
        return "outside"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if isinstance(me, int):
            CURRENT.stats["lock_ops"] = CURRENT.stats.get("lock_ops", 0) + 1
        while True:
            if self._owner is None or (self.reentrant and self._owner == me):
                self._owner = me
                self._count += 1
                HELD[me] = HELD.get(me, 0) + 1
                return True
            if not blocking:
                return False
            if not isinstance(me, int):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("waits for a lock that nobody will release")
            if not CURRENT.block(me, self, timeout is not None and timeout >= 0):
                return False

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        HELD[self._owner] = HELD.get(self._owner, 1) - 1
        if self._count == 0:
            self._owner = None
            if CURRENT is not None:
                CURRENT.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        if self._owner is not None:
            HELD[self._owner] = HELD.get(self._owner, self._count) - self._count
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        c, self._count = self._count, 0
        HELD[self._owner] = HELD.get(self._owner, c) - c
        self._owner = None
        if CURRENT is not None:
            CURRENT.wake(self)
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c
        HELD[self._owner] += c - 1


def install_locks():
    """Make locks created from now on visible to the scheduler (before the library and logging create theirs)."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    import logging
    logging._lock = SimRLock()
    if logging.lastResort is not None:
        logging.lastResort.lock = SimRLock()
    import time

    def sleep(_s):
        s = CURRENT
        if s is not None and _thread.get_ident() in s.by_ident:
            s.point(None, force=True)

    time.sleep = sleep


class Forked:
    """Stands in for the simulator while the at-fork handlers of a forked child run: the other threads are gone."""

    def __init__(self, sim):
        self.by_ident = sim.by_ident
        self.stats = {}

    def block(self, me, lock, timed):
        if timed:
            return False
        raise Deadlock("waits, in a forked child, for a lock that nobody will release")

    def wake(self, lock):
        pass

    def point(self, frame, force=False):
        pass


def _in_forked_child():
    global CURRENT
    if CURRENT is not None:
        CURRENT = Forked(CURRENT)


os.register_at_fork(after_in_child=_in_forked_child)  # before any handler of the library


def fork():
    """os.fork() by a simulated thread: no switch between the fork and the child's or parent's next step."""
    tracer = sys.gettrace()
    sys.settrace(None)
    pid = os.fork()
    if pid:
        sys.settrace(tracer)
    else:
        global CURRENT
        CURRENT = None
        HELD.clear()
    return pid


# ------------------------------------------------------------------ decisions
class Decider:
    """Draws (or replays) scheduling decisions."""

    def __init__(self, spec, rng=None):
        self.mode = spec["mode"]
        self.spec = spec
        self.rng = rng
        self.plan = {}
        if self.mode == "replay":
            for t, s, target in spec["plan"]:
                self.plan.setdefault((t, s), target)
        elif self.mode == "pct":
            # a few preemptions at local steps drawn in advance
            self.points = {(t, s) for t, s in spec["points"]}

    def pick(self, sim, me, others):
        if not others:
            return None
        return others[self.rng.randrange(len(others))]

    def at(self, sim, me, local, frame, others):
        m = self.mode
        if m == "replay":
            t = self.plan.get((me, local))
            return t if t in others else None
        if not others:
            return None
        if m == "rand":
            if self.rng.random() < self.spec["p"]:
                return self.pick(sim, me, others)
            return None
        if m == "pct":
            if (me, local) in self.points:
                return self.pick(sim, me, others)
            return None
        if m == "sites":
            if frame is None:
                return None
            x = (frame.f_lineno * 2654435761 + self.spec["salt"]) & 0xFFFFFFFF
            if (x >> 7) % self.spec["mod"] == 0 and self.rng.random() < self.spec["p"]:
                return self.pick(sim, me, others)
            return None
        return None  # serial

    def end(self, sim, me, others):
        if self.mode == "replay":
            t = self.plan.get((me, -1))
            return t if t in others else min(others)
        if self.mode == "serial":
            return min(others)
        return self.pick(sim, me, others)


class Sim:
    def __init__(self, decider, budget=400_000, opcodes=False, max_streak=4000):
        self.decider = decider
        self.budget = budget
        self.opcodes = opcodes
        self.max_streak = max_streak
        self.locks = []
        self.by_ident = {}
        self.state = []  # "ready" | "blocked" | "done"
        self.waiting = {}
        self.local = []
        self.step = 0
        self.streak = 0
        self.record = []
        self.stopped = None
        self.stats = {}
        self.hooks = {}  # (thread, local step) -> callable run inline at that point (nested call, fault, configuration change)
        self.hook_log = []
        self.strike = {}  # thread -> [delivery points to go, callable that raises]; see steps.py for where exceptions are delivered
        self.prev = {}
        self.gens = {}

    # -- running
    def run(self, fns):
        global CURRENT
        n = len(fns)
        self.n = n
        self.state = ["ready"] * n
        self.local = [0] * n
        self.locks = [_alloc() for _ in range(n)]
        for lk in self.locks:
            lk.acquire()
        self.all_done = _alloc()
        self.all_done.acquire()
        if self.opcodes:
            steps.enable_opcodes()
        CURRENT = self
        self.started = 0
        ready = _alloc()
        ready.acquire()
        for i, fn in enumerate(fns):
            _thread.start_new_thread(self._body, (i, fn, ready))
            ready.acquire()
        first = self.decider.end(self, -1, list(range(n)))
        self.record.append([-1, -1, first])
        self.locks[first].release()
        self.all_done.acquire()
        CURRENT = None

    def _body(self, i, fn, ready):
        self.by_ident[_thread.get_ident()] = i
        ready.release()
        self.locks[i].acquire()
        try:
            sys.settrace(self._global_trace)
            try:
                if not self.stopped:
                    fn()
            finally:
                sys.settrace(None)
        except SimStop:
            pass
        except BaseException as e:  # noqa: B902
            self.stats.setdefault("client_errors", [])
            import traceback
            self.stats["client_errors"].append("".join(traceback.format_exception(e))[-2000:])
        self.state[i] = "done"
        self._leave(i)

    def _leave(self, i):
        """Thread i finished: hand the baton on."""
        others = [k for k in range(self.n) if self.state[k] == "ready"]
        if others:
            t = min(others) if self.stopped else self.decider.end(self, i, others)
            self.record.append([i, -1, t])
            self.streak = 0
            self.locks[t].release()
            return
        blocked = [k for k in range(self.n) if self.state[k] == "blocked"]
        if blocked:
            self._deadlock(blocked)
            k = blocked[0]
            self.state[k] = "ready"
            self.locks[k].release()
            return
        self.all_done.release()

    def _deadlock(self, blocked):
        # a timed wait may expire instead
        for k in blocked:
            if self.waiting.get(k, (None, False))[1]:
                self.waiting[k] = (None, True, "expired")
                return
        if not self.stopped:
            self.stopped = "deadlock"
            self.stop_detail = f"threads {blocked} wait for locks nobody can release"

    # -- switching
    def _switch(self, me, target):
        self.streak = 0
        self.locks[target].release()
        self.locks[me].acquire()

    def point(self, frame, force=False):
        me = self.by_ident[_thread.get_ident()]
        self.local[me] += 1
        local = self.local[me]
        self.step += 1
        self.streak += 1
        if self.stopped:
            raise SimStop()
        if self.step > self.budget:
            self.stopped = "budget"
            self.stop_detail = f"more than {self.budget} steps"
            raise SimStop()
        hook = self.hooks.get((me, local))
        if hook is not None:
            hook(frame)
        others = [k for k in range(self.n) if k != me and self.state[k] == "ready"]
        t = self.decider.at(self, me, local, frame, others)
        if t is None and others and (force or self.streak > self.max_streak) and self.decider.mode != "replay":
            t = others[0]
        if t is not None:
            self.record.append([me, local, t])
            self.stats["switches"] = self.stats.get("switches", 0) + 1
            self._switch(me, t)
            if self.stopped:
                raise SimStop()

    def block(self, me, lock, timed):
        """Thread me cannot take the lock.  False: a timed wait expired."""
        self.stats["blocked"] = self.stats.get("blocked", 0) + 1
        self.state[me] = "blocked"
        self.waiting[me] = (lock, timed)
        others = [k for k in range(self.n) if self.state[k] == "ready"]
        if others:
            t = self.decider.end(self, me, others) if self.decider.mode != "replay" else None
            if t is None:
                self.local[me] += 1
                t = self.decider.plan.get((me, self.local[me]))
                if t not in others:
                    t = min(others)
            else:
                self.local[me] += 1
                self.record.append([me, self.local[me], t])
            self._switch(me, t)
        else:
            self._deadlock([k for k in range(self.n) if self.state[k] == "blocked"])
            if not self.stopped and self.waiting[me][-1] != "expired":
                for k in range(self.n):
                    if self.state[k] == "blocked" and self.waiting[k][-1] == "expired":
                        self.state[k] = "ready"
                        self._switch(me, k)
                        break
        self.state[me] = "ready"
        if self.stopped:
            raise SimStop()
        w = self.waiting.pop(me, None)
        return not (w and w[-1] == "expired")

    def wake(self, lock):
        for k in range(self.n):
            if self.state[k] == "blocked" and self.waiting.get(k, (None,))[0] is lock:
                self.state[k] = "ready"

    # -- tracing
    def _global_trace(self, frame, event, arg):
        if not lib.in_urlstd(frame.f_code):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            if self.strike and frame.f_code.co_flags & 0x20:
                self.gens.setdefault(_thread.get_ident(), []).append(frame)
        if frame.f_lineno is not None:
            self.point(frame)
            if self.strike:
                self._strike(frame, event)
        return self._local_trace

    def _strike(self, frame, event):
        """Is this a point where an asynchronous exception may arrive, and is one due?"""
        me = self.by_ident[_thread.get_ident()]
        due = self.strike.get(me)
        if due is None:
            return
        if event == "opcode":
            off = frame.f_lasti
            info = steps.code_info(frame.f_code)
            cur, p = info.get(off), info.get(self.prev.get(frame, -1))
            self.prev[frame] = off
            if cur is None or not (cur[1] or (p is not None and p[0] and p[2] == cur[2])):
                return
        elif event == "return":
            self.prev.pop(frame, None)
            return
        elif event != "call":
            return
        due[0] -= 1
        if due[0] <= 0:
            del self.strike[me]
            # The interpreter stops tracing this thread; it must not meet a frame that still asks for opcode events
            # while other threads are traced (CPython 3.12 calls the missing trace function).
            f = frame
            while f is not None:
                f.f_trace_opcodes = False
                f = f.f_back
            for f in self.gens.pop(_thread.get_ident(), ()):
                f.f_trace_opcodes = False
            due[1](frame)

    def resume_tracing(self):
        """A simulated thread that was struck is followed again."""
        sys.settrace(self._global_trace)

    def _local_trace(self, frame, event, arg):
        # (no line: a generator being finalised - not a point where a thread may be parked)
        if self.strike and frame.f_lineno is not None:
            self._strike(frame, event)
        if (event == "line" or event == "opcode" or event == "return") and frame.f_lineno is not None:
            self.point(frame)
        return self._local_trace
