"""Cooperative scheduler: real threads, one of which runs at a time, switched at chosen steps.

A step is a line event (or, in fine mode, a byte code) of a library frame or a call of a C function
made by one. A schedule is a list of [thread, step, next thread]: when that thread reaches that step
of its own, it hands over to the next thread. When a thread ends or waits for a lock, the unfinished
thread with the lowest number goes on. Nothing else decides the interleaving: the same schedule
gives the same execution. The scheduler is fair: a thread that sleeps, or that makes FAIR steps on
end, hands over to the next unfinished one.
"""
import _thread
import functools
import sys
import threading
import time

from . import core

ACTIVE = None  # the running Scheduler


FAIR = 200000  # steps after which a thread has to let the others run
MOST = 5000000  # steps after which a call is taken never to return


class Deadlock(BaseException):
    """No thread can go on"""


class Stuck(BaseException):
    """Wall-clock limit reached (an error of the harness)"""


class SimLock:
    """Stand-in for locks created by library code: waiting is a scheduling decision"""

    reentrant = False

    def __init__(self):
        self._real = _thread.RLock() if self.reentrant else _thread.allocate_lock()
        self._owner, self._count = None, 0

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        me = s.me() if s else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:  # time passes while the others run
                s.rotate(me)
                if self._owner is not None:
                    return False
                break
            s.wait_for(self, me)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return self._real.release()
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (not self.reentrant and self._real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    # used by Condition
    def _is_owned(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return self._real._is_owned()
        return self._owner == s.me()

    def _release_save(self):
        s = ACTIVE
        if s is None or s.me() is None:
            return self._real._release_save()
        n, self._count, self._owner = self._count, 0, None
        return n

    def _acquire_restore(self, n):
        s = ACTIVE
        if s is None or s.me() is None:
            return self._real._acquire_restore(n)
        self.acquire()
        self._count = n


def _by_library(frame):
    while frame is not None and frame.f_code.co_filename == threading.__file__:
        frame = frame.f_back
    return frame is not None and frame.f_code.co_filename.startswith(core.LIB)


def install_locks():
    """Locks created by library code (and by cached_property) become SimLocks; others stay real"""
    real_lock, real_rlock, real_alloc = threading.Lock, threading.RLock, threading._allocate_lock

    def lock():
        return SimLock() if _by_library(sys._getframe(1)) else real_lock()

    def rlock():
        return SimRLock() if _by_library(sys._getframe(1)) else real_rlock()

    def alloc():  # waiters of conditions
        return SimLock() if ACTIVE is not None and ACTIVE.me() is not None else real_alloc()

    threading.Lock, threading.RLock, threading._allocate_lock = lock, rlock, alloc
    functools.RLock = SimRLock


class Scheduler:
    def __init__(self, n, schedule, fine=False, limit=30.0):
        self.n, self.fine, self.limit = n, fine, limit
        self.points = {}
        for t, at, to in schedule:
            self.points.setdefault((t, at), to)
        self.sem = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sem:
            s.acquire()
        self.done = [False] * n
        self.waiting = [None] * n
        self.step = [0] * n
        self.since = 0  # steps since the last switch
        self.switches = []  # (from, site, to) that happened
        self.record = None  # called at each step with (thread, frame)
        self.ids = {}
        self.failure = None
        self.finished = threading.Event()

    def me(self):
        return self.ids.get(_thread.get_ident())

    # ------------------------------------------------------------------ running
    def run(self, bodies):
        """bodies: callables; returns their results (or the exception of the scheduler)"""
        global ACTIVE
        out = [None] * self.n

        def main(t):
            self.ids[_thread.get_ident()] = t
            self.sem[t].acquire()
            try:
                if self.failure is None:
                    out[t] = bodies[t](self._tracing)
            except BaseException as e:
                if self.failure is None:
                    self.failure = e
            finally:
                self.done[t] = True
                self._next_after_end()

        ACTIVE = self
        try:
            threads = [threading.Thread(target=main, args=(t,), daemon=True) for t in range(self.n)]
            for th in threads:
                th.start()
            while len(self.ids) < self.n:
                pass
            self.sem[0].release()
            if not self.finished.wait(self.limit):
                raise Stuck("a thread made no progress for %g s" % self.limit)
            for th in threads:
                th.join(5)
        finally:
            ACTIVE = None
        if self.failure is not None:
            raise self.failure
        return out

    def _next_after_end(self):
        for u in range(self.n):
            if not self.done[u] and (self.failure is not None or self._ready(u)):
                self.sem[u].release()
                return
        if not all(self.done):  # the rest wait for locks nobody will release
            self.failure = self.failure or Deadlock("all remaining threads wait for a lock")
            for u in range(self.n):
                if not self.done[u]:
                    self.sem[u].release()
                    return
        else:
            self.finished.set()

    def _ready(self, u):
        l = self.waiting[u]
        return l is None or l._owner is None

    def rotate(self, t):
        for k in range(1, self.n):
            u = (t + k) % self.n
            if not self.done[u] and self._ready(u):
                return self._hand(t, u)

    def _hand(self, t, u):
        self.since = 0
        self.sem[u].release()
        self.sem[t].acquire()
        if self.failure is not None:
            raise self.failure

    def wait_for(self, lock, t):
        self.waiting[t] = lock
        cands = [u for u in range(self.n) if u != t and not self.done[u] and self._ready(u)]
        if not cands:
            self.failure = Deadlock("thread %d waits for a lock that is never released" % t)
            raise self.failure
        self._hand(t, cands[0])
        self.waiting[t] = None

    # ------------------------------------------------------------------ steps
    class _Tracing:
        def __init__(self, s, t):
            self.s, self.t = s, t

        def __enter__(self):
            s, t = self.s, self.t
            step = s._step

            def loc(frame, event, arg):
                if event == "line" or event == "opcode":
                    step(t, frame)
                return loc

            def glob(frame, event, arg):
                if frame.f_code.co_filename.startswith(core.LIB):
                    if s.fine:
                        frame.f_trace_opcodes = True
                    return loc
                return None

            def prof(frame, event, arg):
                if event == "c_call" and frame.f_code.co_filename.startswith(core.LIB):
                    if arg is time.sleep:
                        s.rotate(t)
                    step(t, frame)

            if not s.fine:
                sys.setprofile(prof)
            sys.settrace(glob)

        def __exit__(self, *a):
            sys.settrace(None)
            sys.setprofile(None)

    def _tracing(self):
        return Scheduler._Tracing(self, self.me())

    def _step(self, t, frame):
        k = self.step[t] = self.step[t] + 1
        if self.record is not None:
            self.record(t, frame)
        to = self.points.get((t, k))
        if to is not None and to != t and not self.done[to] and self._ready(to):
            self.switches.append((t, "%s:%d" % (frame.f_code.co_filename[len(core.LIB) :], frame.f_lineno or 0), to))
            self._hand(t, to)
        else:
            self.since += 1
            if self.since > FAIR:
                if k > MOST:
                    self.failure = Deadlock("thread %d made %d steps without returning" % (t, k))
                    raise self.failure
                self.rotate(t)
