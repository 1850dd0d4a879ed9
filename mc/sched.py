"""Controlled threads: every interleaving of threads at the lines (or bytecodes) of bartpy, up to a number of preemptions.

Only one thread runs at a time.  At each point it asks `decide(step, current, alive)` who goes on.  A joblib backend runs the tasks of a
Parallel call this way.  Locks created by bartpy are cooperative while threads are controlled."""
import sys
import threading

import joblib
from joblib._parallel_backends import ParallelBackendBase, SequentialBackend

from mc import REPO

PREFIX = REPO + "/bartpy/"
_current = None            # active Group
_real_lock, _real_rlock = threading.Lock, threading.RLock
_local = threading.local()


class Deadlock(Exception):
    pass


class Stuck(Exception):
    """A thread waits for something the scheduler does not control: the schedule is given up."""


class _Abort(BaseException):
    pass


class Group:
    where = None               # which frames have points (all of bartpy's when None)

    def __init__(self, tasks, decide, opcodes=False, patience=20.0):
        self.tasks, self.decide, self.opcodes, self.patience = tasks, decide, opcodes, patience
        n = len(tasks)
        self.baton = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.waiting = {}           # thread -> lock it waits for
        self.results = [None] * n
        self.step = 0
        self.over = threading.Semaphore(0)
        self.aborting = False
        self.switches = []

    # ---- called by the running thread
    def point(self, me):
        if self.aborting:
            raise _Abort()
        if len(self.alive) > 1:
            can = [t for t in self.alive if t not in self.waiting or self.waiting[t].free_for(t)]
            k = self.decide(self.step, me, can)
            self.step += 1
            if k != me and k in can:
                self.switches.append((self.step - 1, me, k))
                self.hand(me, k)
        else:
            self.step += 1

    def hand(self, me, k):
        self.baton[k].release()
        self.baton[me].acquire()
        if self.aborting:
            raise _Abort()

    def block(self, me, lock):
        """The running thread cannot take a lock: somebody else must run."""
        self.waiting[me] = lock
        while not lock.free_for(me):
            can = [t for t in self.alive if t != me and (t not in self.waiting or self.waiting[t].free_for(t))]
            if not can:
                self.aborting = True
                raise Deadlock("every thread waits for a lock")
            self.hand(me, can[0])
        del self.waiting[me]

    def done(self, me):
        self.alive.remove(me)
        if self.aborting:
            for t in self.alive:
                self.baton[t].release()
        elif self.alive:
            can = [t for t in self.alive if t not in self.waiting or self.waiting[t].free_for(t)]
            if not can:
                self.aborting = True
                for t in self.alive:
                    self.baton[t].release()
            else:
                self.baton[can[0]].release()
        self.over.release()

    # ---- threads
    def body(self, me):
        self.baton[me].acquire()
        _local.me = me

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PREFIX):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        kind = "opcode" if self.opcodes else "line"

        def local(frame, event, arg):
            if event == kind and not getattr(_local, "off", False) and (self.where is None or self.where(frame)):
                self.point(me)
            return local
        try:
            if self.aborting:
                raise _Abort()
            sys.settrace(tracer)
            try:
                out = self.tasks[me]()
            finally:
                sys.settrace(None)
            self.results[me] = ("ok", out)
        except _Abort:
            self.results[me] = ("aborted", None)
        except BaseException as e:
            self.results[me] = ("error", e)
        finally:
            sys.settrace(None)
            _local.me = None
            self.done(me)

    def run(self):
        global _current
        outer, _current = _current, self
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.tasks))]
        try:
            for t in threads:
                t.start()
            self.baton[0].release()
            for _ in threads:
                if not self.over.acquire(timeout=self.patience):
                    self.aborting = True
                    raise Stuck()
            for t in threads:
                t.join()
        finally:
            _current = outer
        return self.results


class untraced:
    """What the harness itself calls inside a controlled thread is no point of its schedule."""

    def __enter__(self):
        self.old = getattr(_local, "off", False)
        _local.off = True

    def __exit__(self, *a):
        _local.off = self.old
        return False


def me():
    return getattr(_local, "me", None)


class CoopLock:
    """Stands in for threading.Lock / RLock in the code under test."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.count = reentrant, None, 0
        self.real = _real_rlock() if reentrant else _real_lock()

    def _me(self):
        g = _current
        return None if g is None else getattr(_local, "me", None)

    def free_for(self, t):
        return self.owner is None or (self.reentrant and self.owner == ("t", t))

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if me is None:
            return self.real.acquire(blocking, timeout)
        if not self.free_for(me):
            if not blocking:
                return False
            _current.block(me, self)
        self.owner = ("t", me)
        self.count += 1
        return True

    def release(self):
        me = self._me()
        if me is None:
            return self.real.release()
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None or (self.real.locked() if hasattr(self.real, "locked") else False)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install():
    """Before bartpy is imported."""
    def lock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("bartpy"):
            return CoopLock()
        return _real_lock()

    def rlock():
        if sys._getframe(1).f_globals.get("__name__", "").startswith("bartpy"):
            return CoopLock(True)
        return _real_rlock()
    threading.Lock, threading.RLock = lock, rlock


# ------------------------------------------------------------------ joblib
class _Task:
    def __init__(self, backend, func, callback):
        self.backend, self.func, self.callback, self.result = backend, func, callback, None

    def get(self, timeout=None):
        self.backend.run_all()
        if self.result[0] == "ok":
            return self.result[1]
        raise self.result[1] if self.result[1] is not None else RuntimeError("aborted")


class ControlledBackend(ParallelBackendBase):
    uses_threads = True
    supports_sharedmem = True
    supports_timeout = False
    supports_retrieve_callback = False
    plan = None                # decide function of the run
    opcodes = False
    where = None
    last = None

    def effective_n_jobs(self, n_jobs):
        return 4

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel, self.queue = parallel, []
        return 4

    def submit(self, func, callback=None):
        t = _Task(self, func, callback)
        self.queue.append(t)
        return t

    apply_async = submit

    def run_all(self):
        q, self.queue = self.queue, []
        if not q:
            return
        g = Group([t.func for t in q], ControlledBackend.plan, ControlledBackend.opcodes)
        g.where = ControlledBackend.where
        ControlledBackend.last = g
        res = g.run()
        for t, r in zip(q, res):
            t.result = r
        for t in q:
            if t.callback is not None:
                t.callback(t)

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=(self.nesting_level or 0) + 1), None


_registered = False


def controlled(plan, opcodes=False, where=None):
    global _registered
    if not _registered:
        joblib.register_parallel_backend("mc_controlled", ControlledBackend)
        _registered = True
    ControlledBackend.plan, ControlledBackend.opcodes, ControlledBackend.where = staticmethod(plan), opcodes, staticmethod(where) if where else None
    return joblib.parallel_config(backend="mc_controlled")
