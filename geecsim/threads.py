"""Threads under a scheduler: real threads, of which exactly one runs at any time.

A thread runs until it has passed the number of instants the scheduler granted (instants: entry
of a function of geec, return of a C function called by geec: where the
interpreter may switch threads; fine: all of these, see rt.Tracer), waits for a lock another one holds, or ends.
Locks that geec creates are simulated (see patch_locks): waiting for one hands over to the
scheduler, and when all threads wait there is a deadlock.
"""
import _thread
import os
import sys
import threading

from geecsim import rt

_current = None  # the scheduler in charge
_RealLock, _RealRLock = threading.Lock, threading.RLock
STUCK = 6.0  # seconds after which a thread is taken to wait for a lock that is not simulated


class SimLock:
    def __init__(self, reentrant):
        self._re = reentrant
        self._owner = None
        self._depth = 0
        self._real = _RealRLock() if reentrant else _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = s.me() if s else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._owner is not None and not (self._re and self._owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # the others may stand still for a few seconds; else simulated time passes only
                # when nothing else can happen
                if not s.block(me, self, timed="soon" if timeout <= 5 else "late"):
                    return False
            else:
                s.block(me, self)
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        s = _current
        me = s.me() if s else None
        if me is None:
            return self._real.release()
        if self._owner is None or (self._re and self._owner is not me):
            raise RuntimeError("release of a lock that is not held")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s.unblock(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # what threading.Condition needs of an RLock
    def _is_owned(self):
        s = _current
        me = s.me() if s else None
        return self._owner is not None and self._owner is me

    def _release_save(self):
        d, self._depth, self._owner = self._depth, 0, None
        if _current:
            _current.unblock(self)
        return d

    def _acquire_restore(self, d):
        self.acquire()
        self._depth = d

    def _at_fork_reinit(self):
        self._owner, self._depth = None, 0
        self._real._at_fork_reinit()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


def _from_geec():
    f = sys._getframe(2)
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith(rt.REPO + "/"):
            return True
        if not n.endswith("threading.py") and not n.endswith("functools.py") and "dataclasses" not in n:
            return False
        f = f.f_back
    return False


class Deadlock(BaseException):
    pass


class Alone:
    """in a process forked from a thread under a scheduler: the only one left"""

    def __init__(self, t):
        self.t = t

    def me(self):
        return self.t if self.t and _thread.get_ident() == self.t.ident else None

    def block(self, me, lock, timed=None):
        if timed:
            return False
        raise Deadlock("waits for a lock held by a thread of another process")

    def unblock(self, lock):
        pass


def _forked():
    global _current
    if isinstance(_current, Scheduler):
        sys.setprofile(None)
        sys.settrace(None)
        _current = Alone(_current.me())


def patch_locks():
    """before geec is imported"""
    os.register_at_fork(after_in_child=_forked)  # before all others

    def Lock():
        return SimLock(False) if _from_geec() else _RealLock()

    def RLock():
        return SimLock(True) if _from_geec() else _RealRLock()

    threading.Lock = Lock
    threading.RLock = RLock


class Thread:
    def __init__(self, i, f):
        self.i, self.f = i, f
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = "ready"
        self.waits = None
        self.timed = False
        self.timeout = False
        self.budget = 0
        self.events = 0
        self.error = None
        self.ident = None
        self.memory = 0  # calls of C functions until memory runs out


class Scheduler:
    def __init__(self, decide, max_events=2_000_000, root=rt.REPO + "/geec", fine=False, patience=STUCK):
        self.fine = fine
        self.patience = patience  # how long a thread may run
        self.decide = decide
        self.threads = []
        self.back = _thread.allocate_lock()
        self.back.acquire()
        self.by_id = {}
        self.max = max_events
        self.total = 0
        self.root = root
        self.trace = []
        self.switches_in_call = 0
        self.stuck = 0
        self.running = None

    def me(self):
        return self.by_id.get(_thread.get_ident())

    def add(self, f):
        t = Thread(len(self.threads), f)
        self.threads.append(t)

    # ---- called by the threads
    def _yield(self, t, state):
        t.state = state
        self.back.release()
        t.go.acquire()
        t.state = "running"

    def block(self, t, lock, timed=None):
        t.waits, t.timed, t.timeout = lock, timed, False
        self._yield(t, "blocked")
        t.waits = None
        return not t.timeout

    def unblock(self, lock):
        for t in self.threads:
            if t.state == "blocked" and t.waits is lock:
                t.state = "ready"

    def _profile(self, frame, event, arg):
        if event == "call":
            if not frame.f_code.co_filename.startswith(self.root):
                return
        elif event == "c_return":
            if not frame.f_code.co_filename.startswith(self.root):
                return
        elif event == "c_call":
            self._memory(frame, event, arg)
            return
        else:
            return
        self._instant(self.by_id.get(_thread.get_ident()))

    def _memory(self, frame, event, arg):
        if event != "c_call":
            return
        t = self.by_id.get(_thread.get_ident())
        if not t.memory or not frame.f_code.co_filename.startswith(self.root) or getattr(arg, "__name__", "") in ("__exit__", "__enter__", "release", "acquire"):
            return
        t.memory -= 1
        if not t.memory:
            raise MemoryError("simulated")

    def _instant(self, t):
        t.events += 1
        t.budget -= 1
        if t.budget <= 0:
            self._yield(t, "ready")

    def _main(self, t):
        t.ident = _thread.get_ident()
        self.by_id[t.ident] = t
        t.go.acquire()
        t.state = "running"
        try:
            if self.fine:
                sys.settrace(rt.Tracer(lambda frame: self._instant(t), self.root).glob)
                sys.setprofile(self._memory)
            else:
                sys.setprofile(self._profile)
            try:
                t.f()
            finally:
                sys.settrace(None)
                sys.setprofile(None)
        except BaseException as e:  # noqa
            t.error = e
        t.state = "done"
        self.back.release()

    # ---- the scheduler itself
    def run(self):
        """returns None, or 'deadlock' or 'endless'"""
        global _current
        _current = self
        for t in self.threads:
            _thread.start_new_thread(self._main, (t,))
        last = None
        while True:
            ready = [t for t in self.threads if t.state == "ready"]
            if not ready:
                if all(t.state == "done" for t in self.threads):
                    return None
                timed = [t for t in self.threads if t.state == "blocked" and t.timed]
                if timed:
                    timed[0].timeout = True
                    timed[0].state = "ready"
                    continue
                if any(t.state == "stuck" for t in self.threads):
                    # one may still be on its way
                    if self._wait(None):
                        continue
                return "deadlock"
            t, budget = self.decide(ready + [t for t in self.threads if t.state == "blocked" and t.timed == "soon"])
            if t.state == "blocked":
                t.timeout = True
            t.budget = budget
            e0 = t.events
            if last is not None and last is not t and last.state == "ready":
                self.switches_in_call += 1
            last = t
            t.state = "running"
            t.go.release()
            if not self._wait(t):
                t.state = "stuck"
                self.stuck += 1
            self.trace.append((t.i, t.events - e0))
            self.total += t.events - e0
            if self.total > self.max:
                return "endless"

    def _wait(self, t):
        ok = self.back.acquire(True, self.patience)
        if not ok:
            return False
        # a thread that was stuck may have come back in place of the running one
        while t is not None and t.state == "running":
            if not self.back.acquire(True, self.patience):
                return False
        return True
