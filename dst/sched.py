"""Deterministic scheduler: real threads, exactly one running, every switch decided by the simulation.

Scheduling points: every traced line of the files under test, every call boundary inside a line, every lock
operation, and every remote call.  `threading.Lock`/`RLock` are replaced by simulated locks, so a blocked thread is
known to the scheduler and a deadlock is detected instead of hanging.
"""

from __future__ import annotations

import _thread
import builtins
import dis
import random
import sys
import threading

_real_lock = _thread.allocate_lock

_active: "Sched | None" = None
_tls = {}  # thread ident -> SimThread of the active scheduler


class Abort(BaseException):
    """Unwinds a simulated thread when the run is over."""


def _me():
    if _active is None:
        return None
    return _tls.get(_thread.get_ident())


# ------------------------------------------------------------------ locks
class SimLock:
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        t = _me()
        s = _active
        if t is None or s is None:
            who = ("ext", _thread.get_ident())
            if self.owner is None or (self._reentrant and self.owner == who):
                self.owner = who
                self.count += 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            raise RuntimeError("simulated lock: self-deadlock outside the scheduler")
        s.yield_point(t, "lock")
        while True:
            if self.owner is None or (self._reentrant and self.owner is t):
                self.owner = t
                self.count += 1
                s.note(t, "acq")
                return True
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # simulated time: a timed wait expires when nobody else can run first
                if not s.block(t, self, timed=True):
                    return False
                continue
            s.block(t, self)

    def release(self):
        t = _me()
        who = t if t is not None else ("ext", _thread.get_ident())
        if self.count == 0:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self.owner is not who and not (t is None):
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if _active is not None:
                _active.wake(self)
        if t is not None and _active is not None:
            _active.yield_point(t, "unlock")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.count > 0

    def _is_owned(self):
        t = _me()
        return self.owner is (t if t is not None else self.owner) and self.count > 0

    def _release_save(self):
        c, self.count, o, self.owner = self.count, 0, self.owner, None
        if _active is not None:
            _active.wake(self)
        return c, o

    def _acquire_restore(self, st):
        self.acquire()
        self.count = st[0]

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    _reentrant = True


def install_locks():
    """Call after importing libraries and before importing the code under test."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock


# ------------------------------------------------------------------ threads
class SimThread:
    def __init__(self, idx, fn):
        self.idx, self.fn = idx, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.state = "ready"  # ready, blocked, timed, done
        self.waiting = None
        self.timed_out = False
        self.exc = None
        self.result = None
        self.importing = 0  # imports hold the interpreter's own locks: no switch inside them


_CALLS = set()
for _n, _o in dis.opmap.items():
    if _n.startswith("CALL") or _n in ("STORE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SUBSCR", "CONTAINS_OP", "BINARY_OP",
                                       "LOAD_ATTR", "FOR_ITER"):
        _CALLS.add(_o)


class Sched:
    """schedule: {"mode": "rand", "seed": s, "p": prob} or {"mode": "list", "switches": [[step, idx], ...]}"""

    def __init__(self, schedule, trace_files=(), opcodes=False, max_steps=200_000):
        self.mode = schedule["mode"]
        self.p = schedule.get("p", 0.1)
        self.rng = random.Random(f"sched:{schedule.get('seed', 0)}")
        self.explicit = {int(s): int(i) for s, i in schedule.get("switches", ())} if self.mode == "list" else None
        self.forced = dict(self.explicit) if self.explicit else {}
        self.threads: list[SimThread] = []
        self.step = 0
        self.switches: list = []
        self.trace_files = tuple(trace_files)
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.done_gate = _real_lock()
        self.done_gate.acquire()
        self.failure = None  # deadlock / step limit
        self.aborting = False
        self.log: list = []
        self.current = None
        self._codecache = {}
        self.preemptions = 0

    # -- public
    def spawn(self, fn):
        self.threads.append(SimThread(len(self.threads), fn))

    def run(self):
        global _active
        _active = self
        _tls.clear()
        for t in self.threads:
            started = _real_lock()
            started.acquire()
            _thread.start_new_thread(self._body, (t, started))
            started.acquire()
        first = self._choose_first()
        self.current = first
        real_import = builtins.__import__

        def sim_import(*a, **k):
            t = _me()
            if t is None:
                return real_import(*a, **k)
            t.importing += 1
            try:
                return real_import(*a, **k)
            finally:
                t.importing -= 1

        builtins.__import__ = sim_import
        try:
            first.gate.release()
            self.done_gate.acquire()
        finally:
            builtins.__import__ = real_import
        _active = None
        return self

    def now(self):
        self.step += 1
        return self.step

    def note(self, t, what):
        pass

    # -- internals
    def _choose_first(self):
        if self.mode == "list":
            i = self.explicit.get(0, 0)
            return self.threads[i if i < len(self.threads) else 0]
        t = self.rng.choice(self.threads)
        if t.idx != 0:
            self.switches.append([0, t.idx])
        return t

    def _body(self, t, started):
        _tls[_thread.get_ident()] = t
        started.release()
        t.gate.acquire()
        try:
            if self.aborting:
                return
            if self.trace_files:
                sys.settrace(self._gtrace)
            t.result = t.fn()
        except Abort:
            pass
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        finally:
            sys.settrace(None)
            t.state = "done"
            _tls.pop(_thread.get_ident(), None)
            self._leave(t)

    def _gtrace(self, frame, event, arg):
        code = frame.f_code
        hit = self._codecache.get(code)
        if hit is None:
            fn = code.co_filename
            hit = any(x in fn for x in self.trace_files)
            self._codecache[code] = hit
        if not hit:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        prev = [0]
        co = code.co_code

        def local(frame, event, arg):
            t = _me()
            if t is None:
                return None
            if event == "line":
                self.yield_point(t, "line")
            elif event == "opcode":
                op = co[frame.f_lasti]
                if prev[0] in _CALLS:
                    self.yield_point(t, "op")
                prev[0] = op
            return local

        return local

    def yield_point(self, t, tag):
        if self.aborting:
            raise Abort()
        if t.importing:
            return
        self.step += 1
        if self.step > self.max_steps:
            self._fail(t, "step limit")
        nxt = None
        if self.mode == "list":
            i = self.explicit.get(self.step)
            if i is not None and i != t.idx and i < len(self.threads) and self.threads[i].state == "ready":
                nxt = self.threads[i]
        else:
            if self.rng.random() < self.p:
                ready = [x for x in self.threads if x.state == "ready" and x is not t]
                if ready:
                    nxt = self.rng.choice(ready)
        if nxt is not None:
            self.preemptions += 1
            self._switch(t, nxt)

    def _switch(self, t, nxt):
        self.switches.append([self.step, nxt.idx])
        self.current = nxt
        nxt.gate.release()
        t.gate.acquire()
        if self.aborting:
            raise Abort()

    def _pick(self, t):
        ready = [x for x in self.threads if x.state == "ready" and x is not t]
        if not ready:
            timed = [x for x in self.threads if x.state == "timed"]
            if timed:
                x = timed[0]
                x.state = "ready"
                x.timed_out = True
                x.waiting = None
                return x
            return None
        if self.mode == "list":
            i = self.explicit.get(self.step)
            for x in ready:
                if x.idx == i:
                    return x
            return ready[0]
        return self.rng.choice(ready)

    def block(self, t, lock, timed=False):
        self.step += 1
        t.state = "timed" if timed else "blocked"
        t.waiting = lock
        t.timed_out = False
        nxt = self._pick(t)
        if nxt is None:
            self._fail(t, "deadlock: " + ", ".join(f"thread {x.idx} {x.state}" for x in self.threads))
        if nxt is t:
            return not t.timed_out
        self._switch(t, nxt)
        return not t.timed_out

    def wake(self, lock):
        for x in self.threads:
            if x.state in ("blocked", "timed") and x.waiting is lock:
                x.state = "ready"
                x.waiting = None

    def _fail(self, t, why):
        self.failure = self.failure or why
        self._abort_all(t)
        raise Abort()

    def _abort_all(self, t):
        self.aborting = True

    def _leave(self, t):
        if all(x.state == "done" for x in self.threads):
            self.done_gate.release()
            return
        if self.aborting:
            nxt = next(x for x in self.threads if x.state != "done")
            self.current = nxt
            nxt.gate.release()
            return
        self.step += 1
        nxt = self._pick(t)
        if nxt is None:
            self.failure = self.failure or "deadlock: " + ", ".join(f"thread {x.idx} {x.state}" for x in self.threads)
            self.aborting = True
            nxt = next(x for x in self.threads if x.state != "done")
        self.switches.append([self.step, nxt.idx])
        self.current = nxt
        nxt.gate.release()


def gen_schedule(r, est_steps=300, nthreads=2):
    k = r.random()
    if k < 0.45:
        return {"mode": "rand", "seed": r.randrange(1 << 30), "p": r.choice([0.01, 0.03, 0.1, 0.3, 0.5])}
    # a few preemptions at random places
    n = r.choice([1, 1, 2, 2, 3, 4, 6])
    sw = sorted({r.randrange(0, est_steps): r.randrange(nthreads) for _ in range(n)}.items())
    return {"mode": "list", "switches": [list(x) for x in sw]}


def shrink_schedule(sch):
    from dst.core import shrink_list

    if sch["mode"] == "list":
        for cand in shrink_list(sch["switches"]):
            yield {"mode": "list", "switches": cand}
