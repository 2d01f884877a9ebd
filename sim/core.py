"""Scheduler, locks and fault injection: the simulator proper."""
import _thread
import os
import sys
import threading
import zlib

from . import boot

mon = sys.monitoring
TOOL = 4
E = mon.events

_real_lock = _thread.allocate_lock
_ident = _thread.get_ident


class SimDeadlock(BaseException):
    """Raised in a caller that would wait for ever (or exceeded its step budget)."""


class SimStop(BaseException):
    pass


# ------------------------------------------------------------------ monitoring
_active = 0
SCHED = None            # current Sched
INJ = {}                # thread ident -> Injector
LINE_HOOK = None        # extra per-line hook (invariant checks)


def _on_line(code, line):
    me = _ident()
    inj = INJ.get(me)
    if inj is not None:
        inj.event("line", code, line)
    s = SCHED
    if s is not None:
        s.step(me, code, line)


def _on_instr(code, off):
    s = SCHED
    if s is not None:
        s.step(_ident(), code, off)


_NUM = ("numpy", "scipy", "pandas", "sklearn", "joblib")
_NOFAULT = {
    "seterr", "errstate", "set_state", "setstate", "seed", "filterwarnings", "simplefilter", "resetwarnings",
    "set_option", "reset_option", "option_context", "__exit__", "__enter__", "close", "seterrcall",
    "set_printoptions", "printoptions", "get_state", "catch_warnings",
}


def _mod(c):
    m = getattr(c, "__module__", None)
    if not isinstance(m, str):
        s = getattr(c, "__self__", None)
        if s is not None:
            m = type(s).__module__
        if not isinstance(m, str):
            m = type(c).__module__
    return m if isinstance(m, str) else ""


def _on_call(code, off, callee, arg0):
    inj = INJ.get(_ident())
    if inj is None:
        return
    m = _mod(callee)
    if not m.startswith(_NUM):
        return
    if getattr(callee, "__name__", "") in _NOFAULT:
        return
    inj.event("call", code, _line_of(code, off))


_lines = {}


def _line_of(code, off):
    t = _lines.get(code)
    if t is None:
        t = _lines[code] = [x for x in code.co_lines() if x[2] is not None]
    for a, b, l in t:
        if a <= off < b:
            return l
    return code.co_firstlineno


def _set(codes, ev):
    for c in codes:
        mon.set_local_events(TOOL, c, ev)


def monitor(ev):
    """Switch on the given events for all library code (current and future)."""
    global _active
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "verif-sim")
        mon.register_callback(TOOL, E.LINE, _on_line)
        mon.register_callback(TOOL, E.INSTRUCTION, _on_instr)
        mon.register_callback(TOOL, E.CALL, _on_call)
    _active = ev
    _set(boot.CODES, ev)


def _new_code(c):
    if _active:
        mon.set_local_events(TOOL, c, _active)


boot._hooks.append(_new_code)


# ------------------------------------------------------------------ fault injection
def _exc(name):
    if name == "MemoryError":
        return MemoryError("simulated: out of memory")
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("simulated: interrupt")
    if name == "LinAlgError":
        import numpy as np

        return np.linalg.LinAlgError("simulated: numerical failure")
    if name == "FloatingPointError":
        return FloatingPointError("simulated: floating point error")
    if name == "ValueError":
        return ValueError("simulated: value error")
    if name == "Crash":
        from .props.c13 import Crash

        return Crash()
    if name == "RuntimeError":
        return RuntimeError("simulated")
    raise ValueError(name)


class Injector:
    """Counts fault points of the current thread's library code; raises at the n-th."""

    def __init__(self, kind=None, n=None, exc=None):
        self.kind, self.n, self.exc = kind, n, exc
        self.counts = {"line": 0, "call": 0}
        self.fired = None
        self.cap = 3_000_000

    def event(self, kind, code, line):
        c = self.counts[kind] = self.counts[kind] + 1
        if kind == "line" and c > self.cap:
            self.cap = 1 << 60
            raise SimDeadlock("step budget exhausted")
        if self.fired is None and kind == self.kind and c >= self.n:
            # never inside clean-up code, wherever in the library's call stack
            f = sys._getframe(2)
            while f is not None:
                if f.f_code in boot.CODE_SET and f.f_lineno in boot.CLEANUP.get(f.f_code.co_filename, ()):
                    return
                f = f.f_back
            self.fired = f"{self.exc}@{os.path.basename(code.co_filename)}:{code.co_name}"
            raise _exc(self.exc)

    def __enter__(self):
        self.prev = INJ.get(_ident())
        INJ[_ident()] = self
        return self

    def __exit__(self, *a):
        if self.prev is None:
            INJ.pop(_ident(), None)
        else:
            INJ[_ident()] = self.prev
        return False


# ------------------------------------------------------------------ deterministic threads
class Task:
    __slots__ = ("id", "fn", "gate", "n", "nb", "state", "on", "timed_out", "can_time_out", "ident")

    def __init__(self, id, fn):
        self.id, self.fn = id, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.n = self.nb = 0
        self.state = "ready"
        self.on = None
        self.timed_out = self.can_time_out = False
        self.ident = None


ELAPSE = None
SERIAL = False          # the application runs one call at a time (in whichever thread): nobody else can release a lock


class Hop:
    """Long-lived application threads that make one call at a time, in the order the history says."""

    def __init__(self):
        self.box = {}

    def _serve(self, slot):
        while True:
            slot[0].acquire()
            fn = slot[2]
            try:
                slot[3] = (True, fn())
            except BaseException as e:  # noqa: BLE001
                slot[3] = (False, e)
            slot[2] = fn = None
            slot[1].release()
            if slot[4]:
                return

    def run(self, name, fn, last=False):
        """Execute fn() in thread `name`; with last=True the thread ends afterwards."""
        if name not in self.box:
            a, b = _real_lock(), _real_lock()
            a.acquire()
            b.acquire()
            self.box[name] = [a, b, None, None, False]
            _thread.start_new_thread(self._serve, (self.box[name],))
        slot = self.box[name]
        slot[2], slot[4] = fn, last
        slot[0].release()
        slot[1].acquire()
        if last:
            del self.box[name]
        ok, r = slot[3]
        slot[3] = None
        if not ok:
            raise r
        return r


class Sched:
    """Runs tasks in real threads, exactly one at a time.

    decisions: {"<task>:<local step>" | "<task>:end" | "<task>:b<k>": next task}
    When `rng` is given decisions are drawn (and recorded); otherwise only the recorded ones
    apply, everything else runs straight on (or falls back to the lowest-numbered ready task).
    """

    def __init__(self, fns, rng=None, gap=None, decisions=None, cap=400_000, on_switch=None):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.by_ident = {}
        self.rng, self.gap = rng, gap
        self.dec = dict(decisions or {})
        self.rec = {}
        self.steps = 0
        self.cap = cap
        self.main = _real_lock()
        self.main.acquire()
        self.error = None
        self.deadlock = None
        self.sig = 0
        self.nswitch = 0
        self.on_switch = on_switch
        self._next = self._draw_gap()

    def _draw_gap(self):
        if self.rng is None or not self.gap:
            return 1 << 60
        return 1 + int(self.rng.expovariate(1.0 / self.gap))

    # -- scheduling
    def step(self, ident, code, line):
        t = self.by_ident.get(ident)
        if t is None:
            return
        t.n += 1
        self.steps += 1
        if self.steps > self.cap:
            self.fail("no-progress", t)
        if self.rng is not None:
            self._next -= 1
            if self._next > 0:
                return
            self._next = self._draw_gap()
            ready = [x.id for x in self.tasks if x.state == "ready" and x is not t]
            if not ready:
                return
            tgt = self.rng.choice(ready)
        else:
            tgt = self.dec.get(f"{t.id}:{t.n}")
            if tgt is None or tgt == t.id or tgt >= len(self.tasks) or self.tasks[tgt].state != "ready":
                return
        self.rec[f"{t.id}:{t.n}"] = tgt
        self.sig = zlib.crc32(f"{self.sig}|{t.id}|{code.co_name}|{line}|{tgt}".encode())
        self.nswitch += 1
        if ELAPSE is not None:      # the preempted thread may be held up for seconds
            ELAPSE((self.sig % 1000) / 100)
        if self.on_switch is not None:
            self.on_switch(self, t, code, line)
        u = self.tasks[tgt]
        u.gate.release()
        t.gate.acquire()

    def _pick(self, key, me):
        ready = [x.id for x in self.tasks if x.state == "ready"]
        if not ready:
            late = [x for x in self.tasks if x.state == "blocked" and x.can_time_out]
            if late:
                late[0].timed_out = True
                late[0].state = "ready"
                return late[0]
            return None
        if self.rng is not None:
            tgt = self.rng.choice(ready)
            self.rec[key] = tgt
        else:
            tgt = self.dec.get(key)
            if tgt not in ready:
                tgt = ready[0]
        self.sig = zlib.crc32(f"{self.sig}|{key}|{tgt}".encode())
        return self.tasks[tgt]

    def block(self, t, obj, timeout=False):
        t.state, t.on, t.can_time_out, t.timed_out = "blocked", obj, timeout, False
        t.nb += 1
        u = self._pick(f"{t.id}:b{t.nb}", t)
        if u is None:
            self.fail("deadlock", t)
        if u is not t:
            u.gate.release()
            t.gate.acquire()
        t.on = None
        return not t.timed_out

    def wake(self, obj):
        for x in self.tasks:
            if x.state == "blocked" and x.on is obj:
                x.state = "ready"

    def yield_now(self, t):
        """A voluntary yield (sleep)."""
        t.nb += 1
        u = self._pick(f"{t.id}:b{t.nb}", t)
        if u is not None and u is not t:
            u.gate.release()
            t.gate.acquire()

    def fail(self, why, t):
        self.deadlock = (why, t.id, self.steps)
        self.main.release()
        _real = _real_lock()
        _real.acquire()
        _real.acquire()      # park for ever; the process is about to exit

    def _body(self, t):
        t.ident = _ident()
        self.by_ident[t.ident] = t
        t.gate.acquire()
        try:
            t.fn()
        except (SimStop, SimDeadlock, SystemExit):
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or e
        finally:
            t.state = "done"
            self.by_ident.pop(t.ident, None)
            u = self._pick(f"{t.id}:end", t)
            if u is not None:
                u.gate.release()
            elif all(x.state == "done" for x in self.tasks):
                self.main.release()
            else:
                self.deadlock = ("deadlock", t.id, self.steps)
                self.main.release()

    def run(self):
        global SCHED
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        # wait until every thread is parked at its gate (they do nothing before it)
        while len(self.by_ident) < len(self.tasks):
            os.sched_yield()
        SCHED = self
        self._pick_first().gate.release()
        self.main.acquire()
        SCHED = None
        if self.error is not None and self.deadlock is None:
            raise RuntimeError("a simulated thread failed outside of what is judged") from self.error
        return self.deadlock is None

    def _pick_first(self):
        return self._pick("start", None)


def current_task():
    s = SCHED
    if s is None:
        return None, None
    return s, s.by_ident.get(_ident())


class SimLock:
    """threading.Lock whose waiting is scheduled by the simulator."""

    _re = False

    def __init__(self):
        self._l = _real_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        if self._re and self._owner == me:
            self._count += 1
            return True
        while True:
            if self._l.acquire(False):
                self._owner, self._count = me, 1
                return True
            if not blocking:
                return False
            s, t = current_task()
            if t is not None:
                if not s.block(t, self, timeout is not None and timeout >= 0):
                    return False
                continue
            if (timeout is None or timeout < 0) and SCHED is None and (SERIAL or threading.active_count() <= 1):
                raise SimDeadlock("waiting for a lock nobody will release")
            if self._l.acquire(True, timeout if timeout is not None else -1):
                self._owner, self._count = me, 1
                return True
            return False

    def release(self):
        if self._re:
            if self._owner != _ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()
        s = SCHED
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()
        self._owner, self._count = None, 0

    # protocol used by threading.Condition
    def _is_owned(self):
        return self._owner == _ident() if self._re else self._l.locked()

    def _release_save(self):
        st = (self._owner, self._count)
        self._count = 0
        self._owner = None
        self._l.release()
        s = SCHED
        if s is not None:
            s.wake(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._owner, self._count = st


class SimRLock(SimLock):
    _re = True

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.RLock' object")


def _no_pickle(self):
    raise TypeError("cannot pickle '_thread.lock' object")


SimLock.__reduce__ = _no_pickle


def patch_locks():
    """From here on locks created anywhere in the process belong to the simulator."""
    import logging

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    logging._lock = SimRLock()
    for h in list(logging._handlerList):
        h = h()
        if h is not None:
            h.createLock()


class VirtualTime:
    """Stand-in for the time module inside joblib's polling loop."""

    def __init__(self, real, on_sleep):
        self._real = real
        self._on_sleep = on_sleep

    def __getattr__(self, k):
        return getattr(self._real, k)

    def sleep(self, s):
        self._on_sleep(s)
