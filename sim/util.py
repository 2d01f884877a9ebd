"""Small helpers shared by the property modules."""
import json
import zlib

from . import boot
from . import catalog as C
from . import forks
from . import values as V


def chunks_removed(lst, min_keep=0):
    """Shrinking candidates of a list: drop halves, quarters, ... single elements."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            c = lst[:i] + lst[i + size :]
            if len(c) >= min_keep and len(c) < n:
                yield c
        size //= 2


def with_(plan, **kw):
    p = dict(plan)
    p.update(kw)
    return p


def dict_removed(d, min_keep=0):
    for ks in chunks_removed(sorted(d), min_keep):
        yield {k: d[k] for k in ks}


def outcome(thunk):
    """(raw result or None, canonical outcome)."""
    from .core import SimDeadlock

    try:
        r = thunk()
        return r, V.canon(r)
    except SimDeadlock:
        return None, ("exc", "SimDeadlock")
    except BaseException as e:  # noqa: BLE001
        return None, ("exc", type(e).__name__)


def viol(cls, msg, **kw):
    d = {"cls": cls, "msg": V.short(msg, 900) if not isinstance(msg, str) else msg[:900]}
    d.update(kw)
    return d


def brief(op):
    """Compact text of an operation for messages."""
    s = json.dumps({k: v for k, v in op.items() if k in ("a", "ctor", "m")}, sort_keys=True)
    return f"{C.name_of(op)} {s[:260]}"


# ------------------------------------------------------------------ oracle
def _alone(op, objs):
    """One operation in a pristine process (the caller forks)."""
    from . import core, jobs

    jobs.reset(workers=1)
    core.monitor(core.E.LINE | core.E.CALL)
    env = C.Env()
    if "oid" in op:
        C.add_obj(env, op["oid"], objs[op["oid"]])
    th, _ = C.prepare(op, env)
    with core.Injector() as inj:
        r, c = outcome(th)
    return c, dict(inj.counts, env=sorted(boot.ENV_READ))


def alone(op, objs=None):
    """(canonical outcome, fault-point counts) of `op` executed alone in a fresh process."""
    return forks.fork_call(_alone, op, objs or {})


_cache = {}


def alone_cached(op, objs=None):
    k = json.dumps([op, (objs or {}).get(op.get("oid"))], sort_keys=True)
    if k not in _cache:
        _cache[k] = alone(op, objs)
    return _cache[k]


def sig_of(*xs):
    h = 0
    for x in xs:
        h = zlib.crc32(repr(x).encode(), h)
    return h


class Res:
    """Accumulates what one simulated run did."""

    def __init__(self):
        self.viol = None
        self.stats, self.faults, self.kinds = {}, {}, []
        self.rec = None
        self.log = 0
        self.inter = 0
        self.sigs = []
        self.nontrivial = False

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def kind(self, k):
        if k not in self.kinds:
            self.kinds.append(k)

    def event(self, *x):
        self.log = zlib.crc32(repr(x).encode(), self.log)
        self.stat("events")

    def bad(self, cls, msg):
        if self.viol is None:
            self.viol = viol(cls, msg)

    def out(self):
        d = {"stats": self.stats, "faults": self.faults, "kinds": self.kinds, "log": self.log, "inter": self.inter, "sig": sig_of(*self.sigs) if self.sigs else self.log, "nontrivial": self.nontrivial}
        if self.viol:
            d["viol"] = self.viol
        if self.rec:
            d["rec"] = self.rec
        return d


def is_exc(c):
    return isinstance(c, tuple) and c and c[0] == "exc"


def op_shrinks(op):
    """Smaller variants of one operation's data."""
    for p in C._data_recipes(op):
        d = C.get_path(op, p)
        if d.get("n", 0) > 6:
            o = C.deep(op)
            C.get_path(o, p)["n"] = max(5, d["n"] // 2)
            yield o
