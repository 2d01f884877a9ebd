"""C15: user callbacks may fail or re-enter the library without disturbing a call."""
import random

import numpy as np

from .. import boot, core, forks, jobs
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C15"
FN = ["mom", "sma", "sign"]


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


class Picky(ValueError):
    """An exception that cannot be rebuilt from its arguments."""

    def __init__(self, a, *, b):
        super().__init__(a)
        self.b = b


EXC = {
    "ValueError": lambda: ValueError("simulated"), "TypeError": lambda: TypeError("simulated"), "KeyError": lambda: KeyError("simulated"), "IndexError": lambda: IndexError("simulated"),
    "AttributeError": lambda: AttributeError("simulated"), "StopIteration": lambda: StopIteration("simulated"), "GeneratorExit": lambda: GeneratorExit("simulated"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("simulated"), "SystemExit": lambda: SystemExit(3), "MemoryError": lambda: MemoryError("simulated"),
    "AssertionError": lambda: AssertionError("simulated"), "ZeroDivisionError": lambda: ZeroDivisionError("simulated"), "FloatingPointError": lambda: FloatingPointError("simulated"),
    "LinAlgError": lambda: np.linalg.LinAlgError("simulated"), "RuntimeWarning": lambda: RuntimeWarning("simulated"), "RecursionError": lambda: RecursionError("simulated"),
    "OSError": lambda: OSError(28, "simulated"), "NotImplementedError": lambda: NotImplementedError("simulated"), "Custom": lambda: Custom("simulated"),
    "CustomBase": lambda: CustomBase("simulated"), "Picky": lambda: Picky("simulated", b=1), "TimeoutError": lambda: TimeoutError("simulated"),
}


# ------------------------------------------------------------------ plans
def _qr(rng):
    d = rng.choice([1, 1, 2, 3])
    c = {"fn": rng.choice(FN)}
    r = rng.random()
    if r < 0.25:
        d = 1
        c["base"] = None
    elif r < 0.7:
        c["base"] = {"k": "BM", "a": {"drift": C._par(rng, -1, 1, d), "vol": C._par(rng, 0.05, 1, d), "cor": C._cor(rng, d)}}
    else:
        c["base"] = {"k": "stub", "vol": round(rng.uniform(0.1, 1), 2) if d == 1 else [round(rng.uniform(0.1, 1), 2) for _ in range(d)], "d": d, "seed": rng.randint(1, 10**6)}
    if rng.random() < 0.5:
        c["f_signal_vol"] = rng.choice([0.1, 0.5, 0.9])
    c["d"] = d
    return c


def _qr_args(rng, c):
    a = C.g_sample(rng, {"d": c["d"]})
    a["num_steps"] = rng.randint(5, 12) if rng.random() < 0.95 else rng.choice([40, 130, 300])
    a["num_paths"] = rng.choice([1, 2, 3, 5, rng.choice([1, 8, 9, 12, 17, 33])])
    if a.get("x0") in ("first", "last", "bogus"):
        a.pop("x0")
    if c["base"] and c["base"]["k"] == "stub":
        a["x0"] = 1.5
        a.pop("columns", None)
    return a


def _act(rng, cols, obj):
    r = rng.random()
    if r < 0.4:
        return {"t": "raise", "e": rng.choice(sorted(EXC))}
    if r < 0.6:
        op = C.gen_op(rng, {rng.choice([n for n in C.pool() if not n.startswith("load_")])})
        if rng.random() < 0.35:
            op = {"f": "get_corr_distance_matrix", "a": C.F["get_corr_distance_matrix"]["gen"](rng)}
        return {"t": "reenter", "op": op}
    if r < 0.85 and obj is not None:
        return {"t": "self", "a": _qr_args(rng, obj)}
    return {"t": "slow", "s": rng.choice([0.001, 5.0, 4000.0])}


def _call(rng, obj):
    if obj is None:
        a = C.F["get_corr_distance_matrix"]["gen"](rng)
        a.pop("corr_transformer", None)
        a["corr_to_dist_method"] = rng.choice(["angular", "abs_angular", "squared_angular"])
        if a.get("corr_method") == "kendall":
            a.pop("corr_method")
        c = {"k": "cdm", "a": a, "fn": rng.choice(["shrink", "same"])}
        n = 1
    else:
        c = {"k": "qr", "a": _qr_args(rng, obj)}
        n = obj["d"] * c["a"]["num_paths"]
    c["acts"] = {}
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2, 3])):
            c["acts"][str(rng.randint(0, n - 1))] = _act(rng, n, obj)
    if obj is not None and obj["base"] and obj["base"]["k"] == "stub" and rng.random() < 0.3:
        c["acts"]["base"] = _act(rng, n, obj)
    return c


def gen(rng, tier, idx):
    objs = [_qr(rng) for _ in range(rng.choice([1, 1, 2]))]
    plan = {"seed": rng.getrandbits(48), "objs": objs, "calls": []}
    for i in range(rng.randint(2, 5)):
        k = rng.randrange(len(objs)) if rng.random() < 0.8 else None
        c = _call(rng, objs[k] if k is not None else None)
        c["o"] = k
        plan["calls"].append(c)
    if rng.random() < 0.3:
        plan["threads"] = rng.choice([2, 6, 20])
        plan["calls"] = plan["calls"][:3]
        for c in plan["calls"]:
            for k in list(c["acts"]):
                if c["acts"][k]["t"] == "reenter" and c["acts"][k]["op"].get("f") == "get_edge_spread":
                    del c["acts"][k]
    return plan


# ------------------------------------------------------------------ the user's side
class Stub:
    """A user's own base model."""

    def __init__(self, c, user):
        self.vol = c["vol"] if not isinstance(c["vol"], list) else np.array(c["vol"])
        self.c, self.user = c, user

    def _path_sample_np(self, x0, dt, num_steps, num_paths, random_state=None):
        if self.user:
            self.user.base()
        return stub_path(self.c, x0, dt, num_steps, num_paths, random_state)


STEP = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365}    # what the labels say of the time step


def stub_path(c, x0, dt, num_steps, num_paths, random_state):
    g = np.random.Generator(np.random.PCG64(c["seed"] + (int(random_state) if random_state is not None else 0)))
    s = g.normal(size=(num_steps + 1, c["d"] * num_paths)) * np.sqrt(dt)
    s[0] = 0
    return np.asarray(x0).ravel()[0] + np.cumsum(s, axis=0)


def _same(c):
    return c


class User:
    """The application's callbacks: records what they were given and misbehaves as planned."""

    def __init__(self, res, oracle):
        self.res, self.oracle = res, oracle
        self.stacks = {}
        self.objs = []

    def stack(self):
        return self.stacks.setdefault(core._ident(), [])

    def act(self, rec, key):
        a = rec["acts"].get(key)
        if not a:
            return
        if a["t"] == "raise":
            e = EXC[a["e"]]()
            rec["thrown"] = e
            self.res.fault("callback raises " + a["e"])
            raise e
        if a["t"] == "slow":
            self.res.fault("slow callback")
            jobs.vsleep(a["s"])
        elif a["t"] == "reenter":
            self.res.fault("callback calls the library")
            th, _ = C.prepare(a["op"], C.Env())
            self.stack().append({"acts": {}, "args": [], "thrown": None})
            try:
                _, c = U.outcome(th)
            finally:
                self.stack().pop()
            d = V.diff(self.oracle[("op", id(a))], c)
            if d:
                self.res.bad("inner", f"{U.brief(a['op'])} called from a callback: alone vs inside {d}")
        else:
            self.res.fault("callback calls the same object")
            one_call(self, rec["o"], {"k": "qr", "a": a["a"], "acts": {}, "o": rec["i"]}, self.oracle[("self", id(a))], "called from its own callback")

    def indicator(self, fn):
        f = V.FUNCS[fn]

        def cb(x):
            rec = self.stack()[-1]
            rec["args"].append(np.array(x, copy=True))
            self.act(rec, str(len(rec["args"]) - 1))
            return f(np.asarray(x))

        return cb

    def transformer(self, fn):
        f = V.FUNCS[fn] if fn != "same" else _same

        def cb(c):
            rec = self.stack()[-1]
            rec["args"].append(0)
            self.act(rec, str(len(rec["args"]) - 1))
            return f(c)

        return cb

    def base(self):
        self.act(self.stack()[-1], "base")


def build(c, cb, user):
    b = c["base"]
    kw = {} if "f_signal_vol" not in c else {"f_signal_vol": c["f_signal_vol"]}
    if b and b["k"] == "BM":
        kw["base_model"] = C.lib("sim", "BrownianMotion")(**{k: V.build(v) for k, v in b["a"].items() if v is not None})
    elif b:
        kw["base_model"] = Stub(b, user)
    return C.lib("sim", "QuasiRandom")(tech_ind_func=cb, **kw)


def _alone_call(c, obj):
    """(outcome, base path columns) of a call with well-behaved callbacks (the caller forks)."""
    jobs.reset(workers=1)
    if c["k"] == "cdm":
        a = {k: V.build(v) for k, v in c["a"].items()}
        a["corr_transformer"] = V.FUNCS[c["fn"]] if c["fn"] != "same" else _same
        return U.outcome(lambda: C.lib("distance", "get_corr_distance_matrix")(**a))[1], None
    o = build(obj, V.FUNCS[obj["fn"]], None)
    a = {k: V.build(v) for k, v in c["a"].items()}
    out = U.outcome(lambda: o.path_sample(**a))[1]
    if U.is_exc(out):
        return out, None
    b = obj["base"]
    if a.get("dt") is None:
        a["dt"] = STEP.get(a.get("label_freq"), 1 / 252)
    p = {k: v for k, v in a.items() if k in ("x0", "dt", "num_steps", "num_paths", "random_state")}
    if b and b["k"] == "stub":
        return out, stub_path(b, p["x0"], p["dt"], p["num_steps"], p["num_paths"], p["random_state"])
    m = C.lib("sim", "BrownianMotion")(**({k: V.build(v) for k, v in b["a"].items() if v is not None} if b else {}))
    base = m.path_sample(**p)
    base = np.asarray(base, dtype=float)
    return out, base.reshape(base.shape[0], -1)


# ------------------------------------------------------------------ execution
def one_call(user, o, c, want, how=""):
    res = user.res
    rec = {"acts": c.get("acts", {}), "args": [], "thrown": None, "o": o, "i": c["o"]}
    user.stack().append(rec)
    out, exc = None, None
    a = {k: V.build(v) for k, v in c["a"].items()}
    try:
        if c["k"] == "cdm":
            out = C.lib("distance", "get_corr_distance_matrix")(corr_transformer=user.transformer(c["fn"]), **a)
        else:
            out = o.path_sample(**a)
    except BaseException as e:  # noqa: BLE001
        exc = e
    finally:
        user.stack().pop()
    ref, base = want
    what = f"{'QuasiRandom.path_sample' if c['k'] == 'qr' else 'get_corr_distance_matrix'} {how} {str(c['a'])[:200]}"
    res.stat("calls judged")
    if isinstance(exc, core.SimDeadlock):
        res.bad("no-progress", f"{what}: waits for ever: {exc}")
        return
    if rec["thrown"] is not None:
        if exc is not rec["thrown"]:
            res.bad("exception", f"{what}: the callback raised {type(rec['thrown']).__name__} but the caller got {('a result' if exc is None else repr(exc)[:120])}")
    else:
        got = V.canon(out) if exc is None else ("exc", type(exc).__name__)
        d = V.diff(ref, got)
        if d:
            res.bad("outer", f"{what} with callbacks {str(rec['acts'])[:200]}: alone vs now {d}" + (f" ({exc})" if exc is not None else ""))
    if c["k"] == "qr" and base is not None and not res.viol:
        n = base.shape[1]
        if rec["thrown"] is None and len(rec["args"]) != n:
            res.bad("calls", f"{what}: the indicator was called {len(rec['args'])} times for {n} paths")
        for k, x in enumerate(rec["args"][:n]):
            e = base[:-1, k]
            if x.shape != e.shape or not np.allclose(x, e, rtol=1e-9, atol=1e-12, equal_nan=True):
                res.bad("calls", f"{what}: call {k} of the indicator got {V.short(x, 100)}, not the values of path {k} without the last {V.short(e, 100)}")
                break
    res.event(c["k"], len(rec["args"]), type(exc).__name__)


def run(plan):
    res = U.Res()
    want, oracle = [], {}
    for c in plan["calls"]:
        obj = plan["objs"][c["o"]] if c["o"] is not None else None
        want.append(forks.fork_call(_alone_call, c, obj))
        for a in c["acts"].values():
            if a["t"] == "reenter":
                oracle[("op", id(a))] = U.alone_cached(a["op"])[0]
            elif a["t"] == "self":
                oracle[("self", id(a))] = forks.fork_call(_alone_call, {"k": "qr", "a": a["a"]}, obj)
    user = User(res, oracle)
    jobs.reset(workers=2, seed=plan["seed"])
    user.objs = [build(c, user.indicator(c["fn"]), user) for c in plan["objs"]]

    def one(i):
        c = plan["calls"][i]
        res.kind(c["k"])
        one_call(user, user.objs[c["o"]] if c["o"] is not None else None, c, want[i], f"call {i}")

    if plan.get("threads"):
        core.monitor(core.E.LINE)
        rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
        s = core.Sched([(lambda i: lambda: one(i))(i) for i in range(len(plan["calls"]))], rng=rng, gap=plan["threads"], decisions=plan.get("dec"), cap=2_000_000)
        ok = s.run()
        core.monitor(0)
        res.rec = {"dec": s.rec} if rng is not None else None
        res.inter = s.sig
        res.stat("context_switches", s.nswitch)
        if not ok:
            res.bad("no-progress", f"concurrent calls with callbacks do not complete: {s.deadlock}")
            return res.out()
    else:
        core.monitor(core.E.LINE)
        for i in range(len(plan["calls"])):
            with core.Injector():          # bounds the number of steps
                one(i)
            if res.viol:
                break
    core.monitor(0)
    # afterwards the same objects answer as if nothing had happened
    for i, c in enumerate(plan["calls"]):
        if res.viol or c["o"] is None:
            continue
        one_call(user, user.objs[c["o"]], dict(c, acts={}), want[i], f"call {i} repeated afterwards")
    res.nontrivial = bool(res.faults) or res.stats.get("context_switches", 0) > 0
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["calls"], 1):
        yield U.with_(plan, calls=c)
    for i, c in enumerate(plan["calls"]):
        for d in U.dict_removed(c["acts"]):
            yield U.with_(plan, calls=plan["calls"][:i] + [dict(c, acts=d)] + plan["calls"][i + 1 :])
    used = {c["o"] for c in plan["calls"]}
    if len(plan["objs"]) > 1 and 1 not in used:
        yield U.with_(plan, objs=plan["objs"][:1])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
