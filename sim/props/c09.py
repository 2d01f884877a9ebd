"""C09: parallel edge-spread estimates do not depend on how the work is scheduled."""
import random

import joblib
import numpy as np
import pandas as pd

from .. import catalog as C
from .. import core, forks, jobs
from .. import util as U
from .. import values as V

ID = "C09"
WF = ["dies", "oom", "os", "interrupted", "broken", "timeout", "value", "float"]


def _op(rng):
    cx = C.ctx(rng, 4, 40)
    cx["n"] = rng.choice([rng.randint(3, 12), rng.randint(10, 40), rng.randint(10, 40)]) if rng.random() < 0.95 else rng.randint(60, 150)
    if cx["idx"] == "dupdate":      # dates must be unique: rows are aligned by label
        cx["idx"] = "D"
    cx["flat"] = rng.random() < 0.25
    a = {"p_" + f: C.ohl(rng, cx, f) for f in ("high", "low", "open", "close")}
    n = cx["n"]
    a["window"] = rng.choice([2, 3, 4, rng.randint(2, n), n - 1 if n > 3 else 2, n, n + 1, n + 3, rng.randint(2, n)])
    if rng.random() < 0.5:
        a["sign"] = rng.random() < 0.8
    if rng.random() < 0.15:
        f = rng.choice(["p_high", "p_low", "p_open", "p_close"])
        a[f]["perturb"] = ["nan", rng.randint(0, 30), 0]
    return {"f": "get_edge_spread", "a": a}


def _hub(rng):
    h = {"workers": rng.choice([1, 2, 3, 4, 8, 16]), "mode": rng.choice(["copy", "copy", "copy", "share", "fork"]), "latency": rng.choice([0.0, 0.01, 0.05, 1.0]),
         "batch": rng.choice([0, 0, 1, 2, 7])}
    if rng.random() < 0.5:
        h["weave"] = rng.choice([2, 6, 25])
    return h


def gen(rng, tier, idx):
    calls = []
    base = _op(rng)
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = base if rng.random() < 0.4 else C.vary(rng, base) if rng.random() < 0.4 else _op(rng)
        c = {"op": C.deep(op), "hub": _hub(rng), "cpus": rng.choice([1, 2, 4, 64])}
        for k in ("p_high", "p_low", "p_open"):       # one calendar for all four prices
            if op["a"]["p_close"].get("idx"):
                c["op"]["a"][k]["idx"] = op["a"]["p_close"]["idx"]
            c["op"]["a"][k]["n"] = op["a"]["p_close"]["n"]
        w = op["a"]["window"]
        if not isinstance(w, int) or w < 2:
            c["op"]["a"]["window"] = 3
        r = rng.random()
        if r < 0.22:
            c["hub"]["faults"] = [[rng.randint(1, 12), rng.choice(WF)] for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.3:
            c["hub"]["interrupt"] = rng.randint(1, 10)
        elif r < 0.5:
            c["fault"] = {"kind": rng.choice(["line", "call"]), "u": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "FloatingPointError", "ValueError", "KeyboardInterrupt", "RuntimeError"])}
        r = rng.random()
        if r < 0.45:
            c["backend"] = [rng.choice(["config", "backend"]), rng.choice(["threading", "threading", "multiprocessing", "loky", "sequential"]), rng.choice([None, 1, 2, 5])]
        calls.append(c)
    plan = {"seed": rng.getrandbits(48), "calls": calls}
    if rng.random() < 0.15:
        plan["threads"] = rng.choice([3, 10, 40])
        for c in calls:
            c.pop("fault", None)
            c["hub"].pop("faults", None)
            c["hub"].pop("interrupt", None)
            c["hub"].pop("weave", None)
            c.pop("backend", None)
        while len(calls) < 2:
            calls.append(C.deep(calls[0]))
    return plan


def _windows(op):
    """The estimate of each window on its own, by separate calls in one quiet process; plus fault point counts."""
    jobs.reset(workers=1, latency=0)
    core.monitor(0)
    a = C.build_args(op)
    f = C.lib(C.F["get_edge_spread"]["mod"], "get_edge_spread")
    w = a["window"]
    n = len(a["p_high"])
    out = [np.nan] * n
    for i in range(w - 1, n):
        s = slice(i - w + 1, i + 1)
        b = dict(a)
        for k in ("p_high", "p_low", "p_open", "p_close"):
            b[k] = a[k].iloc[s] if isinstance(a[k], pd.Series) else a[k][s]
        out[i] = float(np.asarray(f(**b), dtype=float)[-1])
    core.monitor(core.E.LINE | core.E.CALL)
    jobs.reset(workers=1, latency=0)
    with core.Injector() as inj:
        try:
            f(**C.build_args(op))
        except Exception:  # noqa: BLE001
            pass
    return np.array(out), dict(inj.counts)


def _judge(op, raw, want):
    src = V.build(op["a"]["p_close"])
    if isinstance(src, np.ndarray):
        if not isinstance(raw, np.ndarray):
            return f"returned {type(raw).__name__} for arrays"
        got = np.asarray(raw, dtype=float)
    else:
        if not isinstance(raw, pd.Series):
            return f"returned {type(raw).__name__} for Series"
        if len(raw) != len(src) or not raw.index.equals(src.index):
            return f"index {V.short(list(raw.index), 80)} != {V.short(list(src.index), 80)}"
        got = raw.to_numpy(dtype=float)
    return V._ndiff(want, got, False, "") if got.shape == want.shape else f"{got.shape[0]} values for {want.shape[0]} prices"


def _ctx(b):
    import contextlib

    if not b:
        return contextlib.nullcontext()
    kind, name, n = b
    kw = {} if n is None else {"n_jobs": n}
    return (joblib.parallel_config if kind == "config" else joblib.parallel_backend)(name, **kw)


def run(plan):
    res = U.Res()
    want = [forks.fork_call(_windows, c["op"]) for c in plan["calls"]]
    f = C.lib(C.F["get_edge_spread"]["mod"], "get_edge_spread")
    if plan.get("threads"):
        return _threads(plan, res, want, f)
    core.monitor(core.E.LINE | core.E.CALL)
    for i, c in enumerate(plan["calls"]):
        hub = jobs.reset(seed=plan["seed"] + i, **c["hub"])
        jobs.CPUS = c["cpus"]
        a = C.build_args(c["op"])
        fp = V.fingerprint(list(a.values()))
        ft = c.get("fault")
        inj = core.Injector()
        if ft:
            n = want[i][1].get(ft["kind"], 0)
            inj = core.Injector(ft["kind"], 1 + int(ft["u"] * n), ft["exc"])
        raw, exc = None, None
        try:
            with _ctx(c.get("backend")), inj:
                raw = f(**a)
        except BaseException as e:  # noqa: BLE001
            exc = e
        hub.close()
        res.stat("batches delivered", len(hub.delivered))
        res.stat("virtual_ms", int(hub.now * 1000))
        res.stat("switches between worker threads", hub.woven)
        if hub.delivered != sorted(hub.delivered):
            res.stat("calls whose batches were delivered out of order")
        fired = bool(hub.fired or inj.fired)
        for k, v in hub.fired.items():
            res.fault(k, v)
        if inj.fired:
            res.fault("fault in library code: " + inj.exc)
        res.kind("get_edge_spread/" + c["op"]["a"]["p_close"]["c"])
        what = f"call {i} {U.brief(c['op'])} hub={c['hub']} cpus={c['cpus']} backend={c.get('backend')}"
        if exc is not None:
            if isinstance(exc, core.SimDeadlock):
                res.bad("no-progress", f"{what}: the call waits for ever: {exc}")
            elif not fired:
                res.bad("raises", f"{what}: {type(exc).__name__}: {exc}")
        else:
            d = _judge(c["op"], raw, want[i][0])
            if d:
                res.bad("result", f"{what}, faults fired: {dict(hub.fired)} {inj.fired}: window by window vs result {d}")
            res.stat("results compared")
        if V.fingerprint(list(a.values())) != fp:
            res.bad("input", f"{what}: a caller's input was altered")
        res.event(i, tuple(hub.delivered), type(exc).__name__, sorted(hub.fired.items()))
        if res.viol:
            break
    res.nontrivial = res.stats.get("batches delivered", 0) > 1
    return res.out()


def _threads(plan, res, want, f):
    core.monitor(core.E.LINE)
    h = plan["calls"][0]["hub"]
    jobs.reset(seed=plan["seed"], **h)
    out = {}
    args = [C.build_args(c["op"]) for c in plan["calls"]]

    def task(i):
        def body():
            try:
                out[i] = (f(**args[i]), None)
            except BaseException as e:  # noqa: BLE001
                out[i] = (None, e)

        return body

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([task(i) for i in range(len(args))], rng=rng, gap=plan["threads"], decisions=plan.get("dec"), cap=4_000_000)
    ok = s.run()
    jobs.HUB.close()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.inter = s.sig
    res.stat("context_switches", s.nswitch)
    res.nontrivial = s.nswitch > 0
    if not ok:
        res.bad("no-progress", f"concurrent calls do not complete: {s.deadlock}")
        return res.out()
    for i, c in enumerate(plan["calls"]):
        raw, exc = out[i]
        if exc is not None:
            res.bad("raises", f"concurrent call {i} {U.brief(c['op'])}: {type(exc).__name__}: {exc}")
            break
        d = _judge(c["op"], raw, want[i][0])
        res.stat("results compared")
        res.event(i, d)
        if d:
            res.bad("result", f"concurrent call {i} {U.brief(c['op'])}: window by window vs result {d}")
            break
    return res.out()


def shrinks(plan):
    cs = plan["calls"]
    for c in U.chunks_removed(cs, 1):
        yield U.with_(plan, calls=c)
    for i, c in enumerate(cs):
        def put(x):
            return U.with_(plan, calls=cs[:i] + [x] + cs[i + 1 :])

        for k in ("fault", "backend"):
            if k in c:
                yield put({a: b for a, b in c.items() if a != k})
        for k in ("faults", "interrupt", "weave"):
            if k in c["hub"]:
                yield put(U.with_(c, hub={a: b for a, b in c["hub"].items() if a != k}))
        for j, fs in enumerate(c["hub"].get("faults", [])):
            if len(c["hub"]["faults"]) > 1:
                yield put(U.with_(c, hub=U.with_(c["hub"], faults=[fs])))
        n = c["op"]["a"]["p_close"]["n"]
        if n > 5 and isinstance(c["op"]["a"]["window"], int) and c["op"]["a"]["window"] <= max(n // 2, 4):
            o = C.deep(c["op"])
            for k in ("p_high", "p_low", "p_open", "p_close"):
                o["a"][k]["n"] = max(n // 2, 4)
            yield put(U.with_(c, op=o))
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
