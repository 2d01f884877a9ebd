"""C05: a model reflects only its parameters and its latest successful fit."""
import random

import numpy as np
import pandas as pd

from .. import catalog as C
from .. import core, forks, jobs
from .. import util as U
from .. import values as V

ID = "C05"
KINDS = ["BM", "GBM", "OU"]
SCORES = ("nll", "aic", "bic")


def _fit(rng, kind):
    x = C.fit_data(rng, kind, bad=0.12)
    a = {"x": x}
    if rng.random() < 0.4 or x.get("idx") == "W":
        a["dt"] = rng.choice([1 / 252, 0.5, 1, 1 / 12])
    return a


def _probe(rng, d):
    """A simulation every fitted model must be able to do."""
    a = {"num_steps": rng.randint(1, 8), "num_paths": rng.choice([1, 2, 3]), "random_state": rng.randint(0, 10**6)}
    C.large(rng, a, 0.06)
    if rng.random() < 0.7:
        a["x0"] = rng.choice(["first", "last"])
    if rng.random() < 0.3:
        a["include_x0"] = False
    if rng.random() < 0.2:
        a["columns"] = [f"c{i}" for i in range(d)]
    return a


def gen(rng, tier, idx):
    kind = KINDS[idx % 3]
    d = rng.choice([1, 1, 2, 3])
    model = {"o": kind, "ctor": C.O[kind]["gen"](rng, False)}
    threads = (idx // 3) % 3 == 2
    steps = []
    cur = {"d": model["ctor"]["d"], "irreg": False, "fit": False}
    if threads:
        f = _fit(rng, kind)
        steps.append({"t": "fit", "a": f})
        d = f["x"].get("m", 1) or 1
        c = {"d": d, "fit": True}
        tasks = []
        for _ in range(rng.choice([2, 3])):
            t = []
            for _ in range(rng.randint(1, 4)):
                m = rng.choice(["path_sample", "path_sample"] + list(SCORES))
                t.append({"t": "ask", "m": m, "a": C.O[kind]["m"][m][0](rng, c)})
            tasks.append(t)
        return {"seed": rng.getrandbits(48), "mode": "threads", "model": model, "steps": steps, "tasks": tasks, "gap": rng.choice([2, 5, 15])}
    for _ in range(rng.randint(4, 12)):
        r = rng.random()
        if r < 0.4:
            f = _fit(rng, kind)
            steps.append({"t": "fit", "a": f})
            cur = {"d": f["x"].get("m", 1) or 1, "irreg": f["x"].get("idx") == "irreg", "fit": True}
        elif r < 0.55:
            m = rng.choice(SCORES)
            # mostly data unlike the fitted ones, so that anything scoring leaves behind shows
            steps.append({"t": "ask", "m": m, "a": C.O[kind]["m"][m][0](rng, {"d": rng.choice([cur["d"], d, 1])})})
        elif r < 0.75 and cur["fit"]:
            steps.append({"t": "probe", "a": _probe(rng, cur["d"])})
        else:
            steps.append({"t": "ask", "m": "path_sample", "a": C.g_sample(rng, {"d": cur["d"], "fit": cur["fit"]})})
    if cur["fit"]:
        steps.append({"t": "probe", "a": _probe(rng, cur["d"])})
    return {"seed": rng.getrandbits(48), "mode": "history", "model": model, "steps": steps}


def _b(a):
    return {k: V.build(v) for k, v in a.items()}


def _new(o):
    return C.O[o["o"]]["new"](o["ctor"], C.Env())


def _call(m, st):
    if st["t"] in ("fit",):
        m.fit(**_b(st["a"]))
        return "fitted"
    if st["t"] == "probe":
        return m.path_sample(**_b(st["a"]))
    return getattr(m, st["m"])(**_b(st["a"]))


def _solo(o, fit, st):
    """A model of the same construction that saw only this fit."""
    jobs.reset(workers=1)
    m = _new(o)
    if fit is not None:
        m.fit(**_b(fit))
    r, c = U.outcome(lambda: _call(m, st))
    extra = None
    if st["t"] == "probe" and r is not None and fit is not None:
        # the same simulation with the time step spelled out
        _, extra = U.outcome(lambda: m.path_sample(**dict(_b(st["a"]), dt=_dt(fit, st["a"]))))
    return c, extra


STEP = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "M": 1 / 12, "Q": 1 / 4, "Y": 1.0}


def _dt(fit, a):
    """The time step of a simulation: that of the labels asked for, else that of the fit."""
    f = a.get("label_freq")
    if f is not None:
        return STEP[f[0]]
    if "dt" in fit:
        return fit["dt"]
    x = V.build(fit["x"])
    if isinstance(x, (pd.Series, pd.DataFrame)) and isinstance(x.index, pd.DatetimeIndex):
        f = pd.infer_freq(x.index)
        if f is not None:
            return C.lib("_datatypes.timeseries", "time_series_freq_to_duration")(f)
    return 1 / 252


def _anchor(fit, a, raw):
    """What a simulation of a fitted model must look like; returns a complaint or None."""
    x = V.build(fit["x"])
    v = x.to_numpy() if isinstance(x, (pd.Series, pd.DataFrame)) else x
    v = v.reshape(len(v), -1)
    r = raw.to_numpy() if isinstance(raw, (pd.Series, pd.DataFrame)) else np.asarray(raw)
    r = r.reshape(len(r), -1)
    keep = a.get("include_x0", True)
    rows = a["num_steps"] + (1 if keep else 0)
    d, p = v.shape[1], a["num_paths"]
    if r.shape != (rows, d * p):
        return f"shape {r.shape} instead of {(rows, d * p)}"
    row = v[-1] if a.get("x0") == "last" else v[0]
    if keep:
        want = np.tile(row, p).astype(float)
        if not np.allclose(r[0], want, rtol=1e-9, atol=0, equal_nan=True):
            return f"starts at {r[0]} instead of {want}"
    if isinstance(x, (pd.Series, pd.DataFrame)):
        if not isinstance(raw, (pd.Series, pd.DataFrame)):
            return f"container {type(raw).__name__} after fitting {type(x).__name__}"
        if p == 1 and "columns" not in a:
            names = list(x.columns) if isinstance(x, pd.DataFrame) else [x.name]
            have = list(raw.columns) if isinstance(raw, pd.DataFrame) else [raw.name]
            if have != names:
                return f"columns {have} instead of {names}"
        if isinstance(x.index, pd.DatetimeIndex):
            f = a.get("label_freq") or pd.infer_freq(x.index)
            start = x.index.max() if a.get("x0") == "last" else x.index.min()
            want = pd.date_range(start, periods=a["num_steps"] + 1, freq=f, name=x.index.name)
            want = want if keep else want[1:]
            if not (isinstance(raw.index, pd.DatetimeIndex) and raw.index.equals(want)):
                return f"labels {list(raw.index[:2])} instead of {list(want[:2])}"
            if raw.index.name != x.index.name:
                return f"index name {raw.index.name!r} instead of {x.index.name!r}"
    return None


def _fitting(a, fit):
    """The probe's arguments made to match the fit in force."""
    a = dict(a)
    x = fit["x"] if fit else {}
    if "columns" in a and len(a["columns"]) != (x.get("m", 1) or 1):
        a.pop("columns")
    if x.get("c") in ("series", "frame") and x.get("idx") == "irreg":
        a["label_freq"] = "D"          # these dates have no frequency of their own
    return a


def _usable(kind, fit):
    """Data the model is meant for: finite and, for prices, positive."""
    x = V.build(fit["x"])
    v = x.to_numpy() if isinstance(x, (pd.Series, pd.DataFrame)) else x
    return bool(np.all(np.isfinite(v))) and (kind != "GBM" or bool(np.all(v > 0)))


def run(plan):
    res = U.Res()
    o = plan["model"]
    # oracle first: every answer from a pristine process
    want, fits, fit = {}, {}, None
    steps = [dict(st) for st in plan["steps"]]
    for i, st in enumerate(steps):
        if st["t"] == "probe":
            st["a"] = _fitting(st["a"], fit)
        if st["t"] == "fit":
            want[i] = (forks.fork_call(_solo, o, None, st)[0], None)
            if not U.is_exc(want[i][0]):
                fit = st["a"]
        else:
            want[i] = forks.fork_call(_solo, o, fit, st)
        fits[i] = fit
    twant = {}
    for ti, t in enumerate(plan.get("tasks", [])):
        for k, st in enumerate(t):
            twant[ti, k] = forks.fork_call(_solo, o, fit, st)[0]
    jobs.reset(seed=plan["seed"], workers=2)
    core.monitor(core.E.LINE)
    m = _new(o)
    nfit = 0
    for i, st in enumerate(steps):
        raw, got = U.outcome(lambda: _call(m, st))
        name = f"{o['o']}.{st.get('m', st['t'])}"
        res.kind(name)
        res.event(i, st["t"], V.digest(got))
        if st["t"] == "fit":
            nfit += 1
            res.fault("rejected fit" if U.is_exc(got) else "refit" if nfit > 1 else "fit")
        d = V.diff(want[i][0], got)
        if d:
            res.bad("answer", f"step {i} {name} {st['a']}: model that saw only the latest fit {fits[i]} vs this history {d}")
            return res.out()
        if st["t"] == "probe":
            res.stat("simulations of a fitted model")
            if fits[i] is None or not _usable(o["o"], fits[i]):
                continue
            if raw is None:
                res.bad("unusable", f"step {i}: a fitted {o['o']} (fit {fits[i]}) cannot be simulated with {st['a']}: {got[1]}")
                return res.out()
            c = _anchor(fits[i], st["a"], raw)
            if c:
                res.bad("anchor", f"step {i}: {o['o']} fitted with {fits[i]}, path_sample {st['a']}: {c}")
                return res.out()
            d = V.diff(want[i][1], got)
            if d:
                res.bad("dt", f"step {i}: {o['o']} fitted with {fits[i]}, path_sample {st['a']}: time step of the fit spelled out vs default {d}")
                return res.out()
    res.nontrivial = nfit > 0
    if not plan.get("tasks"):
        return res.out()
    got = {}

    def task(ti):
        def body():
            for k, st in enumerate(plan["tasks"][ti]):
                got[ti, k] = U.outcome(lambda: _call(m, st))[1]

        return body

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([task(i) for i in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"))
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        res.bad("no-progress", f"{s.deadlock}")
        return res.out()
    for k in sorted(twant):
        st = plan["tasks"][k[0]][k[1]]
        res.kind(f"{o['o']}.{st['m']} (threads)")
        res.event(k, V.digest(got[k]))
        d = V.diff(twant[k], got[k])
        if d:
            res.bad("answer", f"thread {k[0]} {o['o']}.{st['m']} {st['a']} on a shared fitted model: alone vs concurrent {d}")
            return res.out()
    res.sigs = [s.sig, res.log]
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
    ts = plan.get("tasks")
    if ts:
        for i in range(len(ts)):
            if len(ts) > 1:
                yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
        for i, t in enumerate(ts):
            for c in U.chunks_removed(t, 1):
                yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, st in enumerate(plan["steps"]):
        x = st["a"].get("x")
        if isinstance(x, dict) and x.get("n", 0) > 8:
            yield U.with_(plan, steps=plan["steps"][:i] + [dict(st, a=dict(st["a"], x=dict(x, n=7)))] + plan["steps"][i + 1 :])
