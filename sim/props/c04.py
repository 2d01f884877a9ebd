"""C04: seeds reproduce exactly; unseeded simulations are always fresh."""
import os
import random

import numpy as np
import pandas as pd

from .. import boot, core, forks, jobs
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C04"
V.exact()
KINDS = ["BM", "GBM", "OU", "QR"]


def _ctor(rng, kind):
    """A model whose paths are never degenerate."""
    for _ in range(50):
        c = C.O[kind]["gen"](rng, None)
        if kind == "QR":
            c["a"]["tech_ind_func"] = {"k": "fn", "v": rng.choice(["mom", "sma", "sign"])}
        if c.get("fit"):
            x = c["fit"]["x"]
            if x["n"] < 12 or x["gen"] in ("tiny",) or (kind == "OU" and x["gen"] != "mr"):
                continue
            if x.get("idx") in ("irreg", "W"):
                x["idx"] = "B"
        elif kind != "QR" and rng.random() < 0.4 and c["d"] > 1:
            # identical, uncorrelated variables: their paths must still differ
            c["a"] = {k: ({"k": "nda", "v": [0.5] * c["d"]} if v is not None and k != "cor" else None) for k, v in c["a"].items()}
        return c
    return {"d": 1, "a": {}}


def _args(rng, ctor, kind):
    a = {"num_steps": rng.randint(6 if kind == "QR" else 4, 12), "num_paths": rng.choice([1, 2, 3, 4])}
    C.large(rng, a, 0.08)
    r = rng.random()
    if r < 0.3:
        a["x0"] = 3.5
    elif r < 0.5 and ctor.get("fit"):
        a["x0"] = rng.choice(["first", "last"])
    if rng.random() < 0.3:
        a["dt"] = rng.choice([0.5, 1, 1 / 12])
    if rng.random() < 0.3:
        a["label_start"], a["label_freq"] = "2020-01-01", "D"
    if rng.random() < 0.2:
        a["include_x0"] = False
    return a


def _seeds(rng):
    s = rng.choice([rng.randint(0, 50), rng.randint(0, 2**31), rng.randint(0, 2**62)])
    c = [0, 1, s, s + 1, s + 2, s + 1000, s + 2**16, s + 2**31, s + 2**32, s * 2 + 1, 2**64 + s, 2**32 - 1, 2**53 + 2 * (s % 1000), 2**53 + 2 * (s % 1000) + 1, 2**128 + s, 10**9 + 7, 42]
    rng.shuffle(c)
    out = []
    for x in c[: rng.randint(4, 9)]:
        if x not in out:
            out.append(x)
    return out


def gen(rng, tier, idx):
    kind = KINDS[idx % 4]
    mode = ["repro", "differ", "fresh", "repro", "fresh"][(idx // 4) % 5]
    objs = {"m0": {"o": kind, "ctor": _ctor(rng, kind)}}
    if mode == "repro" and rng.random() < 0.5:
        k2 = rng.choice(KINDS)
        objs["m1"] = {"o": k2, "ctor": _ctor(rng, k2)}
    p = {"seed": rng.getrandbits(48), "mode": mode, "objs": objs, "app": {"np": rng.randint(0, 5), "py": rng.randint(0, 5)}}
    if mode == "differ":
        p["args"] = _args(rng, objs["m0"]["ctor"], kind)
        p["seeds"] = _seeds(rng)
        p["np64"] = rng.random() < 0.4
        if rng.random() < 0.25:
            s = p["seeds"][0]
            p["seeds"] = [s] + [s + k for k in sorted(rng.sample([1, 2, 3, 4, 5, 7, 8, 10], 3))] + p["seeds"][1:2]
            p["seeds"] = sorted(set(p["seeds"]), key=p["seeds"].index)
        if kind == "OU":
            p["args"].setdefault("dt", 1 / 252)
        if kind != "QR" and rng.random() < 0.2:
            p["args"]["num_steps"] = rng.choice([1100, 2100, 4100, 8200, 9000, 17000, 40000])
            p["args"]["num_paths"] = rng.choice([1, 1, 2])
            p["args"].pop("label_start", None)
            p["seeds"] = p["seeds"][:4]
        return p
    tasks = []
    base = {o: _args(rng, objs[o]["ctor"], objs[o]["o"]) for o in objs}
    pool = _seeds(rng)
    for _ in range(rng.choice([1, 2, 3])):
        t = []
        for _ in range(rng.randint(2, 5)):
            oid = rng.choice(sorted(objs))
            a = dict(base[oid])
            if mode == "repro" and rng.random() < 0.3:
                a = _args(rng, objs[oid]["ctor"], objs[oid]["o"])
            if rng.random() < (0.8 if mode == "repro" else 0.25):
                a["random_state"] = rng.choice(pool if mode == "repro" else pool[:2])
            st = {"oid": oid, "m": "path_sample", "a": a, "env": rng.choice(["", "reseed", "reseed", "clock", "draw"])}
            if rng.random() < 0.3:
                st["fork"] = rng.choice([1, 2])
            t.append(st)
        tasks.append(t)
    p.update(tasks=tasks, gap=rng.choice([2, 5, 15]), build=rng.choice(["once", "each"]))
    return p


def _cols(r):
    """Columns of the raw increments of a result (start value removed)."""
    x = r.to_numpy() if isinstance(r, (pd.DataFrame, pd.Series)) else np.asarray(r)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    d = np.diff(x.astype(float), axis=0)
    return [tuple(float(f"{v:.10g}") for v in d[:, j]) for j in range(d.shape[1])]


def _noise(model, kind, r, dt):
    """The driving noise of each column, up to constants that are the same for every seed (or None)."""
    x = r.to_numpy() if isinstance(r, (pd.DataFrame, pd.Series)) else np.asarray(r)
    x = x.reshape(len(x), -1).astype(float)
    with np.errstate(all="ignore"):
        if kind == "GBM":
            x = np.log(x)
        f = 1.0
        if kind == "OU":
            try:
                f = np.exp(-np.ravel(model.mrr) * dt)
                f = np.tile(f, x.shape[1] // f.size)
            except (AttributeError, TypeError, ValueError):
                return None
        d = x[1:] - f * x[:-1]
    return d if np.all(np.isfinite(d)) else None


STRETCH = 6


def _unit(d):
    """Far above rounding errors, far below the spread of the noise (None when there is no such unit)."""
    q = np.sort(np.abs(d), axis=None)
    u = q[len(q) // 2] * 1e-5
    return u if u > 1e-9 * np.max(np.abs(np.cumsum(d, axis=0))) else None


def _stretches(d, unit):
    """Every run of consecutive noise values, as a key that survives rounding errors of the sums."""
    k = np.floor(d / unit).astype(np.int64)
    for j in range(k.shape[1]):
        c = k[:, j].tolist()
        for t in range(len(c) - STRETCH + 1):
            w = tuple(c[t : t + STRETCH])
            if len(set(w)) == STRETCH:
                yield j, t, w


def _flat(cols):
    """Constant or non-finite columns say nothing about randomness."""
    return any(len(set(c)) < 2 or not np.all(np.isfinite(c)) for c in cols)


def _new(o):
    try:
        return C.O[o["o"]]["new"](o["ctor"], C.Env())
    except Exception as e:  # noqa: BLE001
        return e


def _sample(model, a):
    if isinstance(model, Exception):
        raise model
    return model.path_sample(**{k: V.build(v) for k, v in a.items()})


def _app_env(kind, app):
    if kind == "reseed":
        np.random.seed(app["np"])
        random.seed(app["py"])
    elif kind == "draw":
        np.random.random(3)
        random.random()
    elif kind == "clock":
        boot.shim.clock(1, 1_700_000_000_000_000_000, 0)


def _differ(plan, res):
    o = plan["objs"]["m0"]
    model = _new(o)
    seen, where, unit = {}, {}, None
    for s in plan["seeds"]:
        raw, got = U.outcome(lambda: _sample(model, dict(plan["args"], random_state=s)))
        res.event(s, V.digest(got))
        if raw is None:
            res.stat("calls that raise")
            return res.out()
        cols = _cols(raw)
        if _flat(cols):
            return res.out()
        for j, c in enumerate(cols):
            if c in seen:
                res.bad("same", f"{o['o']} {plan['args']}: seed {s} path {j} repeats the increments of seed {seen[c][0]} path {seen[c][1]}")
                return res.out()
            seen[c] = (s, j)
        z = _noise(model, o["o"], raw, plan["args"].get("dt")) if o["o"] != "QR" else None
        unit = unit or (_unit(z) if z is not None else None)
        for j, t, w in _stretches(z, unit) if z is not None and unit else ():
            if w in where:
                res.bad("overlap", f"{o['o']} {plan['args']}: seed {s} column {j} at step {t} repeats {STRETCH} steps of the noise of seed {where[w][0]} column {where[w][1]} at step {where[w][2]}")
                return res.out()
            where[w] = (s, j, t)
            if len(where) % 1000 == 0:
                res.stat("thousands of stretches of noise compared")
        if plan["np64"] and s < 2**63:
            _, g2 = U.outcome(lambda: _sample(model, dict(plan["args"], random_state=np.int64(s))))
            d = V.diff(got, g2)
            if d:
                res.bad("answer", f"{o['o']}: seed {s} as int vs numpy integer {d}")
                return res.out()
    res.nontrivial = True
    res.kind(f"{o['o']}.path_sample")
    res.stat("seed pairs compared", len(plan["seeds"]) * (len(plan["seeds"]) - 1) // 2)
    return res.out()


def run(plan):
    res = U.Res()
    if plan["mode"] == "differ":
        return _differ(plan, res)
    want = {}
    for ti, t in enumerate(plan["tasks"]):
        for i, st in enumerate(t):
            op = {"oid": st["oid"], "m": "path_sample", "a": st["a"]}
            res.kind(f"{plan['objs'][st['oid']]['o']}.path_sample")
            if "random_state" in st["a"]:
                want[ti, i] = U.alone_cached(op, plan["objs"])[0]
    jobs.reset(seed=plan["seed"], workers=2)
    core.monitor(core.E.LINE)
    os.getpid = lambda: 1                     # every container's first process
    shared = {k: _new(o) for k, o in plan["objs"].items()}
    got, fresh = {}, []

    def one(st):
        if plan["build"] == "each":
            o = plan["objs"][st["oid"]]
            m = _new(o)
        else:
            m = shared[st["oid"]]
        raw, c = U.outcome(lambda: _sample(m, st["a"]))
        return c, (None if raw is None else _cols(raw))

    def child(st):
        core.SCHED = None
        return [one(st) for _ in range(2)]

    def task(ti):
        def body():
            for i, st in enumerate(plan["tasks"][ti]):
                _app_env(st["env"], plan["app"])
                outs = []
                if st.get("fork"):
                    for _ in range(st["fork"]):
                        outs += forks.fork_call(child, st)
                outs.append(one(st))
                got[ti, i] = outs

        return body

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([task(i) for i in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"))
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        res.bad("no-progress", f"{s.deadlock}")
        return res.out()
    seen = {}
    n = 0
    for ti, t in enumerate(plan["tasks"]):
        for i, st in enumerate(t):
            if st["env"]:
                res.fault({"reseed": "global generators reseeded", "clock": "clock stopped", "draw": "global generators used"}[st["env"]])
            if st.get("fork"):
                res.fault("call repeated in forked processes", st["fork"])
            for j, (c, cols) in enumerate(got[ti, i]):
                n += 1
                where = f"thread {ti} call {i} copy {j} {plan['objs'][st['oid']]['o']}.path_sample {st['a']}"
                if (ti, i) in want:
                    res.event(ti, i, V.digest(c))
                    d = V.diff(want[ti, i], c)
                    if d:
                        res.bad("answer", f"{where}: seeded result alone vs here {d}")
                        return res.out()
                elif cols is not None and not _flat(cols):
                    res.stat("unseeded paths compared", len(cols))
                    for k, col in enumerate(cols):
                        if (st["oid"], col) in seen:
                            res.bad("repeat", f"{where}: unseeded path {k} repeats {seen[st['oid'], col]}")
                            return res.out()
                        seen[st["oid"], col] = f"path {k} of thread {ti} call {i} copy {j}"
    res.nontrivial = n > 1
    res.sigs = [s.sig, res.log, sorted(V.digest(c) for k in sorted(got) for c, _ in got[k])]
    return res.out()


def shrinks(plan):
    if plan["mode"] == "differ":
        for c in U.chunks_removed(plan["seeds"], 1):
            yield U.with_(plan, seeds=c)
        return
    ts = plan["tasks"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, t in enumerate(ts):
        for c in U.chunks_removed(t, 1):
            yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, t in enumerate(ts):
        for j, st in enumerate(t):
            for k in ("fork", "env"):
                if st.get(k):
                    n = dict(st, env="") if k == "env" else {a: b for a, b in st.items() if a != "fork"}
                    yield U.with_(plan, tasks=ts[:i] + [t[:j] + [n] + t[j + 1 :]] + ts[i + 1 :])
