"""C07: objects keep their own data; two objects never share state."""
import numpy as np
import pandas as pd

from .. import catalog as C
from .. import core, forks, hist, jobs
from .. import util as U
from .. import values as V

ID = "C07"
KINDS = ["BM", "GBM", "OU", "QR", "HC", "Bollinger", "EwmBollinger", "Donchian", "Keltner", "GenericB", "WF", "KF"]
MODELS = ("BM", "GBM", "OU")
HONEST = {"vandal": "mom", "keep": "sma", "keepr": "mom"}


def _slots(rng, ctor, slots):
    for key in ("a", "fit", "base"):
        for k, v in list((ctor.get(key) or {}).items()):
            if isinstance(v, dict) and v.get("k") in ("arr", "ohlc", "corr", "dist", "nda", "list"):
                same = [s for s, r in slots.items() if r == v]
                if same and rng.random() < 0.5:
                    s = same[0]
                else:
                    s = f"s{len(slots)}"
                    slots[s] = v
                ctor[key][k] = {"slot": s}


def gen(rng, tier, idx):
    kind = KINDS[idx % len(KINDS)]
    slots, objs = {}, {}
    n = rng.choice([1, 2, 2, 3])
    base = C.gen_obj(rng, kind)
    for i in range(n):
        k = kind if i == 0 or rng.random() < 0.75 else rng.choice(KINDS)
        r = rng.random()
        if r < 0.2 and k in MODELS + ("QR",):
            o = {"o": k, "ctor": {"d": 1, "a": {}}}
            if k == "QR":
                o["ctor"]["a"] = {"tech_ind_func": {"k": "fn", "v": "mom"}}
        elif r < 0.55 and k == kind:
            o = C.deep(base)
        else:
            o = C.gen_obj(rng, k)
        if k == "QR" and rng.random() < 0.45:
            o["ctor"]["a"]["tech_ind_func"] = {"k": "fn", "v": rng.choice(sorted(HONEST))}
        if k == "HC" and "X" in o["ctor"]["a"] and rng.random() < 0.5:
            o["ctor"]["a"]["codependence_method"] = rng.choice(["var_info", "var_info", "pearson-correlation", "spearman-correlation"])
        _slots(rng, o["ctor"], slots)
        objs[f"o{i}"] = o
    steps = []
    d = {k: o["ctor"].get("d", 1) for k, o in objs.items()}
    if rng.random() < 0.35:                     # the data change before the object is used at all
        steps += [{"t": "edit", "slot": s, "how": rng.choice(["scribble", "zero", "bump", "rename"])} for s in sorted(slots) if rng.random() < 0.7]
    for _ in range(rng.randint(4, 12)):
        oid = rng.choice(sorted(objs))
        o = objs[oid]
        k = o["o"]
        r = rng.random()
        if r < 0.45:
            c = dict(o["ctor"], d=d[oid])
            op = C.gen_obj_op(rng, k, c)
            steps.append({"t": "ask", "oid": oid, "m": op["m"], "a": op["a"]})
        elif r < 0.62 and slots:
            s = rng.choice(sorted(slots))
            steps.append({"t": "edit", "slot": s, "how": rng.choice(["scribble", "zero", "bump", "rename"])})
        elif r < 0.74:
            steps.append({"t": "results"})
        elif r < 0.88 and k in MODELS:
            x = C.fit_data(rng, k)
            s = f"s{len(slots)}"
            slots[s] = x
            steps.append({"t": "fit", "oid": oid, "a": {"x": {"slot": s}}})
            d[oid] = x.get("m", 1) or 1
        elif len(objs) > 1:
            steps.append({"t": "attr", "oid": oid, "how": rng.choice(["arrays", "base", "basefit"])})
        else:
            steps.append({"t": "results"})
    for oid in sorted(objs):
        c = dict(objs[oid]["ctor"], d=d[oid])
        for _ in range(2):
            op = C.gen_obj_op(rng, objs[oid]["o"], c)
            steps.append({"t": "ask", "oid": oid, "m": op["m"], "a": op["a"]})
    return {"seed": rng.getrandbits(48), "slots": slots, "objs": objs, "steps": steps}


def _honest(ctor):
    c = C.deep(ctor)
    f = c.get("a", {}).get("tech_ind_func")
    if f and f["v"] in HONEST:
        f["v"] = HONEST[f["v"]]
    return c


class _Env:
    def __init__(self, slots):
        self.slots = slots

    def __getitem__(self, k):
        raise KeyError(k)


def _new(o, env):
    try:
        return C.O[o["o"]]["new"](o["ctor"], env)
    except Exception as e:  # noqa: BLE001
        return e


def _ask(o, kind, m, a):
    if isinstance(o, BaseException):
        return lambda: C._raise(o)
    return lambda: C.O[kind]["m"][m][1](o, a)


def _solo(o, slots, fits, st):
    """The same object alone: same construction and fits, nobody edits anything."""
    jobs.reset(workers=1)
    env = _Env({k: V.build(r) for k, r in slots.items()})
    x = _new({"o": o["o"], "ctor": _honest(o["ctor"])}, env)
    for f in fits:
        if not isinstance(x, BaseException):
            try:
                x.fit(**{k: V.build(v, env) for k, v in f.items()})
            except Exception:
                pass
    return U.outcome(_ask(x, o["o"], st["m"], {k: V.build(v, env) for k, v in st["a"].items()}))[1]


def _poke(x, how):
    """Edit an object's own attributes in place, as its owner may."""
    n = 0
    if how in ("base", "basefit") and hasattr(x, "base_model"):
        b = x.base_model
        if how == "basefit" and hasattr(b, "fit"):
            try:
                b.fit(np.cumsum(np.ones(9)) ** 2)
                return 1
            except Exception:
                return 0
        b.vol = np.asarray(b.vol) * 3
        return 1
    for k, v in sorted(vars(x).items()):
        if isinstance(v, np.ndarray):
            n += V.scribble(v)
        elif hasattr(v, "iloc"):
            n += V.scribble(v)
        elif isinstance(v, list):
            v.append("x")
            n += 1
    return n


def _rename(x):
    """Other labels, more columns or rows, in place."""
    if isinstance(x, np.ndarray):
        V.scribble(x)
    elif isinstance(x, pd.Series):
        x.name = "renamed"
        x.index = pd.RangeIndex(1000, 1000 + len(x), name="renamed")
    else:
        x.index.name = "renamed"
        x.columns = [f"renamed{i}" for i in range(x.shape[1])]
        x.index = pd.date_range("1990-01-01", periods=len(x), freq="W")
        x["more"] = 1.0


def run(plan):
    res = U.Res()
    want, fs = {}, {k: [] for k in plan["objs"]}
    for i, st in enumerate(plan["steps"]):       # oracle first, from a pristine process
        if st["t"] == "fit":
            fs[st["oid"]].append(st["a"])
        elif st["t"] == "ask":
            want[i] = forks.fork_call(_solo, plan["objs"][st["oid"]], plan["slots"], list(fs[st["oid"]]), st)
    jobs.reset(seed=plan["seed"], workers=2)
    core.monitor(0)
    env = _Env({k: V.build(r) for k, r in plan["slots"].items()})
    objs = {}
    # each object is built from its own freshly built arguments unless two objects share a slot
    for k, o in plan["objs"].items():
        objs[k] = _new(o, env)
    clean = {k: V.build(r) for k, r in plan["slots"].items()}
    tainted = set()
    results = []
    asked = 0
    for i, st in enumerate(plan["steps"]):
        t = st["t"]
        if t == "edit":
            x = env.slots[st["slot"]]
            if st["how"] == "scribble" or isinstance(x, list) or (st["how"] != "rename" and x.shape != clean[st["slot"]].shape):
                V.scribble(x)
                if isinstance(x, list):
                    x[:] = [v * 0 + 3.0 for v in x] + ([8.0] if st["how"] == "rename" else [])
            elif st["how"] == "rename":
                _rename(x)
            elif st["how"] == "zero":
                hist.edit_inplace(x, clean[st["slot"]] * 0)
            else:
                hist.edit_inplace(x, clean[st["slot"]] * 1.01)
            res.fault("argument edited in place after use")
        elif t == "results":
            if V.scribble(results) + V.scribble(V.KEPT):
                res.fault("earlier results overwritten")
        elif t == "fit":
            o = objs[st["oid"]]
            s = st["a"]["x"]["slot"]
            env.slots[s] = V.build(plan["slots"][s])     # handed over fresh
            if not isinstance(o, BaseException):
                try:
                    o.fit(**{k: V.build(v, env) for k, v in st["a"].items()})
                except Exception:
                    res.stat("rejected fits")
            res.fault("another fit")
        elif t == "attr":
            if not isinstance(objs[st["oid"]], BaseException) and _poke(objs[st["oid"]], st["how"]):
                tainted.add(st["oid"])
                res.fault("object edited by its owner")
        else:
            if st["oid"] in tainted:
                continue
            o = plan["objs"][st["oid"]]
            a = {k: V.build(v, env) for k, v in st["a"].items()}
            raw, got = U.outcome(_ask(objs[st["oid"]], o["o"], st["m"], a))
            res.kind(f"{o['o']}.{st['m']}")
            asked += 1
            d = V.diff(want[i], got)
            if d:
                res.bad("answer", f"step {i}: {o['o']}.{st['m']} {st['a']} of object {st['oid']}: undisturbed vs now {d}")
                break
            if raw is not None:
                results.append(raw)
            results.append([v for v in a.values() if isinstance(v, (np.ndarray, list))])
        res.event(i, t, st.get("oid"), V.digest(got) if t == "ask" else 0)
    res.stat("answers compared", asked)
    res.nontrivial = asked > 0 and bool(res.faults)
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
    for k in sorted(plan["objs"]):
        if all(s.get("oid") != k for s in plan["steps"]):
            yield U.with_(plan, objs={a: b for a, b in plan["objs"].items() if a != k})
    used = str(plan["objs"]) + str(plan["steps"])
    keep = {k: v for k, v in plan["slots"].items() if f"'{k}'" in used}
    if len(keep) < len(plan["slots"]):
        yield U.with_(plan, slots=keep)
