"""Histories: sequences of calls by one application, with faults and in-place edits."""
import gc

import numpy as np
import pandas as pd

from . import catalog as C
from . import core
from . import util as U
from . import values as V

EXC = ["MemoryError", "KeyboardInterrupt", "MemoryError", "KeyboardInterrupt", "FloatingPointError"]
_LIFT = ("arr", "ohlc", "corr", "cov", "eigs", "dist")


def lift(rng, op, slots, p=0.6):
    """Move some of the op's arrays into named caller-held slots."""
    for k, v in list(op["a"].items()):
        if isinstance(v, dict) and v.get("k") in _LIFT and rng.random() < p:
            s = f"s{len(slots)}"
            slots[s] = v
            op["a"][k] = {"slot": s}
    return op


def edited(rng, r):
    """A recipe of the same shape, type and container with other content."""
    r = dict(r)
    if rng.random() < 0.4 or r["k"] in ("cov", "eigs"):
        r["seed"] = r.get("seed", 1) + rng.choice([1, 7])
        if r.get("idx") and r["k"] == "arr":
            r.setdefault("idxseed", r["seed"])
        r.pop("perturb", None)
    else:
        r["perturb"] = [rng.choice(["swap", "bump", "last", "first", "rev", "scale", "shift", "shuf", "mid", "eps"]), rng.randint(0, 30), rng.randint(0, 30)]
    return r


def fault(rng):
    kind = rng.choice(["call", "call", "line"])
    return {"kind": kind, "u": round(rng.random(), 4), "exc": rng.choice(EXC + (["LinAlgError"] if kind == "call" else []))}


def gen(rng, idx, fp=0.3, objp=0.35):
    pool = C.pool()
    mode = rng.choice(["focus", "focus", "focus", "mixed", "long", "large", "storm", "storm"])
    slots, objs, bases = {}, {}, []
    first = pool[idx % len(pool)]
    names = [first]
    if mode in ("mixed", "storm"):
        names += [rng.choice(pool) for _ in range(3)]
    elif rng.random() < 0.3:
        names.append(rng.choice(pool))
    for i, n in enumerate(names):
        if n in C.O and rng.random() < objp * 2:
            oid = f"o{i}"
            objs[oid] = C.gen_obj(rng, n)
            for _ in range(2):
                o = C.gen_obj_op(rng, n, objs[oid]["ctor"])
                if mode == "storm" and rng.random() < 0.6:
                    C.enlarge(rng, o, [50, 30])
                bases.append(lift(rng, {"oid": oid, "o": n, "m": o["m"], "a": o["a"]}, slots))
        else:
            op = C.gen_op(rng, {n})
            if mode == "large" or mode == "storm" and rng.random() < 0.5:
                C.enlarge(rng, op, [50, 120, 30])
            bases.append(lift(rng, op, slots))
            if rng.random() < 0.4 and mode != "large":
                bases.append(lift(rng, C.gen_op(rng, {n}), slots, 0.3))
    init = dict(slots)
    cur = dict(slots)
    steps = []
    hop = rng.random() < 0.4
    if mode == "storm":     # very many calls of a few kinds, most results kept until the end
        some = [C.deep(b) for b in bases] + [C.vary(rng, b) for b in bases if "oid" not in b for _ in range(rng.randint(0, 3))]
        for _ in range(rng.choice([20, 40, 80, 150, 300])):
            steps.append({"t": "call", "op": C.deep(rng.choice(some))})
        for st in steps:
            if rng.random() < fp * 0.2:
                st["fault"] = fault(rng)
            if rng.random() < 0.1:
                st["scribble"] = True
    nst = rng.randint(20, 60) if mode == "long" else rng.randint(4, 12)
    for _ in range(0 if mode == "storm" else nst):
        r = rng.random()
        if cur and r < 0.22:
            s = rng.choice(sorted(cur))
            cur[s] = edited(rng, cur[s])
            steps.append({"t": rng.choice(["edit", "edit", "renew"]), "slot": s, "r": cur[s]})
            continue
        b = rng.choice(bases)
        op = C.vary(rng, b) if rng.random() < 0.45 and "oid" not in b else C.deep(b)
        if "oid" in b and rng.random() < 0.4:
            op["a"] = C.O[b["o"]]["m"][b["m"]][0](rng, objs[b["oid"]]["ctor"])
        st = {"t": "call", "op": op}
        if rng.random() < fp:
            st["fault"] = fault(rng)
        if rng.random() < 0.3:
            st["scribble"] = True
        steps.append(st)
    if mode == "focus" and first in C.O and rng.random() < 0.6:
        # short lives: several objects whose first call does not complete and is tried again
        for i in range(rng.randint(2, 6)):
            oid = f"l{i}"
            objs[oid] = C.gen_obj(rng, first)
            o = C.gen_obj_op(rng, first, objs[oid]["ctor"])
            op = lift(rng, {"oid": oid, "o": first, "m": o["m"], "a": o["a"]}, slots, 0.0)
            part = [{"t": "call", "op": op, "fault": fault(rng)}, {"t": "call", "op": C.deep(op)}]
            if rng.random() < 0.5:
                o = C.gen_obj_op(rng, first, objs[oid]["ctor"])
                part.append({"t": "call", "op": {"oid": oid, "o": first, "m": o["m"], "a": o["a"]}})
            at = rng.randint(0, len(steps))
            steps[at:at] = part
    more = []
    for st in steps:
        more.append(st)
        if "fault" in st and mode != "storm" and rng.random() < 0.5:
            more.append({"t": "call", "op": C.deep(st["op"])})
    steps = more
    if hop:
        for st in steps:
            if st["t"] == "call" and rng.random() < 0.5:
                st["thr"] = rng.choice(["a", "b", "c", "new"])
    return {"seed": rng.getrandbits(48), "mode": mode, "slots": init, "objs": objs, "steps": steps, "hub": {"workers": rng.choice([1, 2, 3]), "mode": "copy"}}


def resolve(x, cur):
    if isinstance(x, dict):
        if "slot" in x and "k" not in x and len(x) == 1:
            return C.deep(cur[x["slot"]])
        return {k: resolve(v, cur) for k, v in x.items()}
    if isinstance(x, list):
        return [resolve(v, cur) for v in x]
    return x


def edit_inplace(o, new):
    """Give the caller's object `o` the content of `new` without creating a new object."""
    if isinstance(o, np.ndarray):
        o[...] = new
    elif isinstance(o, pd.Series):
        o.iloc[:] = new.to_numpy()
        if not o.index.equals(new.index):
            o.index = new.index
    elif isinstance(o, pd.DataFrame):
        for c in range(o.shape[1]):
            o.iloc[:, c] = new.iloc[:, c].to_numpy()
        if not o.index.equals(new.index):
            o.index = new.index
    return V.same(V.canon(o), V.canon(new), exact=True)


def expectations(plan, res):
    """Oracle answers (alone, fresh process) of every call of the history."""
    cur = dict(plan["slots"])
    out = []
    for st in plan["steps"]:
        if st["t"] in ("edit", "renew"):
            cur[st["slot"]] = st["r"]
            out.append(None)
        else:
            op = resolve(st["op"], cur)
            out.append(U.alone_cached(op, plan["objs"]) + (op,))
            res.kind(C.name_of(op) if "oid" not in op else f"{plan['objs'][op['oid']]['o']}.{op['m']}")
    return out


def fault_point(f, counts):
    n = counts.get(f["kind"], 0)
    return 1 + int(f["u"] * n) if n else None


class App:
    """The simulated application executing a history."""

    def __init__(self, plan):
        self.plan = plan
        self.env = C.Env()
        for k, r in plan["slots"].items():
            self.env.slots[k] = V.build(r)
        for k, o in plan["objs"].items():
            C.add_obj(self.env, k, o)

    def edit(self, st):
        s = st["slot"]
        new = V.build(st["r"])
        if st["t"] == "renew" or not edit_inplace(self.env.slots[s], new):
            self.env.slots[s] = None
            gc.collect(0)
            self.env.slots[s] = V.build(st["r"])

    def prepare(self, st):
        return C.prepare(st["op"], self.env)

    def injector(self, st, counts):
        f = st.get("fault")
        n = fault_point(f, counts) if f else None
        return core.Injector(f["kind"], n, f["exc"]) if n else core.Injector()


def shrinks(plan):
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
    used = str([s.get("op") for s in plan["steps"]]) + str([s.get("slot") for s in plan["steps"]])
    keep = {k: v for k, v in plan["slots"].items() if f"'{k}'" in used}
    if len(keep) < len(plan["slots"]):
        yield U.with_(plan, slots=keep)
    ko = {k: v for k, v in plan["objs"].items() if f"'{k}'" in used}
    if len(ko) < len(plan["objs"]):
        yield U.with_(plan, objs=ko)
    for i, st in enumerate(plan["steps"]):
        for k in ("fault", "scribble", "thr"):
            if k in st:
                yield U.with_(plan, steps=plan["steps"][:i] + [{a: b for a, b in st.items() if a != k}] + plan["steps"][i + 1 :])
