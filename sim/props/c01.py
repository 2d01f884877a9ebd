"""C01: concurrent callers get the answers they would get alone."""
import random

from .. import catalog as C
from .. import core, jobs
from .. import util as U
from .. import values as V

ID = "C01"


def gen(rng, tier, idx):
    mode = rng.choice(["focus", "focus", "mixed", "shared"])
    nt = rng.choice([2, 2, 3, 4])
    objs = {}
    ops = []
    pool = C.pool()
    if mode == "focus":
        names = [C.gen_op(rng, {pool[idx % len(pool)]})]
        if rng.random() < 0.3:
            names.append(C.gen_op(rng))
        for _ in range(nt * rng.randint(1, 3)):
            b = rng.choice(names)
            ops.append(C.vary(rng, b) if rng.random() < 0.75 else C.deep(b))
    elif mode == "mixed":
        for _ in range(nt * rng.randint(1, 3)):
            ops.append(C.gen_op(rng))
    else:
        kind = rng.choice(sorted(C.O))
        objs["a"] = C.gen_obj(rng, kind)
        for _ in range(nt * rng.randint(1, 3)):
            o = C.gen_obj_op(rng, kind, objs["a"]["ctor"])
            ops.append({"oid": "a", "m": o["m"], "a": o["a"]})
    tasks = [ops[i::nt] for i in range(nt)]
    return {
        "seed": rng.getrandbits(48), "mode": mode, "gap": rng.choice([2, 5, 15, 60]), "instr": rng.random() < 0.25,
        "share": rng.random() < (0.75 if mode == "focus" else 0.6), "tasks": [t for t in tasks if t], "objs": objs,
        "hub": {"workers": rng.choice([1, 2, 3]), "mode": "copy"},
    }


def run(plan):
    res = U.Res()
    expect = {}
    lines = 0
    for ti, t in enumerate(plan["tasks"]):
        for oi, op in enumerate(t):
            expect[ti, oi], cnt = U.alone_cached(op, plan["objs"])
            lines += cnt["line"]
            res.kind(C.name_of(op) if "oid" not in op else f"{plan['objs'][op['oid']]['o']}.{op['m']}")
    jobs.reset(seed=plan["seed"], **plan["hub"])
    core.monitor(core.E.INSTRUCTION if plan["instr"] else core.E.LINE)
    env = C.Env(share=plan["share"])
    for k, o in plan["objs"].items():
        C.add_obj(env, k, o)
    prep = {}
    owned, whose = [], []
    for ti, t in enumerate(plan["tasks"]):
        for oi, op in enumerate(t):
            th, own = C.prepare(op, env)
            prep[ti, oi] = th
            for x in own:
                if all(x is not y for y in owned):
                    owned.append(x)
                    whose.append(U.brief(op))
    fp = V.fingerprint(owned)
    got, raws = {}, {}
    dirty = []

    def look(s, t, code, line):
        if not dirty and V.fingerprint(owned) != fp:
            dirty.append(f"seen by another thread while a call was at {code.co_name}:{line - code.co_firstlineno}")

    def task(ti):
        def body():
            for oi in range(len(plan["tasks"][ti])):
                raws[ti, oi], got[ti, oi] = U.outcome(prep[ti, oi])

        return body

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([task(i) for i in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), on_switch=look,
                   cap=3_000_000 + 200 * lines if plan["instr"] else 300_000 + 20 * lines)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    res.sigs = [s.sig, sorted(res.kinds)]
    res.nontrivial = s.nswitch > 0
    if plan["share"]:
        res.stat("runs with shared inputs")
    if not ok:
        res.bad("no-progress", f"calls that complete alone do not complete under this schedule: {s.deadlock}")
        return res.out()
    for key in sorted(expect):
        op = plan["tasks"][key[0]][key[1]]
        res.event(key, V.digest(got[key]))
        d = V.diff(expect[key], got[key])
        if d:
            res.bad("answer", f"thread {key[0]} call {key[1]} {U.brief(op)}: alone vs concurrent {d}")
            return res.out()
        if U.is_exc(got[key]):
            res.stat("calls that raise alike")
    for key in sorted(raws):
        if raws[key] is not None:
            d = V.diff(got[key], V.canon(raws[key]))
            if d:
                res.bad("result-reused", f"the result handed to thread {key[0]} by call {key[1]} {U.brief(plan['tasks'][key[0]][key[1]])} was changed afterwards by other calls: {d}")
                return res.out()
    if dirty:
        res.bad("input", f"a caller's input was altered temporarily, {dirty[0]}")
    elif V.fingerprint(owned) != fp:
        now = V.fingerprint(owned)
        bad = [i for i in range(len(owned)) if now[i] != fp[i]]
        res.bad("input", f"a caller's input was altered by a call: {whose[bad[0]]}")
    return res.out()


def shrinks(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :], dec=None)
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, t in enumerate(ts):
        for c in U.chunks_removed(t, 1):
            yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, t in enumerate(ts):
        for j, op in enumerate(t):
            for o in U.op_shrinks(op):
                yield U.with_(plan, tasks=ts[:i] + [t[:j] + [o] + t[j + 1 :]] + ts[i + 1 :])
