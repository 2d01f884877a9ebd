"""C08: iterations over a splitter are independent of each other."""
import random
import warnings

import numpy as np

from .. import catalog as C
from .. import core, forks, jobs
from .. import util as U
from .. import values as V

ID = "C08"


class Thrown(Exception):
    pass


def _gen_split(rng, kind):
    ctor = C.O[kind]["gen"](rng)
    return {"o": kind, "ctor": ctor}


def gen(rng, tier, idx):
    kind = ["WF", "KF"][idx % 2]
    if rng.random() < 0.6:
        kind = "WF"
    sps = [_gen_split(rng, kind)]
    r = rng.random()
    if r < 0.25:
        sps.append(C.deep(sps[0]))
    elif r < 0.45:
        sps.append(_gen_split(rng, rng.choice(["WF", "KF", kind])))
    nds = rng.choice([1, 1, 2, 3])
    data = {}
    for s in range(len(sps)):
        data[str(s)] = [C._g_split(rng, sps[s]["ctor"]) for _ in range(nds)]
    if len(sps) == 2 and sps[0] == sps[1]:
        data["1"] = C.deep(data["0"]) if rng.random() < 0.5 else data["1"]
    mode = rng.choice(["coop", "coop", "coop", "threads"])
    plan = {"seed": rng.getrandbits(48), "mode": mode, "sps": sps, "data": data}
    if mode == "threads":
        plan["gap"] = rng.choice([2, 5, 15, 60])
        plan["instr"] = rng.random() < 0.25
        plan["tasks"] = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            t = []
            for _ in range(rng.randint(1, 3)):
                s = rng.randrange(len(sps))
                t.append([s, rng.randrange(nds), rng.choice(["list", "list", "part", "count"]), rng.randint(1, 3)])
            plan["tasks"].append(t)
        return plan
    steps = []
    its = 0
    nst = rng.randint(6, 30) if rng.random() < 0.8 else rng.randint(40, 120)
    for _ in range(nst):
        r = rng.random()
        if its == 0 or r < 0.16:
            s = rng.randrange(len(sps))
            steps.append(["new", s, rng.randrange(nds)])
            its += 1
            continue
        i = rng.choice([its - 1, rng.randrange(its), rng.randrange(its)])
        if r < 0.6:
            steps.append(["next", i])
        elif r < 0.7:
            steps.append(["exhaust", i])
        elif r < 0.74:
            steps.append(["close", i])
        elif r < 0.77:
            steps.append(["throw", i])
        elif r < 0.80:
            steps.append(["drop", i])
        elif r < 0.85:
            steps.append(["fault", i, rng.choice(["line", "call"]), rng.randint(1, 45), rng.choice(["MemoryError", "KeyboardInterrupt"])])
        elif r < 0.93:
            steps.append(["scribble"])
        else:
            steps.append(["count", rng.randrange(len(sps))])
    for i in range(its):
        if rng.random() < 0.6:
            steps.append(["exhaust", i])
            steps.append(["count", rng.randrange(len(sps))])
    for s in range(len(sps)):
        steps.append(["count", s])
    plan["steps"] = steps
    return plan


def _new(o):
    return C.O[o["o"]]["new"](o["ctor"], None)


def _oracle(o, a):
    """The complete sequence of one undisturbed iteration: ([canonical yields], end)."""
    out = []
    try:
        for tr, te in _new(o).split(**C.build_args({"a": a})):
            out.append(V.canon((tr, te)))
        return out, "stop"
    except Exception as e:  # noqa: BLE001
        return out, type(e).__name__


def _fold_count(o):
    c = o["ctor"]["a"]
    return c["n_folds"] - 1 if c.get("look_forward") else c["n_folds"]


def _count(sp):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sp.get_n_splits()


def run(plan):
    res = U.Res()
    want = {}
    for s, ds in plan["data"].items():
        for j, a in enumerate(ds):
            want[int(s), j] = forks.fork_call(_oracle, plan["sps"][int(s)], a)
    jobs.reset(seed=plan["seed"], workers=1)
    warnings.simplefilter("ignore")
    for o in plan["sps"]:
        res.kind(o["o"])
    if plan["mode"] == "threads":
        return _threads(plan, res, want)
    core.monitor(core.E.LINE | core.E.CALL)
    sps = [_new(o) for o in plan["sps"]]
    args = {k: C.build_args({"a": plan["data"][str(k[0])][k[1]]}) for k in want}
    its = []
    done = {s: {0} for s in range(len(sps))}       # acceptable reported counts
    live = 0
    for n, st in enumerate(plan["steps"]):
        t = st[0]
        if t == "new":
            k = (st[1], st[2])
            try:
                g = iter(sps[st[1]].split(**args[k]))
                its.append({"g": g, "k": k, "pos": 0, "end": None, "raw": []})
            except Exception as e:  # noqa: BLE001 - an eager splitter may reject at once
                its.append({"g": None, "k": k, "pos": 0, "end": "dead", "raw": []})
                if want[k] != ([], type(e).__name__):
                    res.bad("sequence", f"step {n}: starting an iteration raised {type(e).__name__}, alone it gives {len(want[k][0])} splits then {want[k][1]}")
                    break
            live = sum(i["end"] is None and i["pos"] > 0 for i in its)
            if live > 1:
                res.stat("steps with several live iterations")
        elif t in ("next", "exhaust", "close", "throw", "drop", "fault"):
            if st[1] >= len(its):
                continue
            it = its[st[1]]
            if it["end"] is not None:
                continue
            k = it["k"]
            yields, end = want[k]
            s = k[0]
            if t == "close":
                it["g"].close()
                it["end"] = "closed"
                res.fault("iteration closed")
            elif t == "drop":
                it["g"] = None
                it["end"] = "dropped"
                res.fault("iteration abandoned")
            elif t == "throw":
                it["end"] = "thrown"
                res.fault("exception thrown into iteration")
                if it["pos"] == 0:
                    it["g"].close()
                else:
                    try:
                        it["g"].throw(Thrown("simulated"))
                    except (Thrown, StopIteration):
                        pass
                    except BaseException as e:  # noqa: BLE001
                        res.bad("sequence", f"step {n}: an exception thrown into an iteration came out as {type(e).__name__}")
                        break
            else:
                while it["end"] is None:
                    inj = core.Injector(st[2], st[3], st[4]) if t == "fault" else core.Injector()
                    try:
                        with inj:
                            x = next(it["g"])
                    except StopIteration:
                        it["end"] = "stop"
                        if it["pos"] != len(yields) or end != "stop":
                            res.bad("sequence", f"step {n}: iteration {st[1]} of splitter {s} ended after {it['pos']} splits; alone it yields {len(yields)} then {end}")
                        done[s] = {it["pos"]}
                        break
                    except BaseException as e:  # noqa: BLE001
                        it["end"] = "failed"
                        if inj.fired:
                            res.fault("fault in split: " + inj.exc)
                            if it["pos"] == len(yields) and end == "stop":
                                done[s] = done[s] | {it["pos"]}
                        elif it["pos"] != len(yields) or type(e).__name__ != end:
                            res.bad("sequence", f"step {n}: iteration {st[1]} of splitter {s} raised {type(e).__name__} after {it['pos']} splits; alone it yields {len(yields)} then {end}")
                        break
                    if it["pos"] >= len(yields):
                        res.bad("sequence", f"step {n}: iteration {st[1]} of splitter {s} yields more than the {len(yields)} splits it yields alone")
                        break
                    d = V.diff(yields[it["pos"]], V.canon(tuple(x)))
                    if d:
                        res.bad("sequence", f"step {n}: split {it['pos']} of iteration {st[1]} of splitter {s} ({plan['sps'][s]}): alone vs now {d}")
                        break
                    it["raw"].append(x)
                    it["pos"] += 1
                    res.stat("splits compared")
                    if t != "exhaust":
                        break
        elif t == "scribble":
            if V.scribble([i["raw"] for i in its]):
                res.fault("index arrays overwritten by caller")
                for i in its:
                    i["raw"] = []
        elif t == "count":
            s = st[1]
            o = plan["sps"][s]
            got = _count(sps[s])
            if o["o"] == "KF":
                ok = {_fold_count(o)}
            else:
                ok = set(done[s])
                for i in its:      # every split handed out but the end not yet observed
                    if i["k"][0] == s and i["end"] != "stop" and i["pos"] == len(want[i["k"]][0]) and want[i["k"]][1] == "stop" and i["pos"]:
                        ok.add(i["pos"])
            res.stat("counts compared")
            if got not in ok:
                res.bad("count", f"step {n}: splitter {s} ({o}) reports {got} splits, expected {sorted(ok)}")
        res.event(n, t, st[1:], res.viol is None)
        if res.viol:
            break
    res.nontrivial = res.stats.get("splits compared", 0) > 1 and len(its) > 1
    return res.out()


def _threads(plan, res, want):
    core.monitor(core.E.INSTRUCTION if plan["instr"] else core.E.LINE)
    sps = [_new(o) for o in plan["sps"]]
    args = {k: C.build_args({"a": plan["data"][str(k[0])][k[1]]}) for k in want}
    complete = {s: {0} for s in range(len(sps))}
    last = {}
    out = []
    counts = []

    def task(ti):
        def body():
            for s, j, how, m in plan["tasks"][ti]:
                if how == "count":
                    counts.append((s, _count(sps[s])))
                    continue
                got, end = [], "stop"
                try:
                    for n, x in enumerate(sps[s].split(**args[s, j])):
                        got.append(V.canon(tuple(x)))
                        if how == "part" and n + 1 >= m:
                            end = "part"
                            break
                except Exception as e:  # noqa: BLE001
                    end = type(e).__name__
                out.append((ti, s, j, got, end))
                if end == "stop":
                    last[ti, s] = len(got)

        return body

    for t in plan["tasks"]:
        for s, j, how, m in t:
            if how == "list" and want[s, j][1] == "stop" or how == "part" and want[s, j][1] == "stop" and m >= len(want[s, j][0]):
                complete[s].add(len(want[s, j][0]))
    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    sch = core.Sched([task(i) for i in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=4_000_000)
    ok = sch.run()
    res.rec = {"dec": sch.rec} if rng is not None else None
    res.stat("scheduler_steps", sch.steps)
    res.stat("context_switches", sch.nswitch)
    res.inter = sch.sig
    res.sigs = [sch.sig]
    res.nontrivial = sch.nswitch > 0
    if not ok:
        res.bad("no-progress", f"iterations do not complete under this schedule: {sch.deadlock}")
        return res.out()
    for ti, s, j, got, end in out:
        y, e = want[s, j]
        res.event(ti, s, j, len(got), end)
        res.stat("splits compared", len(got))
        if end == "part":
            y = y[: len(got)]
            e = "part"
        d = None if len(y) == len(got) else f"{len(y)} != {len(got)} splits"
        for a, b in zip(y, got):
            d = d or V.diff(a, b)
        if d or e != end:
            res.bad("sequence", f"thread {ti}, splitter {s} ({plan['sps'][s]}), data {j}: alone ends {e}, here {end}; {d}")
            return res.out()
    for s, c in counts:
        o = plan["sps"][s]
        ok = {_fold_count(o)} if o["o"] == "KF" else complete[s]
        if c not in ok:
            res.bad("count", f"splitter {s} ({o}) reported {c} splits during the run, expected one of {sorted(ok)}")
    for s, sp in enumerate(sps):
        o = plan["sps"][s]
        # the most recently completed iteration is the last one of some thread
        ok = {_fold_count(o)} if o["o"] == "KF" else ({v for (t, q), v in last.items() if q == s} or {0})
        if o["o"] == "WF":
            for t in plan["tasks"]:
                for q, j, how, m in t:
                    if q == s and how == "part" and want[q, j][1] == "stop" and m == len(want[q, j][0]):
                        ok.add(m)
        c = _count(sp)
        res.stat("counts compared")
        if c not in ok:
            res.bad("count", f"splitter {s} ({o}) reports {c} splits after all iterations, expected one of {sorted(ok)}")
    return res.out()


def shrinks(plan):
    if plan["mode"] == "threads":
        ts = plan["tasks"]
        for i in range(len(ts)):
            if len(ts) > 1:
                yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
            for c in U.chunks_removed(ts[i], 1):
                yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
        if plan.get("dec"):
            for d in U.dict_removed(plan["dec"]):
                yield U.with_(plan, dec=d)
        return
    for c in U.chunks_removed(plan["steps"], 1):
        # removing a "new" would renumber iterations: keep the creations
        if sum(x[0] == "new" for x in c) == sum(x[0] == "new" for x in plan["steps"]):
            yield U.with_(plan, steps=c)
    news = [i for i, x in enumerate(plan["steps"]) if x[0] == "new"]
    for q, i in enumerate(news):
        st = []
        for j, x in enumerate(plan["steps"]):
            if j == i or (x[0] in ("next", "exhaust", "close", "throw", "drop", "fault") and x[1] == q):
                continue
            if x[0] in ("next", "exhaust", "close", "throw", "drop", "fault") and x[1] > q:
                x = [x[0], x[1] - 1] + x[2:]
            st.append(x)
        if st:
            yield U.with_(plan, steps=st)
