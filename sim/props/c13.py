"""C13: saved objects come back in another process and answer identically."""
import copy
import pickle
import random
import zlib

import numpy as np
import pandas as pd

from .. import boot, core, forks, jobs, peer
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C13"
V.exact()
MODELS = ("BM", "GBM", "OU")
PEERS = []


def kinds():
    return sorted(C.O)


def setup():
    PEERS.append(peer.Peer(env={"TZ": "Asia/Tokyo"}, hashseed="4242"))


# ------------------------------------------------------------------ plans
def _probes(rng, kind, ctor, n=None):
    ms = C.O[kind]["m"]
    out = []
    for _ in range(n or rng.randint(2, 4)):
        m = rng.choice(sorted(ms))
        out.append({"m": m, "a": ms[m][0](rng, ctor)})
    if kind in MODELS:
        out.append({"m": "path_sample", "a": dict(C.g_sample(rng, ctor), **({"x0": rng.choice(["first", "last"])} if ctor.get("fit") else {}))})
        out[-1]["a"].pop("dt", None)
    if kind in ("WF", "KF"):
        out.append({"m": "#n_splits", "a": {}})
        if rng.random() < 0.7:
            out.insert(0, {"m": "#n_splits", "a": {}})
    return out


def _fit_step(rng, kind):
    x = C.fit_data(rng, kind, bad=0.15)
    a = {"x": x}
    if rng.random() < 0.4 or x.get("idx") == "W":
        a["dt"] = rng.choice([1 / 252, 0.5, 1])
    return {"t": "fit", "a": a}


HOW = ["pickle", "pickle", "pickle", "copy", "deepcopy"]


def gen(rng, tier, idx):
    ks = kinds()
    kind = ks[idx % len(ks)]
    plan = {"seed": rng.getrandbits(48)}
    if (idx // len(ks)) % 4 == 3:
        return _gen_job(rng, plan, kind)
    ctor = C.O[kind]["gen"](rng, None)
    while kind == "QR" and ctor["a"]["tech_ind_func"]["v"] in ("boom",) and rng.random() < 0.8:
        ctor = C.O[kind]["gen"](rng, None)
    life = []
    cur = C.deep(ctor)
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if kind in MODELS and r < 0.45:
            s = _fit_step(rng, kind)
            life.append(s)
            cur = dict(cur, fit=s["a"], d=s["a"]["x"].get("m", 1) or 1)
        elif kind in ("WF", "KF") and r < 0.3:
            m = C.O[kind]["m"]["split"][0](rng, ctor)
            life.append({"t": "part", "a": m, "k": rng.randint(0, 3)})
        else:
            p = rng.choice(_probes(rng, kind, cur, 1))
            life.append({"t": "call", **p})
        if rng.random() < 0.5:
            life.append(_save(rng, kind, cur))
    life.append(_save(rng, kind, cur))
    return dict(plan, mode="life", o=kind, ctor=ctor, life=life)


def _save(rng, kind, cur):
    s = {"t": "save", "how": rng.choice(HOW), "proto": rng.randint(0, 5), "probes": _probes(rng, kind, cur)}
    if kind in MODELS:
        s["refit"] = _fit_step(rng, kind)["a"]
    if rng.random() < 0.25:
        s["peer"] = True
    return s


def _gen_job(rng, plan, kind):
    """A long computation over a few objects with checkpoints, crashes and restarts."""
    objs = {}
    for i, k in enumerate([kind] + rng.sample(kinds(), rng.randint(0, 2))):
        c = C.O[k]["gen"](rng, None)
        objs[f"o{i}"] = {"o": k, "ctor": c}
    cur = {o: C.deep(v["ctor"]) for o, v in objs.items()}
    tasks = []
    for _ in range(rng.randint(3, 10)):
        o = rng.choice(sorted(objs))
        k = objs[o]["o"]
        if k in MODELS and rng.random() < 0.35:
            s = _fit_step(rng, k)
            tasks.append({"o": o, **s})
            cur[o] = dict(cur[o], fit=s["a"], d=s["a"]["x"].get("m", 1) or 1)
        else:
            tasks.append({"o": o, "t": "call", **rng.choice(_probes(rng, k, cur[o], 1))})
    plan.update(mode="job", objs=objs, tasks=tasks, every=rng.choice([1, 1, 2, 3]), proto=rng.choice([2, 4, 5]), fsync=rng.random() < 0.7, slots=rng.choice([1, 2, 3]),
                crashes=[{"at": rng.randint(1, 14), "keep": rng.choice([1, round(rng.random(), 3)]), "torn": rng.choice([1, 1, 0, round(rng.random(), 3)]), "line": rng.random() < 0.3, "u": round(rng.random(), 3), "peer": rng.random() < 0.2} for _ in range(rng.randint(1, 4))])
    return plan


# ------------------------------------------------------------------ answers
def _ask(o, kind, p):
    if p["m"] == "#n_splits":
        return U.outcome(lambda: o.get_n_splits())[1]
    a = {k: V.build(v) for k, v in p["a"].items()}
    m = C.O[kind]["m"][p["m"]][1]
    return U.outcome(lambda: m(o, a))[1]


def _answers(o, kind, probes, refit=None):
    jobs.reset(workers=1)
    out = [_ask(o, kind, p) for p in probes]
    if refit:
        out.append(_refit(o, refit))
        out += [_ask(o, kind, p) for p in probes]
    return out


def _refit(o, a):
    r = U.outcome(lambda: o.fit(**{k: V.build(v) for k, v in a.items()}))[1]
    return r if U.is_exc(r) else ("v", "fitted")


def _restore(blob, kind, probes, refit):
    """In another process."""
    try:
        o = pickle.loads(blob)
    except BaseException as e:  # noqa: BLE001
        return ("cannot be restored", f"{type(e).__name__}: {e}")
    return ("ok", _answers(o, kind, probes, refit))


def _poke(o, seen=None, depth=0):
    """Overwrite every array an object holds, as a careless owner would."""
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 4:
        return 0
    seen.add(id(o))
    if isinstance(o, (np.ndarray, pd.Series, pd.DataFrame)):
        return V.scribble(o)
    if isinstance(o, dict):
        return sum(_poke(v, seen, depth + 1) for v in o.values())
    if isinstance(o, (list, tuple)):
        return sum(_poke(v, seen, depth + 1) for v in o)
    if type(o).__module__.startswith(boot.PKG) and hasattr(o, "__dict__"):
        return sum(_poke(v, seen, depth + 1) for v in list(vars(o).values()))
    return 0


def _damaged(victim, kind, s, which):
    """Answers of the original (copy) after its copy (original) was changed; in a throw-away process."""
    orig, cp = victim
    a, b = (cp, orig) if which == "copy" else (orig, cp)
    n = 0
    if s.get("refit"):
        _refit(a, s["refit"])
        n += 1
    if s["how"] != "copy":
        n += _poke(a)
    if kind in ("WF", "KF"):
        try:
            it = a.split(np.zeros((37, 2)))
            list(it)
            n += 1
        except Exception:  # noqa: BLE001
            pass
    return n, _answers(b, kind, s["probes"], s.get("refit"))


def _life(plan):
    """The original's life; returns (violation or None, saved blobs with the original's answers, statistics)."""
    kind = plan["o"]
    saves, st = [], {}
    try:
        o = C.O[kind]["new"](plan["ctor"], C.Env())
    except Exception:  # noqa: BLE001 - an object that cannot be built has no life
        return None, [], st
    running = []
    for i, s in enumerate(plan["life"]):
        if s["t"] == "fit":
            _refit(o, s["a"])
        elif s["t"] == "call":
            _ask(o, kind, s)
        elif s["t"] == "part":
            try:
                it = iter(o.split(**{k: V.build(v) for k, v in s["a"].items()}))
                running.append(it)
                for _ in range(s["k"]):
                    next(it)
            except Exception:  # noqa: BLE001
                pass
        else:
            what = f"{kind} saved at step {i} with {s['how']}" + (f" protocol {s['proto']}" if s["how"] == "pickle" else "")
            ref = forks.fork_call(_answers, o, kind, s["probes"], s.get("refit"))
            try:
                blob = pickle.dumps(o, s["proto"])
            except Exception as e:  # noqa: BLE001
                return ("cannot-save", f"{what}: {type(e).__name__}: {e}"), saves, st
            saves.append((i, blob, ref))
            try:
                cp = copy.copy(o) if s["how"] == "copy" else copy.deepcopy(o) if s["how"] == "deepcopy" else pickle.loads(blob)
            except Exception as e:  # noqa: BLE001
                return ("cannot-save", f"{what}: {type(e).__name__}: {e}"), saves, st
            got = forks.fork_call(_answers, cp, kind, s["probes"], s.get("refit"))
            d = _diff(ref, got)
            st["copies compared"] = st.get("copies compared", 0) + 1
            if d:
                return ("copy-differs", f"{what}: original vs copy {d}"), saves, st
            for which in ("copy", "original"):
                n, got = forks.fork_call(_damaged, (o, cp), kind, s, which)
                if not n:
                    continue
                st["independence checks"] = st.get("independence checks", 0) + 1
                d = _diff(ref, got)
                if d:
                    return ("shared-state", f"{what}: changing the {which} changed the other: {d}"), saves, st
    return None, saves, st


def _diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} answers vs {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        d = V.diff(x, y)
        if d:
            return f"answer {k}: {d}"
    return None


# ------------------------------------------------------------------ crash and resume
class Disk:
    """Files with ordered pending writes; a crash keeps a prefix of them, the last one torn."""

    def __init__(self, durable=None):
        self.durable = dict(durable or {})
        self.pend = []

    def write(self, name, data):
        self.pend.append(("w", name, data))

    def rename(self, a, b):
        self.pend.append(("r", a, b))

    def sync(self):
        for op in self.pend:
            self._apply(self.durable, op)
        self.pend = []

    @staticmethod
    def _apply(d, op):
        if op[0] == "w":
            d[op[1]] = op[2]
        elif op[1] in d:
            d[op[2]] = d.pop(op[1])

    def crash(self, keep, torn=1.0):
        """`torn` < 1: the tail of data that was never synced is lost although a later rename survived."""
        self.pend = [(o[0], o[1], o[2][: int(torn * len(o[2]))]) if o[0] == "w" and torn < 1 else o for o in self.pend]
        k = keep * len(self.pend)
        for i, op in enumerate(self.pend):
            if i + 1 <= k:
                self._apply(self.durable, op)
            elif op[0] == "w" and k > i:
                self.durable[op[1]] = op[2][: int((k - i) * len(op[2]))]
                break
            else:
                break
        return self.durable


class Crash(BaseException):
    pass


def _segment(plan, durable, crash):
    """One process life: resume from the newest complete checkpoint, go on until done or crashed."""
    jobs.reset(workers=1)
    disk = Disk(durable)
    best = None
    torn = 0
    for n, b in disk.durable.items():
        if not n.startswith("ck"):
            continue
        if len(b) < 12 or int.from_bytes(b[:4], "big") != zlib.crc32(b[4:]):
            torn += 1
            continue
        k = int.from_bytes(b[4:12], "big")
        if best is None or k > best[0]:
            best = (k, b[12:])
    if best:
        try:
            k0, objs, results = pickle.loads(best[1])
        except BaseException as e:  # noqa: BLE001
            return {"bad": f"the checkpoint after task {best[0]} cannot be restored: {type(e).__name__}: {e}"}
    else:
        k0, results, objs = 0, [], {}
        for n, v in plan["objs"].items():
            try:
                objs[n] = C.O[v["o"]]["new"](v["ctor"], C.Env())
            except Exception:  # noqa: BLE001
                objs[n] = None
    events = [0]

    def ev():
        events[0] += 1
        if crash and not crash.get("line") and events[0] >= crash["at"]:
            raise Crash

    inj = core.Injector()
    if crash and crash.get("line"):
        core.monitor(core.E.LINE)
        inj = core.Injector("line", 1 + int(crash["u"] * 40 * crash["at"]), "Crash")
    out = {"torn": torn, "resumed": k0 if best else None}
    try:
        with inj:
            for k in range(k0, len(plan["tasks"])):
                t = plan["tasks"][k]
                o = objs[t["o"]]
                kind = plan["objs"][t["o"]]["o"]
                ev()
                if o is None:
                    results.append(("v", "no object"))
                elif t["t"] == "fit":
                    results.append(_refit(o, t["a"]))
                else:
                    results.append(_ask(o, kind, t))
                if inj.fired:
                    raise Crash
                if (k + 1) % plan["every"] == 0:
                    try:
                        body = (k + 1).to_bytes(8, "big") + pickle.dumps((k + 1, objs, results), plan["proto"])
                    except Crash:
                        raise
                    except Exception as e:  # noqa: BLE001
                        return {"bad": f"the state after task {k} cannot be saved: {type(e).__name__}: {e}"}
                    ev()
                    disk.write("tmp", zlib.crc32(body).to_bytes(4, "big") + body)
                    ev()
                    if plan["fsync"]:
                        disk.sync()
                        ev()
                    disk.rename("tmp", f"ck{(k + 1) // plan['every'] % plan['slots']}")
                    ev()
                    if plan["fsync"]:
                        disk.sync()
        out["done"] = results
    except Crash:
        out["crashed"] = True
    if inj.fired:
        out.pop("done", None)
        out["crashed"] = True
    out["disk"] = disk.crash(crash["keep"], crash.get("torn", 1.0)) if out.get("crashed") else disk.durable
    return out


def _job(plan, res):
    ref = forks.fork_call(_segment, dict(plan, every=1 << 30), {}, None)
    if ref.get("bad"):
        res.bad("cannot-save", ref["bad"])
        return
    durable = {}
    crashes = list(plan["crashes"])
    for life in range(len(crashes) + 2):
        c = crashes[life] if life < len(crashes) else None
        if c and c["peer"] and PEERS:
            r = PEERS[0].call("sim.props.c13", "_segment", plan, durable, c)
        else:
            r = forks.fork_call(_segment, plan, durable, c)
        res.stat("process lives")
        if r.get("bad"):
            res.bad("cannot-save" if "saved" in r["bad"] else "cannot-restore", r["bad"])
            return
        if r["torn"]:
            res.fault("torn or lost checkpoint", r["torn"])
        if r["resumed"]:
            res.stat("resumed from a checkpoint")
        res.event(life, r["resumed"], bool(r.get("crashed")), sorted((k, len(v)) for k, v in r["disk"].items()))
        if r.get("crashed"):
            res.fault("crash in library code" if c.get("line") else "crash")
        if "done" in r:
            d = _diff(ref["done"], r["done"])
            res.stat("jobs compared")
            res.nontrivial = life > 0
            if d:
                res.bad("resumed-differs", f"job with crashes {crashes[:life]}: uninterrupted vs resumed, task results: {d}; tasks {[(t['o'], t.get('m', 'fit')) for t in plan['tasks']]}")
            return
        durable = r["disk"]
    res.bad("no-progress", "the job did not complete after the crashes stopped")


def run(plan):
    res = U.Res()
    if plan["mode"] == "job":
        for v in plan["objs"].values():
            res.kind(v["o"])
        _job(plan, res)
        return res.out()
    kind = plan["o"]
    res.kind(kind)
    bad, saves, st = forks.fork_call(_life, plan)
    for k, n in st.items():
        res.stat(k, n)
    if bad:
        res.bad(*bad)
        return res.out()
    for i, blob, ref in saves:
        s = plan["life"][i]
        if s.get("peer") and PEERS:
            ok, got = PEERS[0].call("sim.props.c13", "_restore", blob, kind, s["probes"], s.get("refit"))
            res.stat("restored in another interpreter")
        else:
            ok, got = forks.fork_call(_restore, blob, kind, s["probes"], s.get("refit"))
            res.stat("restored in another process")
        res.event(i, s["how"], s["proto"], [V.digest(x) for x in ref])
        if ok != "ok":
            res.bad("cannot-restore", f"{kind} saved at step {i} (protocol {s['proto']}) {ok}: {got}")
            break
        d = _diff(ref, got)
        if d:
            res.bad("restored-differs", f"{kind} saved at step {i} (protocol {s['proto']}): original vs restored {d}")
            break
    res.nontrivial = bool(saves)
    return res.out()


def shrinks(plan):
    if plan["mode"] == "job":
        for c in U.chunks_removed(plan["tasks"], 1):
            yield U.with_(plan, tasks=c)
        for c in U.chunks_removed(plan["crashes"], 0):
            yield U.with_(plan, crashes=c)
        used = {t["o"] for t in plan["tasks"]}
        if set(plan["objs"]) - used:
            yield U.with_(plan, objs={k: v for k, v in plan["objs"].items() if k in used})
        return
    for c in U.chunks_removed(plan["life"], 1):
        yield U.with_(plan, life=c)
    for i, s in enumerate(plan["life"]):
        if s["t"] == "save":
            for c in U.chunks_removed(s["probes"], 1):
                yield U.with_(plan, life=plan["life"][:i] + [dict(s, probes=c)] + plan["life"][i + 1 :])
            for k in ("refit", "peer"):
                if k in s:
                    yield U.with_(plan, life=plan["life"][:i] + [{a: b for a, b in s.items() if a != k}] + plan["life"][i + 1 :])
