"""C06: a failed or interrupted fit leaves the model exactly as it was."""
import warnings

from .. import catalog as C
from .. import core, forks, jobs
from .. import util as U
from .. import values as V

ID = "C06"
KINDS = ["BM", "GBM", "OU"]
EXC = ["MemoryError", "KeyboardInterrupt", "LinAlgError", "FloatingPointError", "RuntimeError"]


def gen(rng, tier, idx):
    kind = KINDS[idx % 3]
    prior = (idx // 3) % 2 == 0
    c = C.O[kind]["gen"](rng, prior)
    attempts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(["call", "call", "call", "line", "data", "data", "warn", "dt", "none"])
        f = {"x": C.fit_data(rng, kind, bad=1.0 if how == "data" else 0.0)}
        if how == "warn":
            f["x"]["gen"] = {"BM": "const", "GBM": "neg", "OU": "zigzag"}[kind]
        if how == "dt":
            f["dt"] = rng.choice([0, "bad", -1.0])
            if rng.random() < 0.4:
                f.pop("dt")
                f["x"].update(c="frame", idx="W")
        elif rng.random() < 0.5 or f["x"].get("idx") == "W":
            f["dt"] = rng.choice([1 / 252, 0.5, 1])
        attempts.append({"how": how, "a": f, "u": round(rng.random(), 4), "exc": rng.choice(EXC), "as": rng.choice(["arr", "arr", "arr", "scalar", "empty", "text"]) if how == "data" else "arr"})
    d = c["d"]
    asks = []
    for _ in range(rng.randint(2, 4)):
        m = rng.choice(["path_sample", "path_sample", "nll", "aic", "repr"])
        asks.append({"m": m, "a": C.O[kind]["m"][m][0](rng, c)})
    asks.append({"m": "path_sample", "a": {"num_steps": 3, "num_paths": 2, "random_state": 5}})
    asks.append({"m": "path_sample", "a": {"num_steps": 3, "random_state": 5, "x0": "last", "label_start": "2020-01-01", "label_freq": "D"}})
    asks.append({"m": "path_sample", "a": {"num_steps": 2, "random_state": 6, "columns": [f"c{i}" for i in range(d)]}})
    return {"seed": rng.getrandbits(48), "kind": kind, "ctor": c, "attempts": attempts, "asks": asks}


def _data(at):
    a = {k: V.build(v) for k, v in at["a"].items()}
    if at["as"] == "scalar":
        a["x"] = 3.0
    elif at["as"] == "empty":
        a["x"] = a["x"][:0]
    elif at["as"] == "text":
        a["x"] = "prices"
    return a


def _answers(m, kind, asks):
    ms = C.O[kind]["m"]
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for q in asks:
            out.append(U.outcome(lambda: ms[q["m"]][1](m, {k: V.build(v) for k, v in q["a"].items()}))[1])
    return out


def _dry(m, kind, at, asks):
    """How the attempt goes without a fault, and what the model answers then."""
    inj = _Marks()
    with warnings.catch_warnings():
        warnings.simplefilter("error" if at["how"] == "warn" else "ignore")
        with inj:
            _, c = U.outcome(lambda: (m.fit(**_data(at)), None)[1])
    return c, dict(inj.counts), inj.last, _answers(m, kind, asks)


class _Marks(core.Injector):
    """Also remembers the line count at the last numerical call: interruptions are placed up to there."""

    last = 0

    def event(self, kind, code, line):
        super().event(kind, code, line)
        if kind == "call":
            self.last = self.counts["line"]


def run(plan):
    res = U.Res()
    kind = plan["kind"]
    jobs.reset(seed=plan["seed"], workers=2)
    core.monitor(core.E.LINE | core.E.CALL)
    try:
        m = C.O[kind]["new"](plan["ctor"], C.Env())
    except Exception:
        res.stat("prior fit rejected")
        m = C.O[kind]["new"](dict(plan["ctor"], fit=None), C.Env())
    before = forks.fork_call(_answers, m, kind, plan["asks"])
    failed = 0
    for i, at in enumerate(plan["attempts"]):
        res.kind(f"{kind}.fit/{at['how']}")
        clean, counts, last, after_clean = forks.fork_call(_dry, m, kind, at, plan["asks"])
        inj = core.Injector()
        if at["how"] == "call" and counts["call"]:
            inj = core.Injector("call", 1 + int(at["u"] * counts["call"]), at["exc"])
        elif at["how"] == "line" and last:
            inj = core.Injector("line", 1 + int(at["u"] * last), at["exc"])
        with warnings.catch_warnings():
            warnings.simplefilter("error" if at["how"] == "warn" else "ignore")
            with inj:
                _, got = U.outcome(lambda: (m.fit(**_data(at)), None)[1])
        res.event(i, inj.fired, got)
        now = forks.fork_call(_answers, m, kind, plan["asks"])
        what = f"attempt {i}: {kind}.fit {at['a']} ({inj.fired or at['how']})"
        if U.is_exc(got):
            failed += 1
            res.fault(inj.fired.split("@")[0] if inj.fired else {"warn": "warning turned into an error", "dt": "unusable time step"}.get(at["how"], "unusable data"))
            for q, b, n in zip(plan["asks"], before, now):
                d = V.diff(b, n)
                if d:
                    res.bad("changed", f"{what} raised {got[1]}, yet {q['m']} {q['a']}: before vs after {d}")
                    return res.out()
        else:
            if inj.fired:
                for q, b, n in zip(plan["asks"], after_clean, now):
                    d = V.diff(b, n)
                    if d:
                        res.bad("swallowed", f"{what} returned normally although {inj.fired} happened; {q['m']} {q['a']}: after a clean fit vs now {d}")
                        return res.out()
            res.stat("fits that succeeded")
            before = now
    res.stat("failed fits", failed)
    res.nontrivial = failed > 0
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["attempts"], 1):
        yield U.with_(plan, attempts=c)
    for c in U.chunks_removed(plan["asks"], 1):
        yield U.with_(plan, asks=c)
    if plan["ctor"].get("fit"):
        yield U.with_(plan, ctor={k: v for k, v in plan["ctor"].items() if k != "fit"})
