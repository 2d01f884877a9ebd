"""A research application whose data arrive over time: splits judged as they are handed out (C22, C23).

One simulated feed delivers observations (with holidays, gaps, several per time group); at seeded moments the
application starts an iteration of a splitter over what has arrived, keeps older iterations running next to newer
ones (in one thread or several), abandons some, and overwrites index arrays it no longer needs.  Every split is
judged at the moment it is handed out, complete iterations once more at their end.
"""
import random
import warnings
from collections import Counter

import numpy as np
import pandas as pd

from . import catalog as C
from . import core, jobs
from . import util as U
from . import values as V

KINDS = ["dense", "gaps", "dups", "biz", "holes", "bizdup", "hours", "months", "none", "bulk", "sessions"]


def labels(f):
    """The time groups of the feed's observations (what the application passes as `groups`), or None."""
    g = np.random.Generator(np.random.PCG64(f["seed"]))
    n, k = f["n"], f["kind"]
    if k == "none":
        return None
    if k == "dense":
        return np.arange(n) + f["start"]
    if k == "gaps":
        return f["start"] + np.cumsum(g.integers(1, f["step"] + 1, n))
    if k == "dups":
        return f["start"] + np.cumsum(g.integers(0, f["step"], n))
    if k in ("bulk", "sessions"):
        # a few time groups with very many observations among small ones
        size = g.choice([1, 1, 2, 3, f["step"] * 8, f["step"] * 20], n)
        at = np.repeat(np.cumsum(g.choice([1, 1, 1, 3], n)), size)[:n]
        if k == "bulk":
            return f["start"] + at
        return pd.DatetimeIndex(pd.Timestamp("2021-03-01") + pd.to_timedelta(at, unit="D"))
    t0 = pd.Timestamp("2020-01-01") + pd.Timedelta(int(f["start"]) % 400, unit="D")
    if k == "biz":
        x = pd.bdate_range(t0, periods=n)
    elif k == "holes":
        x = t0 + pd.to_timedelta(np.cumsum(g.choice([1, 1, 1, 1, 2, 4, 9], n)), unit="D")
    elif k == "bizdup":
        x = pd.bdate_range(t0, periods=n)[np.sort(g.integers(0, n, n))]
    elif k == "hours":
        x = t0 + pd.to_timedelta(np.cumsum(g.choice([1, 1, 1, 2, 3, 17], n)), unit="h")
    else:
        x = pd.date_range(t0, periods=n, freq="MS")
    return pd.DatetimeIndex(x)


def unit(f):
    return {"biz": "D", "holes": "D", "bizdup": "D", "hours": "h", "months": "D", "sessions": "D"}.get(f["kind"])


def as_groups(lab, n, box):
    if lab is None:
        return None
    lab = lab[:n]
    if box == "series":
        return pd.Series(lab)
    if box == "column":       # a column of a table whose rows carry labels of their own
        return pd.Series(lab, index=np.arange(n)[::-1] * 2 + 5)
    if box == "named":
        return pd.Series(lab, index=[f"row {i}" for i in range(n)])
    return lab


def gen(rng, idx):
    kind = KINDS[idx % len(KINDS)]
    n = rng.choice([rng.randint(10, 40), rng.randint(20, 80), rng.randint(100, 300)])
    if kind in ("bulk", "sessions"):
        n = rng.randint(60, 500)
    f = {"kind": kind, "n": n, "seed": rng.randint(1, 10**6), "start": rng.choice([0, 0, 5, 1000]), "step": rng.choice([2, 3, 5])}
    freq = unit(f)
    scale = 30 if kind == "months" else 1
    sps = []
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.55:
            a = {"n_embargo": rng.choice([0, 1, 2, 3]) * scale, "train_window": rng.choice([rng.randint(1, 8), rng.randint(4, 20)]) * scale,
                 "test_window": rng.choice([1, 2, 3, 4, rng.randint(1, 9)]) * scale, "split_type": rng.choice(["expanding", "rolling"])}
            o = {"o": "WF", "ctor": {"a": a}}
        else:
            a = {"n_folds": rng.choice([2, 3, 4, 5, rng.randint(2, 9)]), "n_embargo": rng.choice([0, 1, 2, 3, 5]), "n_purge": rng.choice([0, 1, 2, 3, 5]), "look_forward": rng.random() < 0.4}
            o = {"o": "KF", "ctor": {"a": a}}
        if freq:
            a["freq"] = freq
        sps.append(o)
    cuts = sorted(rng.randint(min(8, n), n) for _ in range(rng.choice([1, 2, 3]))) + [n]
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = []
        for _ in range(rng.randint(1, 4)):
            t.append({"sp": rng.randrange(len(sps)), "n": rng.choice(cuts), "box": rng.choice(["as", "as", "as", "series", "column", "named"]) if kind != "none" else "as",
                      "x": rng.choice(["np", "frame"]), "pace": rng.choice([1, 1, 2, 50]), "stop": rng.choice([None, None, None, 2, 3]),
                      "scribble": rng.random() < 0.3, "fault": [rng.randint(1, 60), rng.choice(["MemoryError", "KeyboardInterrupt"])] if rng.random() < 0.15 else None})
        tasks.append(t)
    return {"seed": rng.getrandbits(48), "feed": f, "sps": sps, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def spans(o, f):
    """(embargo, purge, training window, test window, one unit) in the numbers used for labels below."""
    a = o["ctor"]["a"]
    u = pd.Timedelta(1, unit=a["freq"]).value if a.get("freq") else 1
    return a["n_embargo"] * u, a.get("n_purge", 0) * u, a.get("train_window", 0) * u, a.get("test_window", 0) * u, u


def numbers(lab, n):
    """Labels as plain integers."""
    if lab is None:
        return list(range(n))
    if isinstance(lab, pd.DatetimeIndex):
        return [x.value for x in lab[:n]]
    return [int(x) for x in lab[:n]]


def admits(o, f, g):
    """Whether these observations surely allow a complete iteration (when in doubt: no)."""
    n = len(g)
    emb, pur, tw, sw, u = spans(o, f)
    gap = max((b - a for a, b in zip(g, g[1:])), default=0)
    size = max(Counter(g).values())
    if o["o"] == "WF":
        return gap + emb + u < tw - gap and g[-1] - g[0] > 2 * (tw + sw + 2 * gap)
    a = o["ctor"]["a"]
    k = a["n_folds"]
    return n // k > 3 * size and (emb + pur) // u < n // k and (n // k - size) // size * u > emb + pur + u


def judge_split(o, f, g, tr, te, k=0):
    """Leakage (C22) of split number k: message or None.  g: label of every observation."""
    n = len(g)
    emb, pur, tw, _, u = spans(o, f)
    for name, x in (("training", tr), ("test", te)):
        if len(set(x)) != len(x) or any(i < 0 or i >= n for i in x):
            return f"the {name} indices are not distinct observations of the data"
    both = set(tr) & set(te)
    if both:
        return f"{len(both)} observations are in the training and in the test set, the first is {min(both)}"
    if not te:
        return None
    lo, hi = min(g[i] for i in te), max(g[i] for i in te)
    ahead = o["o"] == "WF" or o["ctor"]["a"].get("look_forward")
    have = set(tr)
    for i in tr:
        if lo - emb <= g[i] < lo:
            return f"training observation {i} lies within the embargo span before the test set"
        if o["o"] == "KF" and hi < g[i] <= hi + pur:
            return f"training observation {i} lies within the purge span after the test set"
        if ahead and g[i] >= lo:
            return f"training observation {i} does not lie before the test set"
    if o["o"] == "KF":
        for i in range(n):
            if i not in have and i not in te and not (lo - emb <= g[i] < lo) and not (hi < g[i] <= hi + pur) and not (ahead and g[i] >= lo):
                return f"observation {i} is in neither set although it lies outside the purge and embargo spans"
    else:
        end = max((g[i] for i in range(n) if g[i] < lo), default=None)
        first = g[0] if o["ctor"]["a"]["split_type"] == "expanding" or end is None else max(g[0], end - tw + u)
        for i in range(n):
            if i in have and k and g[i] < first:
                return f"training observation {i} is older than the training window"
            if i not in have and first <= g[i] < lo - emb:
                return f"observation {i} of the training window is missing from the training set"
    return None


def judge_parts(o, g, tests, complete):
    """Partition (C23) of a sequence of test sets: message or None."""
    n = len(g)
    seen = {}
    for k, te in enumerate(tests):
        for i in te:
            if i in seen:
                return f"observation {i} is in the test sets {seen[i]} and {k}"
            seen[i] = k
    where = {}
    for i, k in seen.items():
        if where.setdefault(g[i], k) != k:
            return f"the observations of one time group are in the test sets {where[g[i]]} and {k}"
    full = [te for te in tests if te]
    for p, q in zip(full, full[1:]):
        if max(g[i] for i in p) >= min(g[i] for i in q):
            return "test sets are not in the order of time"
    if full:
        lo = min(min(te) for te in full)
        hi = max(max(te) for te in full)
        if not complete:
            rest = set(range(lo, hi + 1)) - set(seen)
        elif o["o"] == "KF" and not o["ctor"]["a"].get("look_forward"):
            rest = set(range(n)) - set(seen)
        else:
            rest = set(range(lo, n)) - set(seen)
        if rest:
            return f"{len(rest)} observations are in no test set, the first is {min(rest)}"
        # a group never straddles the start of the first or the end of the last test set
        for i in range(n):
            if i not in seen and g[i] in where:
                return f"observation {i} is outside of the test set that holds its time group"
    return None


def run(plan, which):
    res = U.Res()
    f = plan["feed"]
    lab = labels(f)
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    sps = [C.O[o["o"]]["new"](o["ctor"], None) for o in plan["sps"]]
    for o in plan["sps"]:
        res.kind(f"{o['o']}/{f['kind']}")
    history = {}
    yields = []

    def bad(cls, msg):
        if cls == which:
            res.bad({"C22": "leakage", "C23": "partition"}[cls], msg)

    def work(st):
        o, sp, n = plan["sps"][st["sp"]], sps[st["sp"]], st["n"]
        g = numbers(lab, n)
        X = np.arange(2.0 * n).reshape(n, 2)
        X = pd.DataFrame(X) if st["x"] == "frame" else X
        tests, seq = [], []
        end = None
        what = f"{o['o']} {o['ctor']['a']} on {n} observations of feed {f}"
        inj = core.Injector("line", *st["fault"]) if st["fault"] else core.Injector()
        with inj:
            try:
                it = sp.split(X, groups=as_groups(lab, n, st["box"]))
                for k, (tr, te) in enumerate(it):
                    a, b = [int(i) for i in tr], [int(i) for i in te]
                    d = judge_split(o, f, g, a, b, k)
                    if d:
                        bad("C22", f"split {k} of {what}: {d}")
                    tests.append(b)
                    seq.append((a, b))
                    res.stat("splits judged")
                    if st["scribble"]:
                        V.scribble([tr, te])
                    if k + 1 == st["stop"]:
                        end = "abandoned"
                        res.fault("iteration abandoned")
                        break
                    s, t = core.current_task()
                    if t is not None and k % st["pace"] == 0:
                        s.yield_now(t)
                    if k > 4 * n:
                        bad("C23", f"{what}: more splits than observations")
                        break
                else:
                    end = "complete"
                    res.stat("complete iterations")
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                end = "failed" if inj.fired else type(e).__name__
                if inj.fired:
                    res.fault("fault in split: " + inj.exc)
                else:
                    res.stat("iterations that reject the data")
                    if admits(o, f, g):
                        bad("C23", f"{what}, groups as {st['box']}: no complete set of splits, {e!r}")
        yields.append((len(seq), end))
        if end == "complete" and o["o"] == "KF":
            want = o["ctor"]["a"]["n_folds"] - bool(o["ctor"]["a"].get("look_forward"))
            if len(tests) != want:
                bad("C23", f"{what}: {len(tests)} splits instead of {want}")
        if admits(o, f, g):
            res.stat("iterations that have to complete")
        d = judge_parts(o, g, tests, end == "complete")
        if d:
            bad("C23", f"{what}: {d}")
        if o["o"] == "WF":
            history.setdefault(st["sp"], []).append((n, seq, what))

    def body(ti):
        def go():
            with warnings.catch_warnings():
                for st in plan["tasks"][ti]:
                    work(st)

        return go

    warnings.simplefilter("ignore")
    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([body(i) for i in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=6_000_000)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        bad(which, f"iterations do not complete under this schedule: {s.deadlock}")
        return res.out()
    # what was handed out before more data arrived is what is handed out afterwards
    for sp, runs in history.items():
        for n1, a, w1 in runs:
            for n2, b, w2 in runs:
                if n1 > n2:
                    continue
                g = numbers(lab, n1)
                for k, (x, y) in enumerate(zip(a, b)):
                    if not x[1] or max(g[i] for i in x[1]) >= g[-1]:
                        break
                    res.stat("splits compared with those of a longer history")
                    if sorted(x[0]) != sorted(y[0]) or sorted(x[1]) != sorted(y[1]):
                        bad("C22", f"split {k} of {w1}: differs from split {k} of the longer history of {n2} observations")
                        break
    res.event(sorted(map(repr, yields)))
    res.nontrivial = res.stats.get("splits judged", 0) > 1
    res.sigs = [s.sig, res.log, plan["feed"]["seed"]]
    return res.out()


def shrinks(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :], dec=None)
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, t in enumerate(ts):
        for c in U.chunks_removed(t, 1):
            yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    n = plan["feed"]["n"]
    for m in (12, n // 2, n * 3 // 4, n - 5, n - 1):
        if 8 <= m < n:
            yield U.with_(plan, feed=dict(plan["feed"], n=m), tasks=[[dict(st, n=min(st["n"], m)) for st in t] for t in ts])
    for i, t in enumerate(ts):
        for j, st in enumerate(t):
            for k, v in (("fault", None), ("scribble", False), ("stop", None), ("box", "as"), ("x", "np")):
                if st[k] != v:
                    yield U.with_(plan, tasks=ts[:i] + [t[:j] + [dict(st, **{k: v})] + t[j + 1 :]] + ts[i + 1 :])
