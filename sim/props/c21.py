"""C21: what was computed for a time stays what it is when later data arrive.

A simulated market data feed delivers bars while an application recomputes an indicator on the history so far, and
records what it published.  The feed delays bars and inserts them late, corrects them and repeats them; values at
times before the first changed bar must come out again at every later recomputation.
"""
import random
import warnings

import numpy as np
import pandas as pd

from .. import catalog as C
from .. import core, forks, jobs
from .. import util as U
from .. import values as V

ID = "C21"
BANDS = ("Bollinger", "EwmBollinger", "Donchian", "Keltner", "GenericB")
_ARR = ("arr", "ohlc")


def kinds():
    fs, os_ = C.available()
    return sorted(n for n in fs if C.F[n]["mod"].startswith("feature")) + [k for k in BANDS if k in os_]


def _size(op):
    return max(C.get_path(op, p)["n"] for p in C._data_recipes(op))


def _gen_op(rng, name):
    if name in C.O:
        op = C.gen_obj_op(rng, name)
    else:
        op = {"f": name, "a": C.F[name]["gen"](rng)}
    a = op.get("a") or op["ctor"]["a"]
    for k in ("window", "period", "span", "fast", "slow", "signal"):
        if isinstance(a.get(k), (int, float)) and a[k] < 0:
            a[k] = -a[k]  # a negative window asks for the future
    if rng.random() < 0.1 and name != "get_edge_spread":
        C.enlarge(rng, op, (2, 4, 9))
    return op


def gen(rng, tier, idx):
    ks = kinds()
    pairs = []
    for i in range(rng.choice([1, 1, 2])):
        name = ks[idx % len(ks)] if i == 0 else rng.choice(ks)
        op = _gen_op(rng, name)
        n = _size(op)
        n0 = rng.randint(2, max(2, n // 2))
        ev = []
        left = n - n0
        buf = rng.random() < 0.3
        while left > 0 and len(ev) < 40:
            r = rng.random()
            if r < 0.6 or buf:
                k = rng.choice([1, 1, 2, 5, max(1, left // 3)])
                ev.append(["bar", k])
                left -= k
            elif r < 0.72:
                ev.append(["hold", rng.randint(1, 3)])
                left -= ev[-1][1]
            elif r < 0.84:
                ev.append(["late", round(rng.random(), 3)])
            elif r < 0.94:
                ev.append(["fix", round(rng.random(), 3), rng.choice([1.01, 0.5, 3, 1.5])])
            elif name != "get_edge_spread":
                ev.append(["dup", round(rng.random(), 3)])
        marks, a = [], op.get("a") or op["ctor"]["a"]
        while rng.random() < 0.45 and len(marks) < 4:
            marks.append([rng.choice(["idle", "idle", "void", "flat", "tick"] if any("volume" in k for k in a) else ["void", "flat", "flat", "tick"]), rng.choice([0, 0, round(rng.random(), 3), round(rng.random(), 3)]), rng.choice([1, 1, 2, 3, 6, 20])])
        pairs.append({"op": op, "marks": marks, "n0": n0, "events": ev, "buffer": buf, "computes": rng.randint(2, 7), "fork": rng.random() < 0.1})
    return {"seed": rng.getrandbits(48), "pairs": pairs, "gap": rng.choice([5, 20, 80]), "hub": {"workers": rng.choice([1, 2, 3]), "mode": "copy"}}


class Feed:
    """Bars in the order the application holds them: (row of the full history, factor of a correction)."""

    def __init__(self, pair):
        self.n = _size(pair["op"])
        self.next = min(pair["n0"], self.n)
        self.rows = [(i, 1) for i in range(self.next)]
        self.held = []

    def apply(self, e, res):
        if e[0] in ("bar", "hold"):
            new = [(i, 1) for i in range(self.next, min(self.n, self.next + e[1]))]
            self.next += len(new)
            if e[0] == "bar":
                self.rows += new
            else:
                self.held += new
                res.fault("bar delayed", len(new))
        elif e[0] == "late" and self.held:
            r = self.held.pop(min(int(e[1] * len(self.held)), len(self.held) - 1))
            p = len(self.rows)
            while p and self.rows[p - 1][0] > r[0]:
                p -= 1
            self.rows.insert(p, r)
            res.fault("bar inserted late")
        elif e[0] == "fix" and self.rows:
            p = min(int(e[1] * len(self.rows)), len(self.rows) - 1)
            self.rows[p] = (self.rows[p][0], e[2])
            res.fault("bar corrected")
        elif e[0] == "dup" and self.rows:
            p = min(int(e[1] * len(self.rows)), len(self.rows) - 1)
            self.rows.insert(p, self.rows[p])
            res.fault("bar delivered twice")


def _view(full, rows):
    """The part of one array of the full history that the application holds."""
    ids = [r[0] for r in rows]
    fac = np.array([r[1] for r in rows], dtype=float)
    if isinstance(full, pd.Series):
        s = full.iloc[ids]
        fac = fac.astype(s.dtype) if s.dtype.kind == "f" else fac
        return s * fac if np.any(fac != 1) else s.copy()
    x = np.asarray(full)[ids]
    fac = fac.astype(x.dtype) if x.dtype.kind == "f" else fac
    return x * fac if np.any(fac != 1) else x


def _market(full, n, marks):
    """Bars as markets have them: without trades, without prices, without any movement."""
    out = {}
    for k, v in full.items():
        out[k] = v
        if not (isinstance(v, (np.ndarray, pd.Series)) and len(v) == n) or not marks:
            continue
        x = np.array(v)
        low = next((np.asarray(full[q]) for q in ("p_low", "low") if q in full and len(full[q]) == n), x)
        for what, pos, m in marks:
            i = min(int(pos * n), n - 1)
            j = min(n, i + m)
            if what == "idle" and "volume" in k:
                x[i:j] = 0
            elif what == "void":
                x = x if x.dtype.kind == "f" else x.astype(float)
                x[i:j] = np.nan
            elif what == "flat" and "volume" not in k:
                x[i:j] = low[i]
            elif what == "tick":
                x[i:j] = x[i:j] * 40
        out[k] = pd.Series(x, index=v.index, name=v.name) if isinstance(v, pd.Series) else x
    return out


def _cut(x, full, n, rows, buf):
    """Arguments as the application passes them, with every array of length n replaced by what has arrived."""
    if isinstance(x, (np.ndarray, pd.Series)) and len(x) == n:
        if buf is not None and isinstance(x, np.ndarray):
            b = buf.setdefault(id(x), np.full(n, np.nan, x.dtype) if x.dtype.kind == "f" else np.zeros(n, x.dtype))
            b[: len(rows)] = x[: len(rows)]
            return b[: len(rows)]
        return _view(x, rows)
    return x


def _compute(op, full, n, rows, buf=None):
    """[arrays] published for the bars in `rows`, or None when the data are rejected."""
    a = {k: _cut(v, full, n, rows, buf) for k, v in full.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if "f" in op:
                f = C.F[op["f"]]
                r = C.lib(f["mod"], f["attr"])(**a) if not f["call"] else f["call"](C.lib(f["mod"], f["attr"]), a)
            else:
                r = getattr(C.lib(C.IND, _CLS[op["o"]])(**a), op["m"])()
        except Exception as e:  # noqa: BLE001
            return type(e).__name__
    return [np.array(x, dtype=float) for x in (r if isinstance(r, tuple) else (r,))]


_CLS = {"Bollinger": "BollingerBands", "EwmBollinger": "EwmBollingerBands", "Donchian": "DonchianBands", "Keltner": "KeltnerBands", "GenericB": "GenericBands"}


def _common(a, b):
    k = 0
    for x, y in zip(a, b):
        if x != y:
            break
        k += 1
    return k


def _differs(p, q, np_, nq, c):
    """First difference of two publications at positions before c, or None."""
    if len(p) != len(q):
        return f"{len(p)} against {len(q)} results"
    for j, (x, y) in enumerate(zip(p, q)):
        if x.ndim != 1 or y.ndim != 1:
            continue
        off = np_ - len(x)
        if off != nq - len(y):
            return f"result {j}: {len(x)} values for {np_} bars, {len(y)} values for {nq} bars"
        m = c - max(0, off)
        if m <= 0:
            continue
        x, y = x[:m], y[:m]
        with np.errstate(all="ignore"):
            fin = np.isfinite(x) & np.isfinite(y)
            same = (np.isnan(x) & np.isnan(y)) | (x == y)
            scale = np.max(np.abs(x[fin]), initial=0.0)
            same |= fin & (np.abs(x - y) <= 1e-6 * np.maximum(np.abs(x), np.abs(y)) + 1e-11 * scale)
        if not same.all():
            i = int(np.argmin(same))
            return f"result {j} at bar {i} of {np_}: {x[i]!r}, recomputed with later data {y[i]!r}"
    return None


def run(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], **plan["hub"])
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    pub = [[] for _ in plan["pairs"]]
    feeds = [Feed(p) for p in plan["pairs"]]
    fulls = []
    for p in plan["pairs"]:
        op = p["op"]
        a = op["ctor"]["a"] if "o" in op else op["a"]
        fulls.append(_market({k: V.build(v) for k, v in a.items()}, _size(op), p["marks"]))
        for m in p["marks"]:
            res.fault({"idle": "bars without trades", "void": "bars without prices", "flat": "bars without movement", "tick": "bad ticks"}[m[0]])
        res.kind(C.name_of(op))
    bufs = [{} if p["buffer"] else None for p in plan["pairs"]]

    def pause():
        s, t = core.current_task()
        if t is not None:
            s.yield_now(t)

    def feed(i):
        def go():
            for e in plan["pairs"][i]["events"]:
                feeds[i].apply(e, res)
                pause()

        return go

    def publish(i, fork=False):
        p = plan["pairs"][i]
        rows = list(feeds[i].rows)
        if fork:
            def child():
                core.SCHED = None
                return _compute(p["op"], fulls[i], feeds[i].n, rows)

            out = forks.fork_call(child)
            res.fault("recomputed in a new process")
        else:
            out = _compute(p["op"], fulls[i], feeds[i].n, rows, bufs[i])
        pub[i].append((rows, out))

    def app(i):
        def go():
            for k in range(plan["pairs"][i]["computes"]):
                publish(i, plan["pairs"][i]["fork"] and k == 1)
                pause()

        return go

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    fns = [f(i) for i in range(len(plan["pairs"])) for f in (feed, app)]
    s = core.Sched(fns, rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=6_000_000)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        res.bad("no-progress", f"computations do not complete under this schedule: {s.deadlock}")
        return res.out()
    for i in range(len(plan["pairs"])):
        publish(i)
        got = [(r, o) for r, o in pub[i] if not isinstance(o, str)]
        res.event(i, [(len(r), o if isinstance(o, str) else [len(x) for x in o]) for r, o in pub[i]])
        res.stat("publications rejected", len(pub[i]) - len(got))
        for u in range(len(got)):
            for w in range(u + 1, len(got)):
                c = _common(got[u][0], got[w][0])
                if not c:
                    continue
                res.stat("publications compared")
                d = _differs(got[u][1], got[w][1], len(got[u][0]), len(got[w][0]), c)
                if d:
                    res.bad("repaint", f"{U.brief(dict(plan['pairs'][i]['op'], **{}))}: with {len(got[u][0])} bars, then {len(got[w][0])} ({c} unchanged): {d}")
                    return res.out()
    res.nontrivial = res.stats.get("publications compared", 0) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


def shrinks(plan):
    ps = plan["pairs"]
    if len(ps) > 1:
        for i in range(len(ps)):
            yield U.with_(plan, pairs=[ps[i]], dec=None)
    for i, p in enumerate(ps):
        for c in U.chunks_removed(p["events"]):
            yield U.with_(plan, pairs=ps[:i] + [dict(p, events=c)] + ps[i + 1 :])
        for c in U.chunks_removed(p["marks"]):
            yield U.with_(plan, pairs=ps[:i] + [dict(p, marks=c)] + ps[i + 1 :])
        if p["computes"] > 1:
            yield U.with_(plan, pairs=ps[:i] + [dict(p, computes=p["computes"] - 1)] + ps[i + 1 :])
        for k in ("fork", "buffer"):
            if p[k]:
                yield U.with_(plan, pairs=ps[:i] + [dict(p, **{k: False})] + ps[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
