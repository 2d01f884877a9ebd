"""Replicas of an analytics service fed by an unreliable network (C24, C28, C29).

One feed of observations is delivered to several replicas as messages that arrive late, twice, out of order, and again
after a replica crashed and came back from its last checkpoint.  Every replica keeps what it received in a container of
its own (arrays of either memory order, views, read-only arrays, frames assembled piece by piece), and several threads
per replica compute from it under a seeded schedule, some computations interrupted and tried again.  What the replicas
publish is compared with each other and with what the observations sent to them imply, computed here independently.
"""
import itertools
import math
import pickle
import random
import warnings

import numpy as np
import pandas as pd
from scipy.stats import rankdata

from . import boot, catalog as C, core, forks, jobs
from . import util as U
from . import values as V

EXC = ["MemoryError", "KeyboardInterrupt"]
BOXES = ["np", "npF", "view", "ro", "frame", "frame", "pieces"]
IDX = ["range", "shift", "desc", "B", "D", "irreg", "str", "tz", "h", "period", "dupdate", "multi"]
TOL = 1e-9


def _rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


# ------------------------------------------------------------------ the feed
def gen_feed(rng, mmin=2, mmax=7, plain=False):
    n, m = rng.choice([10, 25, 60, 200, rng.randint(8, 120)]), rng.randint(mmin, mmax)
    cols = []
    for j in range(m):
        k = rng.choice(["normal", "normal", "common", "common", "walk", "heavy", "round", "small"])
        if j and not plain and rng.random() < 0.25:
            k = rng.choice(["copy", "neg", "affine", "negaffine", "near", "mono", "square"])
        cols.append([k, rng.randrange(j) if j else 0])
    return {"n": n, "m": m, "cols": cols, "seed": rng.randint(1, 10**6)}


def feed_of(f):
    g = _rng(f["seed"])
    n = f["n"]
    com = g.normal(0, 1, n)
    x = np.empty((n, f["m"]))
    for j, (k, b) in enumerate(f["cols"]):
        e = g.normal(0, 1, n)
        o = x[:, b]
        x[:, j] = {
            "normal": lambda: e, "common": lambda: com * g.choice([0.4, 1, -1, 3]) + e, "walk": lambda: 100 + np.cumsum(e),
            "heavy": lambda: e / (np.abs(g.normal(0, 1, n)) + 0.05), "round": lambda: np.round(2 * com + 2 * e), "small": lambda: 1e-4 * (e + 0.3 * com),
            "copy": lambda: o, "neg": lambda: -o, "affine": lambda: 3 * o + 1, "negaffine": lambda: 2 - 0.5 * o,
            "near": lambda: o + 1e-3 * np.std(o) * e, "mono": lambda: np.arctan(o / (np.std(o) + 1e-300)), "square": lambda: (o / np.std(o)) ** 2,
        }[k]()
        if np.ptp(x[:, j]) == 0 or len(np.unique(x[:, j])) < 3:
            x[:, j] = e
    return x


def gen_replica(rng, f):
    return {"box": rng.choice(BOXES), "idx": rng.choice(IDX), "seed": rng.randint(1, 10**6), "dup": rng.choice([0, 0, 0.1, 0.5]),
            "late": rng.choice([0, 1, 30, 10**6]), "crash": sorted(rng.randint(1, f["n"] * f["m"]) for _ in range(rng.choice([0, 0, 1, 2]))),
            "ckpt": rng.choice([1, 5, 50]), "sort": rng.random() < 0.3}


def deliver(f, x, r, res):
    """(order of columns, order of rows, {(row, column): value}) the replica ends up with."""
    g = random.Random(r["seed"])
    msgs = [(i * f["m"] + j + g.random() * r["late"], i, j) for i in range(f["n"]) for j in range(f["m"])]
    twice = [(t + g.random() * (r["late"] + 50), i, j) for t, i, j in msgs if g.random() < r["dup"]]
    msgs = sorted(msgs + twice)
    if twice:
        res.fault("messages delivered twice", len(twice))
    if r["late"] > f["m"]:
        res.fault("messages delivered out of order", sum(1 for a, b in zip(msgs, msgs[1:]) if b[1:] < a[1:]))
    crash = set(r["crash"])
    held, since = {}, []
    saved = pickle.dumps(held)
    queue = list(msgs[::-1])
    k = 0
    while queue:
        t, i, j = queue.pop()
        k += 1
        if k in crash:
            crash.discard(k)
            held = pickle.loads(saved)
            res.fault("replica crashed and came back from its checkpoint")
            res.fault("messages delivered again", len(since))
            queue.append((t, i, j))
            queue.extend(since[::-1])
            since = []
            continue
        held[(i, j)] = float(x[i, j])
        since.append((t, i, j))
        if len(since) >= r["ckpt"] * f["m"]:
            saved, since = pickle.dumps(held), []
    cols, rows = list(dict.fromkeys(j for _, j in held)), list(dict.fromkeys(i for i, _ in held))
    if r["sort"]:
        rows.sort()
    return cols, rows, held


def boxed(r, cols, rows, held, miss=()):
    """What the replica computes from."""
    a = np.array([[np.nan if (i, j) in miss else held[(i, j)] for j in cols] for i in rows])
    if r["box"] == "np":
        return a
    if r["box"] == "npF":
        return np.asfortranarray(a)
    if r["box"] == "view":
        big = np.full((2 * a.shape[0], a.shape[1] + 2), np.nan)
        big[::2, 1:-1] = a
        return big[::2, 1:-1]
    if r["box"] == "ro":
        a.setflags(write=False)
        return a
    idx = V.make_index(r["idx"], len(rows), r["seed"])
    names = [f"A{j}" for j in cols]
    if r["box"] == "frame":
        return pd.DataFrame(a, index=idx, columns=names)
    d = pd.DataFrame(index=idx)
    for j, nm in enumerate(names):
        d[nm] = a[:, j]
    return d


def pick(box, ks):
    return box.iloc[:, ks] if isinstance(box, pd.DataFrame) else box[:, ks]


def one(box, k):
    return box.iloc[:, k] if isinstance(box, pd.DataFrame) else box[:, k]


# ------------------------------------------------------------------ what distances are
def corr2(a, b, method):
    """Correlation of two series (pairwise complete), in extended precision; None when it is not defined."""
    ok = ~(np.isnan(a) | np.isnan(b))
    a, b = a[ok], b[ok]
    if len(a) < 4:
        return None
    if method == "spearman":
        a, b = rankdata(a), rankdata(b)
    a, b = a.astype(np.longdouble), b.astype(np.longdouble)
    a, b = a - a.mean(), b - b.mean()
    sa, sb = (a * a).sum(), (b * b).sum()
    if sa < 1e-18 or sb < 1e-18:
        return None
    return float((a * b).sum() / np.sqrt(sa * sb))


def angular2(r, method):
    """Square of the distance of a correlation."""
    return {"angular": (1 - r) / 2, "abs_angular": 1 - abs(r), "squared_angular": 1 - r * r}[method]


def nbins(a, b):
    """Hacine-Gharbi and Ravier; None when rounding decides."""
    n = len(a)
    c = corr2(a, b, "pearson")
    if abs(abs(1 - abs(c)) - 1e-5) < 1e-6:
        return None
    if abs(c) > 1 - 1e-5:
        z = (8 + 324 * n + 12 * math.sqrt(36 * n + 729 * n * n)) ** (1 / 3)
        v = z / 6 + 2 / (3 * z) + 1 / 3
    else:
        v = math.sqrt(1 + math.sqrt(1 + 24 * n / (1 - c * c))) / math.sqrt(2)
    return None if abs(v % 1 - 0.5) < 1e-6 else round(v)


def entropies(a, b, bins):
    def cell(v):
        e = np.linspace(v.min(), v.max(), bins + 1)
        return np.minimum(np.searchsorted(e, v, side="right") - 1, bins - 1)

    def h(keys):
        c = np.array(list(keys.values()), float) / len(a)
        return float(-(c * np.log(c)).sum())

    def count(it):
        d = {}
        for v in it:
            d[v] = d.get(v, 0) + 1
        return d

    i, j = cell(a).tolist(), cell(b).tolist()
    return h(count(i)), h(count(j)), h(count(zip(i, j)))


def info2(a, b, method, bins, norm):
    bins = bins or nbins(a, b)
    if bins is None:
        return None
    hx, hy, hxy = entropies(a, b, bins)
    if method == "var_info":
        v = 2 * hxy - hx - hy
        return v / hxy if norm else v
    v = hx + hy - hxy
    return v / math.sqrt(hx * hy) if norm else v


def divergences(p, q):
    lp, vp = np.linalg.eigh(p)
    lq, vq = np.linalg.eigh(q)
    w = (vp.T @ vq) ** 2
    n = len(p)
    ld = float((lp[:, None] * w / lq[None, :]).sum() - np.log(lp).sum() + np.log(lq).sum() - n)
    vn = float((lp * np.log(lp)).sum() - (lp[:, None] * w * np.log(lq)[None, :]).sum() - lp.sum() + lq.sum())
    return ld, vn


def _half(c):
    k = c * 0.5
    for i in range(len(k)):
        if isinstance(k, pd.DataFrame):
            k.iloc[i, i] = 1.0
        else:
            k[i, i] = 1.0
    return k


ANG = ["angular", "abs_angular", "squared_angular"]


def gen_fault(rng, p=0.2):
    return [rng.randint(1, 25), rng.choice(EXC)] if rng.random() < p else None


def gen24(rng, idx):
    f = gen_feed(rng)
    reps = [gen_replica(rng, f) for _ in range(rng.choice([2, 2, 3]))]
    shared = [gen_q24(rng, f) for _ in range(rng.randint(1, 4))]
    tasks = []
    for i in range(len(reps)):
        qs = [dict(q, fault=gen_fault(rng)) for q in shared]
        rng.shuffle(qs)
        qs += [dict(gen_q24(rng, f), fault=gen_fault(rng)) for _ in range(rng.randint(0, 2))]
        k = rng.choice([1, 1, 2])
        for t in range(k):
            if qs[t::k]:
                tasks.append([i, qs[t::k]])
    return {"seed": rng.getrandbits(48), "feed": f, "reps": reps, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def gen_q24(rng, f):
    sub = sorted(rng.sample(range(f["m"]), rng.randint(2, f["m"]))) if rng.random() < 0.5 else list(range(f["m"]))
    t = rng.choice(["corr", "corr", "corr", "info", "info", "pair", "pair", "conv", "div"])
    q = {"t": t, "sub": sub, "perm": rng.randint(0, 99)}
    if t == "corr":
        q.update(cm=rng.choice([None, "pearson", "spearman", "spearman"]), dm=rng.choice([None] + ANG), half=rng.random() < 0.2,
                 miss=rng.randint(1, 10**6) if rng.random() < 0.15 and f["n"] >= 25 else None)
    elif t == "conv":
        q.update(by=rng.choice(["corrcoef", "frame", "float", "float"]), dm=rng.choice(ANG), via=rng.choice(["ctd", "fn"]), a=rng.randrange(f["m"]), b=rng.randrange(f["m"]))
    elif t == "div":
        q.update(shrink=rng.choice([0.1, 0.5, 0.9]), size=rng.choice([0, 0, 20, 60]), scale=rng.choice([1, 1, 1e-6, 1e-4, 1e5]))
    else:
        q.update(method=rng.choice(["var_info", "var_info", "mutual_info", None]), bins=rng.choice([None, None, 2, 3, 5, 10]), norm=rng.choice([None, None, True, False]))
        if t == "pair":
            q.update(a=rng.randrange(f["m"]), b=rng.randrange(f["m"]), method=rng.choice(["var_info", "mutual_info"] + ANG))
    return q


def missing(q, f):
    if not q.get("miss"):
        return set()
    g = random.Random(q["miss"])
    return {(g.randrange(f["n"]), g.randrange(f["m"])) for _ in range(max(1, f["n"] * f["m"] // 12))}


class World:
    """The replicas, after the feed was delivered."""

    def __init__(self, plan, res):
        self.f = plan["feed"]
        self.x = feed_of(self.f)
        self.r = []
        for r in plan["reps"]:
            cols, rows, held = deliver(self.f, self.x, r, res)
            self.r.append((r, cols, rows, held, boxed(r, cols, rows, held)))
            res.kind("kept in " + r["box"])
            res.event(r["box"], cols, rows[:5], len(held))


def play(plan, res, tasks, ask, on_error):
    """Run the tasks under the seeded schedule; `ask(replica, query)` results go to the returned list."""
    got = []
    order = itertools.count()

    def go(i, qs):
        for q in qs:
            at = next(order)
            inj = core.Injector("line", *q["fault"]) if q.get("fault") else core.Injector()
            v = None
            done = False
            try:
                with inj:
                    try:
                        v = ask(i, q)
                        done = True
                    except (MemoryError, KeyboardInterrupt):
                        if not inj.fired:
                            raise
                if not done:
                    res.fault("computation interrupted and repeated: " + inj.exc)
                    v = ask(i, q)
            except Exception as e:  # noqa: BLE001
                v = e
            got.append((at, i, q, v))

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([(lambda i=i, qs=qs: go(i, qs)) for i, qs in tasks], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=6_000_000)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        res.bad("no-progress", f"computations do not complete under this schedule: {s.deadlock}")
    got.sort(key=lambda g: g[0])
    return got, s


def show(q):
    return {k: v for k, v in q.items() if k not in ("fault", "perm") and v is not None}


def run24(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    import quantfinlib.distance as D
    from quantfinlib.distance.distance_matrix import corr_to_dist

    w = World(plan, res)
    f, x = w.f, w.x
    # inputs are prepared before the threads start
    inputs = {}
    for ti, (i, qs) in enumerate(plan["tasks"]):
        r, cols, rows, held, box = w.r[i]
        for q in qs:
            sub = list(q["sub"])
            if q["t"] in ("corr", "info", "conv", "div"):
                random.Random(q["perm"] + i).shuffle(sub)
            b = boxed(r, cols, rows, held, missing(q, f)) if q.get("miss") else box
            p = pick(b, [cols.index(j) for j in sub])
            if q["t"] == "conv" and q["by"] != "float":
                p = np.corrcoef(np.asarray(p).T) if q["by"] == "corrcoef" else p.corr() if isinstance(p, pd.DataFrame) else pd.DataFrame(np.corrcoef(p.T), index=sub, columns=sub)
            elif q["t"] == "conv":
                p = min(1.0, max(-1.0, corr2(x[:, q["a"]], x[:, q["b"]], "pearson")))
            elif q["t"] == "div":
                y = np.asarray(p)
                if q["size"]:
                    y = _rng(q["perm"] + f["seed"]).normal(0, 1, (30, q["size"])) + 0.3 * y[np.arange(30) % len(y)].mean(axis=1, keepdims=True) / y.std()
                k = y.shape[1]
                p = (np.corrcoef(y.T) * (1 - q["shrink"]) + np.eye(k) * q["shrink"]) * q["scale"]
                p = (p, (q["shrink"] * np.outer(1 + np.arange(k), 1 + np.arange(k)) / k**2 + np.eye(k)) * q["scale"])
            inputs[id(q)] = (sub, p, b)

    def ask(i, q):
        sub, p, b = inputs[id(q)]
        cols = w.r[i][1]
        t = q["t"]
        if t == "corr":
            kw = {k: v for k, v in (("corr_method", q["cm"]), ("corr_to_dist_method", q["dm"])) if v}
            if q["half"]:
                kw["corr_transformer"] = _half
            return D.get_corr_distance_matrix(p, **kw)
        if t == "conv":
            return corr_to_dist(p, q["dm"]) if q["via"] == "ctd" and q["by"] != "float" else getattr(D, f"corr_to_{q['dm']}_dist")(p)
        if t == "div":
            return D.log_det_divergence(*p), D.von_neuman_divergence(*p), D.log_det_divergence(p[0], p[0]), D.von_neuman_divergence(p[0], p[0])
        kw = {k: q[k] for k in ("bins", "norm") if q[k] is not None}
        if t == "info":
            return D.get_info_distance_matrix(p, **({"method": q["method"]} if q["method"] else {}), **kw)
        u, v = one(b, cols.index(q["a"])), one(b, cols.index(q["b"]))
        if q["method"] in ANG:
            fn = getattr(D, f"pair_{q['method']}_distance")
            return fn(u, v), fn(v, u)
        fn = getattr(D, q["method"])
        return fn(u, v, **kw), fn(v, u, **kw)

    got, s = play(plan, res, plan["tasks"], ask, None)
    if res.viol:
        return res.out()
    said = {}
    for at, i, q, v in got:
        sub, p, b = inputs[id(q)]
        t = q["t"]
        what = f"replica {i} ({w.r[i][0]['box']}) asked {show(q)}"
        if isinstance(v, Exception):
            res.bad("distance", f"{what}: raises {v!r}")
            return res.out()
        ms = missing(q, f)
        xs = x.copy()
        for a in ms:
            xs[a] = np.nan
        msg = None
        scale = lambda j: 1 + 1e-15 * (np.nanmean(xs[:, j]) / np.nanstd(xs[:, j])) ** 2 / TOL  # noqa: E731
        if t in ("corr", "info") or t == "conv" and q["by"] != "float":
            m = np.asarray(v, float)
            k = len(sub)
            kind = "mutual_info" if t == "info" and q["method"] == "mutual_info" else "dist"
            if m.shape != (k, k):
                msg = f"a matrix of {m.shape} for {k} series"
            elif t != "conv" and isinstance(v, pd.DataFrame) and (list(v.index) != [f"A{j}" for j in sub] or list(v.columns) != list(v.index)):
                msg = f"the matrix is labelled {list(v.index)} x {list(v.columns)} for the series {sub}"
            elif not np.all(np.diag(m) == (1.0 if kind == "mutual_info" else 0.0)):
                msg = f"the diagonal is {np.diag(m)}"
            else:
                for a, c in itertools.combinations(range(k), 2):
                    if t == "info":
                        e = info2(x[:, sub[a]], x[:, sub[c]], q["method"] or "var_info", q["bins"], q["norm"] is not False)
                    else:
                        e = corr2(xs[:, sub[a]], xs[:, sub[c]], (q.get("cm") or "pearson"))
                        e = e if e is None else angular2(e * (0.5 if q.get("half") else 1), q["dm"] or "angular")
                    if e is None:
                        res.stat("pairs where rounding decides")
                        continue
                    o1, o2 = m[a, c], m[c, a]
                    res.stat("pairs compared")
                    tol = TOL * (scale(sub[a]) + scale(sub[c]))
                    if t == "info":
                        low = -TOL if kind == "mutual_info" else 0
                        lim = (low, 1 + TOL) if q["norm"] is not False else (low, math.inf)
                        d1, d2, ok = o1, o2, lim[0] <= o1 <= lim[1]
                        sym = o1 == o2
                    else:
                        d1, d2, ok = o1 * o1, o2 * o2, 0 <= o1 <= 1
                        sym = abs(d1 - d2) <= 1e-12
                    if not sym:
                        msg = f"not symmetric: {o1!r} from {sub[a]} to {sub[c]} and {o2!r} back"
                    elif not ok:
                        msg = f"{o1!r} between {sub[a]} and {sub[c]} is outside of the range of the measure"
                    elif not abs(d1 - e) <= tol:
                        msg = f"{o1!r} between {sub[a]} and {sub[c]}, the observations give {e if t == 'info' else math.sqrt(max(0, e))!r}"
                    if msg:
                        break
                    if t != "conv":
                        key = (t, str([q.get(z) for z in ("cm", "dm", "half", "miss", "method", "bins", "norm")]), frozenset((sub[a], sub[c])))
                        j0, d0 = said.setdefault(key, (i, d1))
                        res.stat("publications compared across replicas", j0 != i)
                        if abs(d0 - d1) > tol:
                            msg = f"{d1!r} between {sub[a]} and {sub[c]} where replica {j0} published {d0!r}"
                            break
        elif t == "conv":
            e = angular2(p, q["dm"])
            if not (0 <= v <= 1 and abs(v * v - e) <= TOL):
                msg = f"{v!r} for the correlation {p!r}, {math.sqrt(max(0, e))!r} is right"
        elif t == "pair":
            a, c = q["a"], q["b"]
            ang = q["method"] in ANG
            e = angular2(corr2(x[:, a], x[:, c], "pearson"), q["method"]) if ang else info2(x[:, a], x[:, c], q["method"], q["bins"], q["norm"] is not False)
            d = [float(z) ** 2 if ang else float(z) for z in v]
            tol = TOL * (scale(a) + scale(c))
            if ang and not all(0 <= z <= 1 for z in v):
                msg = f"{v} is outside of [0, 1]"
            elif not abs(d[0] - d[1]) <= 1e-9:
                msg = f"not symmetric: {v}"
            elif e is not None and not abs(d[0] - e) <= tol:
                msg = f"{v[0]!r}, the observations give {e if not ang else math.sqrt(max(0, e))!r}"
            elif a == c and q["method"] != "mutual_info" and not (ang and q["method"] == "squared_angular") and abs(d[0]) > 1e-9:
                msg = f"identical series are {v[0]!r} apart"
            res.stat("pairs compared", e is not None)
        else:
            e = divergences(*p)
            for name, o, z in (("log_det_divergence", v[0], e[0]), ("von_neuman_divergence", v[1], e[1]), ("log_det_divergence of a matrix and itself", v[2], 0), ("von_neuman_divergence of a matrix and itself", v[3], 0)):
                if not abs(o - z) <= 1e-8 * (len(p[0]) + abs(z)):
                    msg = f"{name} is {o!r}, not {z!r}"
            res.stat("divergences compared", 2)
        if msg:
            res.bad("distance", f"{what}: {msg}")
            return res.out()
        res.event(i, t, q["sub"], V.digest(V.canon(np.round(np.asarray(v, float), 6))))
    res.nontrivial = res.stats.get("pairs compared", 0) + res.stats.get("divergences compared", 0) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


# ------------------------------------------------------------------ C28: containers
def pool28():
    return [n for n in C.F if C.F[n]["mod"] not in ("math.cov", "datasets", "_datatypes.timeseries") and C.has(C.F[n]["mod"], C.F[n]["attr"])]


OBJ28 = ["Bollinger", "EwmBollinger", "Donchian", "Keltner", "GenericB", "HC", "WF", "KF", "fit", "fit"]


def gen28(rng, idx):
    pool = pool28()
    ops = []
    for k in range(rng.randint(1, 4)):
        if (idx + k) % 3 == 0:
            o = rng.choice(OBJ28)
            if o == "fit":
                ops.append(gen_fit28(rng))
                continue
            op = C.gen_obj_op(rng, o)
        else:
            n = pool[(idx // 2) % len(pool)] if k == 0 else rng.choice(pool)
            op = {"f": n, "a": C.F[n]["gen"](rng)}
            if rng.random() < 0.05:
                C.enlarge(rng, op)
        ops.append(op)
    reps = []
    for i in range(rng.choice([2, 3, 3])):
        pd_ = i != 0 and (i == 1 or rng.random() < 0.7)
        reps.append({"box": rng.choice(["frame", "pieces"]) if pd_ else rng.choice(["np", "npF", "view", "ro"]), "idx": rng.choice(IDX), "seed": rng.randint(0, 999),
                     "name": rng.choice([None, "x", 7, "A1"]), "crash": rng.random() < 0.3})
    tasks = []
    for i in range(len(reps)):
        qs = [{"op": k, "fault": gen_fault(rng)} for k in range(len(ops))]
        rng.shuffle(qs)
        c = rng.choice([1, 1, 2])
        tasks += [[i, qs[t::c]] for t in range(c) if qs[t::c]]
    return {"seed": rng.getrandbits(48), "ops": ops, "reps": reps, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def gen_fit28(rng):
    kind = rng.choice(["BM", "GBM", "OU"])
    d = rng.choice([1, 1, 2, 3])
    return {"fit": kind, "x": {"k": "arr", "n": rng.randint(30, 120), "m": d, "gen": "mr" if kind == "OU" else "price", "seed": rng.randint(1, 10**6)},
            "flat": d == 1 and rng.random() < 0.6, "dt": rng.choice([1 / 252, 1 / 12, 0.1]), "n": rng.randint(1, 20), "p": rng.choice([1, 2, 3]), "s": rng.randint(0, 10**6),
            "x0": rng.choice(["first", "last", None])}


def boxup(x, r, name=None):
    """An array of numbers in the container of a replica."""
    if r["box"] in ("frame", "pieces"):
        idx = V.make_index(r["idx"], len(x), r["seed"])
        if x.ndim == 1:
            v = pd.Series(x.copy(), index=idx, name=r["name"])
        elif r["box"] == "frame":
            v = pd.DataFrame(x.copy(), index=idx, columns=[f"A{j}" for j in range(x.shape[1])])
        else:
            v = pd.DataFrame(index=idx)
            for j in range(x.shape[1]):
                v[f"A{j}"] = x[:, j]
    elif r["box"] == "view":
        big = np.zeros((2 * len(x),) + x.shape[1:], dtype=x.dtype)
        big[::2] = x
        v = big[::2]
    elif r["box"] == "npF":
        v = np.asfortranarray(x)
    else:
        v = x.copy()
        v.setflags(write=r["box"] != "ro")
    if r["crash"] and r["box"] != "view":
        ro = r["box"] == "ro"
        v = pickle.loads(pickle.dumps(v))
        if ro:
            v.setflags(write=False)
    return v


def arrays(a):
    """Arguments with every recipe of numbers as a plain array."""
    out = {}
    for k, v in a.items():
        if isinstance(v, dict) and v.get("k") in ("arr", "ohlc", "dist", "labels", "corr"):
            out[k] = np.asarray(V.build({**{z: y for z, y in v.items() if z not in ("idx", "lay", "idxin")}, "c": "np"}))
        else:
            out[k] = V.build(v)
    return out


def numbers(x):
    if isinstance(x, (list, tuple)):
        return [z for v in x for z in numbers(v)]
    return [np.asarray(x)]


def run28(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    import quantfinlib.sim as S

    base = [{"x": V.build(dict(o["x"], c="np"))} if "fit" in o else arrays(o["a"] if "f" in o else o["ctor"]["a"]) for o in plan["ops"]]
    more = [arrays(o["a"]) if "o" in o else {} for o in plan["ops"]]
    args = {}
    for i, qs in plan["tasks"]:
        r = plan["reps"][i]
        if r["crash"]:
            res.fault("replica restarted: its data come from a checkpoint")
        res.kind("kept in " + r["box"])
        for q in qs:
            r = plan["reps"][i]
            o = plan["ops"][q["op"]]
            own = {}

            def put(d, o=o):
                out = {}
                for k, v in d.items():
                    if isinstance(v, np.ndarray) and v.ndim in (1, 2) and not str(o.get("f")).startswith(("log_det", "von_neu")):
                        same = next((z for y, z in own.items() if d.get(y) is v), None)
                        out[k] = boxup(v, r) if same is None else same
                        own[k] = out[k]
                        if v.ndim == 2 and k in ("dist", "corr") and isinstance(out[k], pd.DataFrame):
                            out[k].index = list(out[k].columns)
                    else:
                        out[k] = v
                return out

            b = base[q["op"]]
            if "fit" in o:
                if o["flat"]:
                    b = {"x": b["x"][:, 0]}
                if r["idx"] in ("irreg", "dupdate", "h"):     # irregular dates call for a label frequency
                    r = dict(r, idx="D")
            args[id(q)] = (put(b), put(more[q["op"]]))

    def ask(i, q):
        o = plan["ops"][q["op"]]
        a, b = args[id(q)]
        if "fit" in o:
            m = getattr(S, {"BM": "BrownianMotion", "GBM": "GeometricBrownianMotion", "OU": "OrnsteinUhlenbeck"}[o["fit"]])()
            m.fit(a["x"], o["dt"])
            p = [np.asarray(getattr(m, n), float) for n in (("mean", "mrr", "vol", "cor") if o["fit"] == "OU" else ("drift", "vol", "cor"))]
            kw = {"x0": o["x0"]} if o["x0"] else {}
            x = np.asarray(m.path_sample(dt=o["dt"], num_steps=o["n"], num_paths=o["p"], random_state=o["s"], **kw), float)
            return p + [m.nll(a["x"], o["dt"]), x.reshape(len(x), -1)]
        if "f" in o:
            f = C.F[o["f"]]
            fn = C.lib(f["mod"], f["attr"])
            return f["call"](fn, dict(a)) if f["call"] else fn(**a)
        c = C.O[o["o"]]
        return c["m"][o["m"]][1](_new(o, a), b)

    def _new(o, a):
        mod, cls = {"HC": ("clustering", "HC"), "WF": ("train_test_split", "WalkForward"), "KF": ("train_test_split", "TimeAwareKFold"), "Bollinger": (C.IND, "BollingerBands"),
                    "EwmBollinger": (C.IND, "EwmBollingerBands"), "Donchian": (C.IND, "DonchianBands"), "Keltner": (C.IND, "KeltnerBands"), "GenericB": (C.IND, "GenericBands")}[o["o"]]
        return C.lib(mod, cls)(**a)

    got, s = play(plan, res, plan["tasks"], ask, None)
    if res.viol:
        return res.out()
    said = {}
    for at, i, q, v in got:
        k = q["op"]
        o = plan["ops"][k]
        r = plan["reps"][i]
        name = "fit and simulate " + o["fit"] if "fit" in o else o.get("f") or f"{o['o']}.{o['m']}"
        own = r["box"] in ("frame", "pieces")
        what = f"{name} of {({z: y for z, y in (o['a'] if 'f' in o else o.get('ctor', {}).get('a', {})).items() if not isinstance(y, dict)})} data in {r['box']}{' ' + r['idx'] if own else ''}"
        a, b = args[id(q)]
        e = isinstance(v, Exception)
        if not e:
            data = [y for y in list(a.values()) + list(b.values()) if isinstance(y, (np.ndarray, pd.Series, pd.DataFrame))]
            msg = container(name, v, data, own, o)
            if msg:
                res.bad("container", f"{what}: {msg}")
                return res.out()
        if k not in said:
            said[k] = (i, v)
            continue
        j, u = said[k]
        res.stat("answers compared across containers")
        where = f"{what}; in {plan['reps'][j]['box']}{' ' + plan['reps'][j]['idx'] if plan['reps'][j]['box'] in ('frame', 'pieces') else ''}"
        if e != isinstance(u, Exception):
            res.bad("numbers", f"{where}: {short(v)} where the other container gives {short(u)}")
            return res.out()
        if e:
            res.stat("refused in every container")
            continue
        d = same(numbers(v), numbers(u))
        if d:
            res.bad("numbers", f"{where}: {d}")
            return res.out()
        res.stat("numbers compared", sum(z.size for z in numbers(v)))
        res.event(k, i, name, V.digest(V.canon([np.asarray(z, float).round(6) if z.dtype.kind in "fiu" else z for z in numbers(v)])))
    res.nontrivial = res.stats.get("answers compared across containers", 0) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


def short(v):
    return repr(v)[:120] if isinstance(v, Exception) else f"a {type(v).__name__}"


def same(a, b):
    if len(a) != len(b):
        return f"{len(a)} values, not {len(b)}"
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return f"shape {x.shape}, not {y.shape}"
        if x.dtype.kind not in "fiub" or y.dtype.kind not in "fiub":
            if x.tolist() != y.tolist():
                return "other values"
            continue
        x, y = x.astype(float), y.astype(float)
        nx, ny = np.isnan(x), np.isnan(y)
        with np.errstate(all="ignore"):
            fin = np.abs(x[np.isfinite(x)])
            tol = 1e-9 * np.maximum(np.abs(x), np.abs(y)) + 1e-12 * (fin.max() if fin.size else 0)
            bad = (nx != ny) | ~nx & ~ny & (x != y) & ~(np.abs(x - y) <= tol)
        if bad.any():
            at = tuple(int(z[0]) for z in np.nonzero(bad)) if x.ndim else ()
            return f"{x[at]!r} at {at}, where the other container gives {y[at]!r} ({int(bad.sum())} of {x.size} differ)"
    return None


MATRIX = {"get_corr_distance_matrix": "X", "get_info_distance_matrix": "X", "corr_to_dist": "corr", "corr_to_angular_dist": "corr", "corr_to_abs_angular_dist": "corr", "corr_to_squared_angular_dist": "corr"}


def container(name, v, data, own, o):
    """The container of the answer is the one of the data, with its labels."""
    if not data or "fit" in o:
        return None
    if name in MATRIX:
        if not own or data[0].ndim != 2:
            return None if isinstance(v, np.ndarray) and not own else f"the answer is a {type(v).__name__}"
        if not isinstance(v, pd.DataFrame):
            return f"the answer is a {type(v).__name__}"
        if list(v.index) != list(data[0].columns) or list(v.columns) != list(data[0].columns):
            return f"the answer is labelled {list(v.index)} x {list(v.columns)}, the data {list(data[0].columns)}"
        return None
    feature = "f" in o and C.F[o["f"]]["mod"].startswith("feature.") and o["f"] != "chu_stinchcombe_white_cusum_test" or o.get("o") in ("Bollinger", "EwmBollinger", "Donchian", "Keltner", "GenericB")
    if not feature:
        return None
    for z in v if isinstance(v, (tuple, list)) else (v,):
        if not own:
            if type(z) is not np.ndarray:
                return f"the answer is a {type(z).__name__}"
        elif not isinstance(z, pd.Series):
            return f"the answer is a {type(z).__name__}"
        elif not (z.index.equals(data[0].index) and type(z.index) is type(data[0].index)):
            return f"the answer has the index {z.index[:3]}.., the data {data[0].index[:3]}.."
    return None


# ------------------------------------------------------------------ C29: clusters
LINK = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


def gen29(rng, idx):
    f = gen_feed(rng, 4, 12, plain=rng.random() < 0.8)
    reps = [gen_replica(rng, f) for _ in range(rng.choice([2, 2, 3]))]
    hc = {"link": rng.choice([None, "ward"] + LINK), "cod": rng.choice([None, "pearson-correlation", "spearman-correlation", "var_info"]), "dm": rng.choice([None] + ANG), "oo": rng.choice([None, True, False]),
          "src": rng.choice(["X", "X", "X", "corr", "dist", "dist", "points"])}
    m = f["m"]
    qs = [{"t": "cut", "k": rng.randint(1, m)} for _ in range(rng.randint(1, 4))]
    if m > 3:
        qs += [{"t": "opt", "max": rng.randint(2, m - 1), "metric": rng.choice(["gap", "gap", None, "silhouette", "silhouette"]), "nb": rng.choice([None, 1, 3])} for _ in range(rng.randint(0, 2))]
        qs += [{"t": rng.choice(["sil", "gap"]), "k": rng.randint(2, m - 1), "names": rng.choice(["int", "str", "neg"])} for _ in range(rng.randint(0, 2))]
    tasks = []
    for i in range(len(reps)):
        mine = [dict(q, fault=gen_fault(rng)) for q in qs]
        rng.shuffle(mine)
        c = rng.choice([1, 2, 2])
        tasks += [[i, mine[t::c]] for t in range(c) if mine[t::c]]
    return {"seed": rng.getrandbits(48), "feed": f, "reps": reps, "hc": hc, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def agglomerate(d, method):
    """([partition into n, n-1, .., 1 clusters], number of leading merges not decided by ties)."""
    n = len(d)
    square = method in ("centroid", "median", "ward")
    D = {(i, j): float(d[i, j]) ** (2 if square else 1) for i in range(n) for j in range(i)}
    g = lambda a, b: D[(a, b) if a > b else (b, a)]  # noqa: E731
    cl = {i: frozenset([i]) for i in range(n)}
    out = [frozenset(cl.values())]
    sure = None
    top = max(D.values())
    for step in range(n - 1):
        alive = sorted(cl)
        ps = sorted((g(a, b), a, b) for a, b in itertools.combinations(alive, 2))
        v, a, b = ps[0]
        if sure is None and len(ps) > 1 and ps[1][0] - v <= 1e-7 * top:
            sure = step
        na, nb = len(cl[a]), len(cl[b])
        new = n + step
        for k in alive:
            if k in (a, b):
                continue
            x, y, nk = g(a, k), g(b, k), len(cl[k])
            D[(new, k)] = {
                "single": lambda: min(x, y), "complete": lambda: max(x, y), "average": lambda: (na * x + nb * y) / (na + nb), "weighted": lambda: (x + y) / 2,
                "centroid": lambda: (na * x + nb * y) / (na + nb) - na * nb * v / (na + nb) ** 2, "median": lambda: x / 2 + y / 2 - v / 4,
                "ward": lambda: ((na + nk) * x + (nb + nk) * y - nk * v) / (na + nb + nk),
            }[method]()
        cl[new] = cl.pop(a) | cl.pop(b)
        out.append(frozenset(cl.values()))
    return out, n - 1 if sure is None else sure


def silhouette(d, part):
    n = len(d)
    cl = [sorted(c) for c in part]
    s = np.zeros(n)
    for c in cl:
        for i in c:
            if len(c) == 1:
                continue
            a = sum(d[i, j] for j in c) / (len(c) - 1)
            b = min(sum(d[i, j] for j in o) / len(o) for o in cl if o is not c)
            s[i] = (b - a) / max(a, b) if max(a, b) > 0 else 0.0
    sd = s.std()
    return s.mean() / sd if sd > 1e-9 else None


def run29(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    from quantfinlib.clustering import HC, gap_statistic, silhouette_tstat
    import quantfinlib.distance as D

    w = World(plan, res)
    f, x, h = w.f, w.x, plan["hc"]
    m = f["m"]
    names = [f"A{j}" for j in range(m)]
    # the distances, in the order of the feed
    if h["src"] == "points":
        g = _rng(f["seed"] + 5)
        pts = g.normal(0, 1, (m, 3)) + 6 * g.integers(0, 3, (m, 1))
        dist = np.sqrt(((pts[:, None] - pts[None]) ** 2).sum(-1))
        dist = (dist + dist.T) / 2
        np.fill_diagonal(dist, 0.0)
        h = dict(h, src="dist")
    elif h["src"] == "X" and h["cod"] == "var_info":
        dist = np.zeros((m, m))
        for a, b in itertools.combinations(range(m), 2):
            dist[a, b] = dist[b, a] = info2(x[:, a], x[:, b], "var_info", nbins(x[:, a], x[:, b]) or 5, True)
            if nbins(x[:, a], x[:, b]) is None:
                return res.out()
    else:
        cm = "spearman" if h["src"] == "X" and h["cod"] == "spearman-correlation" else "pearson"
        cor = np.eye(m)
        for a, b in itertools.combinations(range(m), 2):
            cor[a, b] = cor[b, a] = np.clip(corr2(x[:, a], x[:, b], cm), -1, 1)
        dist = np.sqrt(np.maximum(angular2(cor, h["dm"] or "angular") if (h["dm"] or "angular") != "abs_angular" else 1 - np.abs(cor), 0))
        np.fill_diagonal(dist, 0.0)
    if h["src"] == "corr":
        cor = np.eye(m)
        for a, b in itertools.combinations(range(m), 2):
            cor[a, b] = cor[b, a] = np.clip(corr2(x[:, a], x[:, b], "pearson"), -1, 1)
    link = h["link"] or "ward"
    parts, sure = agglomerate(dist, link)
    hcs = []
    for r, cols, rows, held, box in w.r:
        own = isinstance(box, pd.DataFrame)
        if h["src"] == "X":
            kw = {"X": box}
        else:
            v = (dist if h["src"] == "dist" else cor)[np.ix_(cols, cols)].copy()
            kw = {h["src"]: pd.DataFrame(v, index=[names[j] for j in cols], columns=[names[j] for j in cols]) if own else v}
        for k, a in (("link", "linkage_method"), ("dm", "corr_to_dist_method"), ("oo", "optimal_ordering")):
            if h[k] is not None:
                kw[a] = h[k]
        if h["cod"] is not None and (h["src"] == "X" or h["cod"] != "var_info" and h["src"] == "corr"):
            kw["codependence_method"] = h["cod"]
        try:
            hcs.append(HC(**kw))
        except Exception as e:  # noqa: BLE001
            res.bad("clusters", f"HC of {h} for replica {r['box']}: raises {e!r}")
            return res.out()
    res.kind(f"{link}/{h['src']}")

    def lab(k, kind, cols):
        c = {i: n for n, p in enumerate(sorted(parts[m - k], key=min)) for i in p}
        v = np.array([{"int": c[j], "neg": -3 * c[j], "str": f"g{c[j]}"}[kind] for j in cols])
        return v

    def ask(i, q):
        r, cols, rows, held, box = w.r[i]
        if q["t"] == "cut":
            return hcs[i].get_clusters(q["k"])
        if q["t"] == "opt":
            kw = {k: q[a] for k, a in (("metric", "metric"), ("nb", "nb")) if q[a] is not None}
            return hcs[i].get_optimal_nclusters(max_clust=q["max"], **kw)
        v = dist[np.ix_(cols, cols)].copy()
        labels = lab(q["k"], q["names"], cols)
        if isinstance(box, pd.DataFrame):
            v = pd.DataFrame(v, index=[names[j] for j in cols], columns=[names[j] for j in cols])
            labels = pd.Series(labels, index=v.index)
        if q["t"] == "sil":
            return silhouette_tstat(v, labels)
        return gap_statistic(v, labels, nb=3), gap_statistic(v * 2.5, lab(q["k"], "int", cols), nb=3)

    got, s = play(plan, res, plan["tasks"], ask, None)
    if res.viol:
        return res.out()
    cuts = {}
    for at, i, q, v in got:
        cols = w.r[i][1]
        what = f"replica {i} ({w.r[i][0]['box']}), {link} linkage of {m} items by {h['src']}, {show(q)}"
        msg = None
        if isinstance(v, Exception):
            msg = f"raises {v!r}"
        elif q["t"] == "cut":
            k = q["k"]
            v = np.asarray(v)
            if v.shape != (m,):
                msg = f"labels of shape {v.shape} for {m} items"
            elif sorted(set(v.tolist())) != list(range(k)):
                msg = f"the labels {sorted(set(v.tolist()))} for {k} clusters"
            else:
                p = frozenset(frozenset(cols[a] for a in range(m) if v[a] == c) for c in range(k))
                if m - k <= sure:
                    res.stat("partitions compared")
                    if p != parts[m - k]:
                        msg = f"clusters {_p(p)}, the distances give {_p(parts[m - k])}"
                else:
                    res.stat("partitions where ties decide")
                    if m - k >= sure and sure < m - 1 and not all(any(a <= b for b in p) for a in parts[sure]):
                        msg = f"clusters {_p(p)} separate what belongs together before any tie, {_p(parts[sure])}"
                for k2, (p2, i2) in sorted(cuts.get(i, {}).items()):
                    fine, coarse = (p, p2) if k >= k2 else (p2, p)
                    if not all(any(a <= b for b in coarse) for a in fine):
                        msg = msg or f"{k} clusters {_p(p)} and {k2} clusters {_p(p2)} are not nested"
                cuts.setdefault(i, {})[k] = (p, i)
        elif q["t"] == "opt":
            if not (isinstance(v, (int, np.integer)) and 2 <= v <= q["max"]):
                msg = f"{v!r} is not a number of clusters from 2 to {q['max']}"
            elif sure >= m - 2:
                own = dist[np.ix_(cols, cols)]
                back = {j: a for a, j in enumerate(cols)}
                ps = {k: [frozenset(back[j] for j in c) for c in parts[m - k]] for k in range(2, q["max"] + 1)}
                if q["metric"] == "silhouette":
                    sc = {k: silhouette(own, ps[k]) for k in ps}
                    if all(z is not None for z in sc.values()):
                        res.stat("numbers of clusters compared")
                        if max(sc.values()) - sc[int(v)] > 1e-6 * (1 + abs(sc[int(v)])):
                            msg = f"{v} clusters selected, the t-statistics of the silhouette are {sc}"
                else:
                    gs = {}
                    for k in ps:
                        l_ = np.zeros(m, int)
                        for n_, c in enumerate(ps[k]):
                            l_[list(c)] = n_
                        gs[k] = gap_statistic(own, l_, nb=q["nb"] or 10)
                    if all(np.isfinite(z).all() for z in gs.values()):
                        ks = sorted(gs)
                        diff = [gs[a][0] - gs[b][0] + gs[b][1] for a, b in zip(ks, ks[1:])]
                        if all(abs(z) > 1e-9 for z in diff):
                            res.stat("numbers of clusters compared")
                            e = next((a for a, z in zip(ks, diff) if z > 0), ks[-1])
                            if e != v:
                                msg = f"{v} clusters selected, by the gap statistic it is {e}"
        elif q["t"] == "sil":
            e = silhouette(dist, parts[m - q["k"]])
            if e is not None and not abs(v - e) <= 1e-6 * (1 + abs(e)):
                msg = f"{v!r}, the silhouettes give {e!r}"
            res.stat("silhouettes compared")
        else:
            (a, b), (c, d) = v
            if np.isfinite([a, c]).all() and not (abs(a - c) <= 1e-8 and abs(b - d) <= 1e-8):
                msg = f"{v[0]} with labels {q['names']}, {v[1]} for other names of the same clusters and distances in another unit"
            res.stat("gap statistics compared")
        if msg:
            res.bad("clusters", f"{what}: {msg}")
            return res.out()
        res.event(i, show(q), [cols[a] for a in np.argsort(v, kind="stable")] if q["t"] == "cut" else np.round(np.asarray(v, float), 6).tolist())
    res.nontrivial = sum(n for k, n in res.stats.items() if "compared" in k or "ties decide" in k) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


def _p(p):
    return sorted(sorted(c) for c in p)


def shrinks(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield U.with_(plan, tasks=[ts[i]], dec=None)
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, (r, qs) in enumerate(ts):
        for c in U.chunks_removed(qs, 1):
            yield U.with_(plan, tasks=ts[:i] + [[r, c]] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, (r, qs) in enumerate(ts):
        for j, q in enumerate(qs):
            if q.get("fault"):
                yield U.with_(plan, tasks=ts[:i] + [[r, qs[:j] + [dict(q, fault=None)] + qs[j + 1 :]]] + ts[i + 1 :])
    for i, r in enumerate(plan["reps"]):
        for k, v in (("crash", [] if "ckpt" in r else False), ("dup", 0), ("late", 0)):
            if r.get(k):
                yield U.with_(plan, reps=plan["reps"][:i] + [dict(r, **{k: v})] + plan["reps"][i + 1 :])
    f = plan.get("feed")
    if f and f["n"] > 12:
        yield U.with_(plan, feed=dict(f, n=max(8, f["n"] // 2)))
