"""A simulation desk: models, paths and calibrations judged against the written law (C25, C26).

Several threads (and forked processes) of one application simulate, with and without seeds, calibrate and score, under
a seeded schedule and a seeded entropy source, some calls interrupted and tried again.  The law of the three processes
is restated here from the documentation, independently of the library.
"""
import itertools
import math
import random
import warnings

import numpy as np
import pandas as pd
from scipy import special, stats

from . import boot, core, forks, jobs
from . import util as U

FREQ = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "ME": 1 / 12, "MS": 1 / 12, "QE": 1 / 4, "QS": 1 / 4, "YE": 1.0, "YS": 1.0}
CLS = {"BM": "BrownianMotion", "GBM": "GeometricBrownianMotion", "OU": "OrnsteinUhlenbeck"}
P_MIN = 1e-11
MSGS = 10.0


def _rng(seed):
    return np.random.Generator(np.random.PCG64(seed))


# ------------------------------------------------------------------ the law
class Law:
    """drift/mean, mrr, vol (each of length d) and correlation of one process."""

    def __init__(self, kind, a, vol, cor=None, mrr=None):
        self.kind, self.d = kind, len(a)
        self.a = np.asarray(a, float)
        self.vol = np.broadcast_to(np.asarray(vol, float), (self.d,))
        self.mrr = None if mrr is None else np.broadcast_to(np.asarray(mrr, float), (self.d,))
        self.cor = np.eye(self.d) if cor is None else np.asarray(cor, float)

    def step(self, dt):
        """(factor of the state, mean, standard deviation) of one transition of the state."""
        if self.kind == "BM":
            return np.ones(self.d), self.a * dt, self.vol * math.sqrt(dt)
        if self.kind == "GBM":
            return np.ones(self.d), (self.a - self.vol**2 / 2) * dt, self.vol * math.sqrt(dt)
        f = np.exp(-self.mrr * dt)
        return f, -self.a * np.expm1(-self.mrr * dt), self.vol * np.sqrt(-np.expm1(-2 * self.mrr * dt) / (2 * self.mrr))

    def state(self, x):
        return np.log(x) if self.kind == "GBM" else np.asarray(x, float)

    def residuals(self, x, dt):
        s = self.state(x)
        f, m, sd = self.step(dt)
        return (s[1:] - f * s[:-1] - m) / sd

    def nll(self, x, dt):
        """Negative log density of the transitions (of the log values for GBM)."""
        z = self.residuals(x, dt)
        sd = self.step(dt)[2]
        L = np.linalg.cholesky(self.cor)
        w = np.linalg.solve(L, z.T)
        n = z.shape[0]
        return 0.5 * np.sum(w * w) + n * (np.sum(np.log(sd)) + np.sum(np.log(np.diag(L))) + 0.5 * self.d * math.log(2 * math.pi))

    def path(self, g, x0, dt, n):
        f, m, sd = self.step(dt)
        L = np.linalg.cholesky(self.cor)
        s = np.empty((n + 1, self.d))
        s[0] = self.state(x0)
        e = g.standard_normal((n, self.d)) @ L.T * sd + m
        for i in range(n):
            s[i + 1] = f * s[i] + e[i]
        return np.exp(s) if self.kind == "GBM" else s


def law_of_model(kind, m):
    g = lambda k: np.asarray(getattr(m, k), float).reshape(-1)  # noqa: E731
    if kind == "OU":
        return Law(kind, g("mean"), g("vol"), m.cor, g("mrr"))
    return Law(kind, g("drift"), g("vol"), m.cor)


# ------------------------------------------------------------------ plans
def gen_law(rng, kind=None):
    kind = kind or rng.choice(list(CLS))
    d = rng.choice([1, 1, 1, 2, 2, 3, 5])
    r = {"kind": kind, "d": d, "vol": [round(rng.choice([0.05, 0.2, 0.6, 1.5]) * rng.uniform(0.5, 1.5), 4) for _ in range(d)]}
    r["a"] = [round(rng.choice([0, 0.05, -0.3, 2, 0.8]) * rng.uniform(0.5, 1.5), 4) for _ in range(d)]
    if d > 1 and kind != "GBM" and rng.random() < 0.15:
        # variates in very different units: a rate next to an index level
        r["unit"] = [rng.choice([1, 1, 1e-3, 1e3, 1e-6]) for _ in range(d)]
        r["a"] = [x * u for x, u in zip(r["a"], r["unit"])]
        r["vol"] = [x * u for x, u in zip(r["vol"], r["unit"])]
    if kind == "OU":
        r["a"] = [round(x * rng.choice([1, 10]), 12) for x in r["a"]]
        r["mrr"] = [round(rng.choice([0.2, 1, 5, 20]) * rng.uniform(0.5, 1.5), 4) for _ in range(d)]
    if d > 1:
        r["cor"] = rng.choice([None, rng.randint(1, 10**6)])
        r["thin"] = rng.choice([None, None, "vol", "mrr" if kind == "OU" else "vol"])
        if r["thin"]:
            r[r["thin"]] = r[r["thin"]][:1] * d
    r["box"] = rng.choice(["list", "array", "frow", "matrix"])
    return r


def cor_of(r):
    if not r.get("cor"):
        return None
    g = _rng(r["cor"])
    a = g.standard_normal((r["d"], r["d"] + 1))
    c = a @ a.T
    s = np.sqrt(np.diag(c))
    c = c / np.outer(s, s)
    c = 0.95 * (c + c.T) / 2
    np.fill_diagonal(c, 1.0)
    return c


def law(r):
    return Law(r["kind"], r["a"], r["vol"], cor_of(r), r.get("mrr"))


def _boxed(v, box, thin):
    if thin or len(v) == 1:
        return float(v[0])
    if box == "list":
        return list(v)
    if box == "array":
        return np.array(v)
    if box == "frow":
        return pd.Series(v, index=[f"k{i}" for i in range(len(v))])
    return np.array([v])


def build(r):
    import quantfinlib.sim as s

    names = ("mean", "mrr", "vol") if r["kind"] == "OU" else ("drift", "vol")
    kw = {n: _boxed(r["a" if n in ("mean", "drift") else n], r["box"], r.get("thin") == n) for n in names}
    c = cor_of(r)
    if c is not None:
        kw["cor"] = c.tolist() if r["box"] == "list" else c
    return getattr(s, CLS[r["kind"]])(**kw)


def gen_dt(rng):
    return rng.choice([1 / 252, 1 / 12, 1.0, 0.25, 1 / 365, round(10 ** rng.uniform(-4, 0.5), 6), 2])


def start(r, rng):
    x = [round(rng.uniform(0.5, 3) * rng.choice([1, 10, 100]), 3) for _ in range(r["d"])]
    if r["kind"] == "GBM":
        return x
    u = r.get("unit") or [1] * r["d"]
    return [round(v * rng.choice([1, -1, 0]), 3) * k for v, k in zip(x, u)]


def gen_sim(rng, r, fitted):
    n = rng.choice([1, 2, 5, 20, 60, 252, 1000, rng.randint(1, 400)])
    p = rng.choice([1, 1, 2, 3, 10, 50, max(1, 4000 // (n * r["d"]))])
    while n * p * r["d"] > 20000:
        p = max(1, p // 2)
        n = n if p > 1 else n // 2
    st = {"n": n, "p": p, "dt": rng.choice([None, gen_dt(rng), gen_dt(rng)]), "seed": rng.choice([None, None, None, rng.randint(0, 5), rng.getrandbits(32)]),
          "gen": rng.random() < 0.15, "x0": rng.choice(["none", "num", "num", "arr"] + (["first", "last"] if fitted else [])), "inc": rng.random() < 0.8,
          "freq": rng.choice([None, None, rng.choice(list(FREQ))]), "cols": rng.random() < 0.15, "where": "fork" if rng.random() < 0.08 else "here",
          "fault": [rng.randint(1, 25), rng.choice(["MemoryError", "KeyboardInterrupt"])] if rng.random() < 0.15 else None}
    if n > {"Y": 230, "Q": 900, "M": 2800}.get((st["freq"] or "D")[0], 10**6):
        st["freq"] = "B"
    st["v0"] = start(r, rng)
    return st


def gen25(rng, idx):
    ms = []
    for i in range(rng.choice([1, 1, 2, 3])):
        r = gen_law(rng, list(CLS)[idx % 3] if i == 0 else None)
        r["fit"] = {"n": rng.randint(40, 400), "seed": rng.randint(1, 10**6), "box": rng.choice(["np", "frame", "dated"]), "dt": rng.choice([None, 1 / 12, 1 / 252])} if rng.random() < 0.3 else None
        ms.append(r)
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = []
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(len(ms))
            t.append(dict(gen_sim(rng, ms[i], ms[i]["fit"]), m=i))
        tasks.append(t)
    return {"seed": rng.getrandbits(48), "models": ms, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


# ------------------------------------------------------------------ judging paths
class Judge:
    """Statistical tests with error probabilities below 1e-11 each."""

    def __init__(self, res):
        self.res, self.msg = res, None

    def p(self, p, what):
        self.res.stat("statistical tests")
        if not p > P_MIN and self.msg is None:
            self.msg = f"{what} (p = {p:.3g})"

    def moments(self, z, what):
        n = len(z)
        if n < 1:
            return
        self.p(special.erfc(abs(z.sum()) / math.sqrt(n) / math.sqrt(2)), f"{what}: the mean of {n} standardised innovations is {z.mean():.6g}, not 0")
        q = stats.chi2.cdf(float(z @ z), n)
        self.p(2 * min(q, stats.chi2.sf(float(z @ z), n)), f"{what}: the mean square of {n} standardised innovations is {(z @ z) / n:.6g}, not 1")

    def shape(self, z, what):
        if len(z) >= 100:
            d = stats.kstest(z, "norm", mode="asymp")
            self.p(d.pvalue, f"{what}: {len(z)} standardised innovations are not normally distributed (KS {d.statistic:.3g})")
        if len(z) >= 500:
            for k in (1.0, 2.0, 3.0, 4.0):
                for side, c in (("above", int((z > k).sum())), ("below", int((z < -k).sum()))):
                    q = stats.norm.sf(k)
                    self.p(2 * min(stats.binom.cdf(c, len(z), q), stats.binom.sf(c - 1, len(z), q)),
                           f"{what}: {c} of {len(z)} standardised innovations are {side} {k:g} standard deviations")

    def pair(self, x, y, what):
        n = len(x)
        if n >= 30:
            r = float(np.corrcoef(x, y)[0, 1])
            t = r * math.sqrt((n - 2) / max(1e-300, 1 - r * r))
            self.p(2 * stats.t.sf(abs(t), n - 2), f"{what}: correlation {r:.4g} over {n} innovations")

    def lags(self, x, y, what, same):
        """No correlation of x and y at any lag."""
        n, m = len(x), len(y)
        if min(n, m) < 450:
            return
        size = 1 << (n + m - 1).bit_length()
        c = np.fft.irfft(np.fft.rfft(x, size) * np.conj(np.fft.rfft(y, size)), size)
        k = np.arange(-(m - 1), n)
        v = c[k % size]
        over = np.minimum(n, m + k) - np.maximum(0, k)
        ok = over >= 400
        if same:
            ok &= k > 0
        if not ok.any():
            return
        s = np.abs(v[ok]) / np.sqrt(over[ok])
        self.res.stat("lags compared", int(ok.sum()))
        i = int(np.argmax(s))
        if s[i] > MSGS and self.msg is None:
            self.msg = f"{what}: innovations are correlated at a distance of {int(k[ok][i])} (score {s[i]:.4g} over {int(over[ok][i])})"


def run25(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    models, laws, fits = [], [], []
    for r in plan["models"]:
        m, w = build(r), law(r)
        fd = None
        if r["fit"]:
            f = r["fit"]
            d0 = f["dt"] or 1 / 252
            x = w.path(_rng(f["seed"]), np.ones(w.d), d0, f["n"])
            first, last = x[0].copy(), x[-1].copy()
            if f["box"] == "frame":
                x = pd.DataFrame(x, columns=[f"c{i}" for i in range(w.d)])
            elif f["box"] == "dated":
                x = pd.DataFrame(x, columns=[f"c{i}" for i in range(w.d)], index=pd.bdate_range("2015-01-01", periods=len(x)))
            m.fit(x, f["dt"])
            fd = (d0, first, last)
            w = law_of_model(r["kind"], m)
        models.append(m)
        laws.append(w)
        fits.append(fd)
        res.kind(f"{r['kind']}/{r['d']}{'/fitted' if r['fit'] else ''}")
    if not all(np.all(np.isfinite(w.step(0.1)[2])) for w in laws):
        return res.out()
    got = []

    def ask(st, i):
        r = plan["models"][st["m"]]
        kw = {"num_steps": st["n"], "num_paths": st["p"], "include_x0": st["inc"]}
        if st["dt"] is not None:
            kw["dt"] = st["dt"]
        if st["seed"] is not None:
            kw["random_state"] = _rng(st["seed"]) if st["gen"] else st["seed"]
        if st["x0"] == "num":
            kw["x0"] = st["v0"] if r["d"] > 1 else st["v0"][0]
        elif st["x0"] == "arr":
            kw["x0"] = np.array(st["v0"])
        elif st["x0"] != "none":
            kw["x0"] = st["x0"]
        if st["freq"]:
            kw["label_freq"] = st["freq"]
            kw["label_start"] = "2020-01-01"
        if st["cols"]:
            kw["columns"] = [f"v{j}" for j in range(r["d"])]
        return np.array(models[st["m"]].path_sample(**kw), dtype=float)

    def sim(st, i):
        if st["where"] == "fork":
            def child():
                core.SCHED = None
                boot.shim.entropy(1, plan["seed"] + 7919 * (i + 1))
                return ask(st, i)

            res.fault("simulated in a forked process")
            got.append((i, st, forks.fork_call(child)))
            return
        inj = core.Injector("line", *st["fault"]) if st["fault"] else core.Injector()
        x = None
        with inj:
            try:
                x = ask(st, i)
            except (MemoryError, KeyboardInterrupt):
                if not inj.fired:
                    raise
        if x is None:
            res.fault("simulation interrupted and repeated: " + inj.exc)
            x = ask(st, i)
        got.append((i, st, x))

    def sim_(st, i):
        try:
            sim(st, i)
        except Exception as e:  # noqa: BLE001
            res.bad("law", f"simulating {st} with {plan['models'][st['m']]} raises {e!r}")

    order = itertools.count()

    def body(t):
        def go():
            for st in t:
                sim_(st, next(order))

        return go

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([body(t) for t in plan["tasks"]], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=6_000_000)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    if not ok:
        res.bad("no-progress", f"simulations do not complete under this schedule: {s.deadlock}")
        return res.out()
    if res.viol:
        return res.out()
    zs = []
    for i, st, x in sorted(got, key=lambda v: v[0]):
        w, fd = laws[st["m"]], fits[st["m"]]
        r = plan["models"][st["m"]]
        dt = st["dt"] or (FREQ[st["freq"]] if st["freq"] else fd[0] if fd else 1 / 252)
        x0 = np.array(st["v0"]) if st["x0"] in ("num", "arr") else fd[2] if st["x0"] == "last" else fd[1] if fd else np.full(w.d, 100.0 if r["kind"] == "GBM" else 0.0)
        what = f"{r['kind']} {({k: v for k, v in r.items() if k in ('a', 'vol', 'mrr', 'cor')})} dt={dt:.6g} {({k: v for k, v in st.items() if k in ('n', 'p', 'seed', 'x0', 'freq')})}"
        x = x.reshape(len(x), -1)
        if x.shape[1] != w.d * st["p"] or x.shape[0] != st["n"] + st["inc"]:
            res.bad("shape", f"{what}: the paths have the shape {x.shape}")
            return res.out()
        x = x.reshape(len(x), st["p"], w.d)
        if st["inc"]:
            if not np.allclose(x[0], x0, rtol=1e-9, atol=1e-12):
                res.bad("start", f"{what}: paths start at {x[0, 0]}, not at {x0}")
                return res.out()
        else:
            x = np.concatenate([np.broadcast_to(x0, (1,) + x.shape[1:]), x])
        with np.errstate(all="ignore"):
            z = np.stack([w.residuals(x[:, j], dt) for j in range(st["p"])], axis=1)
            # positions where rounding of the path itself hides the innovation are left out (all of the call)
            eps = np.max(np.abs(w.state(x))) * 4e-16 * (1 if r["kind"] != "GBM" else 4) / np.min(w.step(dt)[2])
            if r["kind"] == "GBM" and not (np.all(np.isfinite(w.state(x))) and np.all(x > 1e-290)):
                res.stat("paths that leave the range of floating point numbers")
                continue
        if not eps < 1e-4:
            res.stat("paths too coarse to judge")
            continue
        if not np.all(np.isfinite(z)):
            res.bad("law", f"{what}: the path is not finite")
            return res.out()
        u = np.linalg.solve(np.linalg.cholesky(w.cor), z.reshape(-1, w.d).T).T.reshape(z.shape)
        J = Judge(res)
        for c in range(w.d):
            J.moments(z[:, :, c].ravel(), f"variate {c}")
            J.moments(z[0, :, c].ravel(), f"first step of variate {c}")
            J.moments(z[-1, :, c].ravel(), f"last step of variate {c}")
            J.moments(z[:, 0, c].ravel(), f"first path of variate {c}")
            J.moments(z[:, -1, c].ravel(), f"last path of variate {c}")
            J.moments(z[: len(z) // 2, :, c].ravel(), f"first half of variate {c}")
            for b in range(c):
                J.pair(u[:, :, c].ravel(), u[:, :, b].ravel(), f"variates {b} and {c} after removing the correlation of the model")
        J.shape(u.ravel(), "all")
        one = u.ravel()
        two = u.transpose(1, 2, 0).ravel()
        J.lags(one, one, "in the order of time", True)
        J.lags(two, two, "path by path", True)
        res.stat("paths judged", st["p"])
        res.stat("innovations judged", z.size)
        if J.msg:
            res.bad("law", f"{what}: {J.msg}")
            return res.out()
        res.event(i, st["m"], z.shape, float(np.round(z.sum(), 6)))
        zs.append((st, what, one))
    J = Judge(res)
    for (s1, w1, a), (s2, w2, b) in itertools.combinations(zs, 2):
        if s1["seed"] is not None and s1["seed"] == s2["seed"]:
            continue
        J.lags(a, b, f"two calls, {w1} and {w2}", False)
        res.stat("pairs of calls compared")
    fresh = [a for s1, _, a in zs if s1["seed"] is None]
    if len(fresh) > 1:
        J.moments(np.concatenate(fresh), "all calls without a seed")
    each = {s1["seed"]: a for s1, _, a in zs if s1["seed"] is not None}
    if len(fresh) + len(each) > 1:
        J.shape(np.concatenate(fresh + list(each.values())), "all calls")
    if J.msg:
        res.bad("law", J.msg)
    res.nontrivial = res.stats.get("innovations judged", 0) >= 100
    res.sigs = [s.sig, res.log]
    return res.out()


# ------------------------------------------------------------------ calibration
def gen26(rng, idx):
    shared = [gen_law(rng) for _ in range(rng.choice([1, 1, 2]))]
    tasks = []
    for k in range(rng.choice([1, 1, 2, 3])):
        t = []
        for _ in range(rng.randint(1, 3)):
            r = gen_law(rng, list(CLS)[(idx + k) % 3])
            freq = rng.choice([None, None, rng.choice(list(FREQ))])
            dt = None if freq or rng.random() < 0.2 else gen_dt(rng)
            h = FREQ[freq] if freq else dt or 1 / 252
            n = rng.choice([rng.randint(3, 15), rng.randint(20, 80), rng.randint(400, 900), rng.randint(1500, 3000)])
            n = min(n, {"QE": 900, "QS": 900, "YE": 240, "YS": 240}.get(freq, n))
            if r["kind"] == "OU":
                r["mrr"] = [min(x, round(0.6 / h, 4)) for x in r["mrr"]]
            t.append({"law": r, "freq": freq, "dt": dt, "n": n, "seed": rng.randint(1, 10**9), "v0": start(r, rng), "by": rng.choice(["ref", "ref", "lib"]),
                      "box": rng.choice(["np", "series", "frame"]), "first": rng.random() < 0.5, "again": rng.random() < 0.25,
                      "turn": round(rng.uniform(0.3, 1), 3) if freq and rng.random() < 0.25 else None,
                      "fault": [rng.randint(1, 40), rng.choice(["MemoryError", "KeyboardInterrupt"])] if rng.random() < 0.25 else None,
                      "score": [[rng.choice(["nll", "aic", "bic"]), rng.choice(["own", "truth", "shared"])] for _ in range(rng.randint(1, 4))]})
        tasks.append(t)
    return {"seed": rng.getrandbits(48), "shared": shared, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def _same(a, b, tol):
    return math.isfinite(a) == math.isfinite(b) and (a == b or not math.isfinite(b) or abs(a - b) <= tol)


def check_fit(w, m, x, h, res):
    """Message or None: the calibrated model against the law the path came from, and the most likely parameters."""
    kind, n = w.kind, len(x) - 1
    f = law_of_model(kind, m)
    if f.d != w.d:
        return f"{f.d} variates calibrated from {w.d}"
    lf, lw = f.step(h), w.step(h)
    thr = 7.0
    if n >= 400:
        res.stat("calibrations compared with the parameters simulated")
        for c in range(w.d):
            if kind == "OU":
                a = lw[0][c]
                se = math.sqrt(max(1e-300, 1 - a * a) / n)
                if abs(lf[0][c] - a) > (thr + 1) * se + (30 if n * h * w.mrr[c] > 40 else 120) / n:
                    return f"mean reversion rate {f.mrr[c]:.5g} of a path simulated with {w.mrr[c]:.5g} ({n} steps)"
                if n * h * w.mrr[c] > 40:
                    se = w.vol[c] / w.mrr[c] / math.sqrt(n * h) * (1 + 4 / (n * h * w.mrr[c])) * math.sqrt(1 + abs(x[0, c] - w.a[c]) * w.mrr[c] / w.vol[c])
                    if abs(f.a[c] - w.a[c]) > 3 * thr * se:
                        return f"mean {f.a[c]:.5g} of a path simulated with {w.a[c]:.5g} ({n} steps)"
            else:
                drift = f.a[c] - w.a[c]
                se = w.vol[c] / math.sqrt(n * h)
                slack = abs(f.vol[c] ** 2 - w.vol[c] ** 2) / 2 if kind == "GBM" else 0
                if abs(drift) > thr * se + slack:
                    return f"drift {f.a[c]:.5g} of a path simulated with {w.a[c]:.5g} (standard error {se:.3g})"
            if abs((lf[2][c] / lw[2][c]) ** 2 - 1) > thr * math.sqrt(2 / n) + 40 / n:
                return f"volatility {f.vol[c]:.5g} of a path simulated with {w.vol[c]:.5g} ({n} steps)"
            for b in range(c):
                if abs(math.atanh(np.clip(f.cor[b, c], -0.999999, 0.999999)) - math.atanh(w.cor[b, c])) > thr / math.sqrt(n - 3) + 4 / n:
                    return f"correlation {f.cor[b, c]:.5g} of a path simulated with {w.cor[b, c]:.5g} ({n} steps)"
    if n >= 20 and n > 4 * w.d and (kind != "OU" or w.d == 1):
        s = w.state(x)
        if kind == "OU":
            A = np.vstack([s[:-1, 0], np.ones(n)]).T
            (a, b), *_ = np.linalg.lstsq(A, s[1:, 0], rcond=None)
            if not 0.02 < a < 1 - 1e-6:
                return None
            best = 0.5 * n * (math.log(2 * math.pi * np.mean((s[1:, 0] - a * s[:-1, 0] - b) ** 2)) + 1)
        else:
            d = np.diff(s, axis=0)
            cov = np.cov(d, rowvar=False, ddof=0).reshape(w.d, w.d)
            best = 0.5 * n * (w.d * math.log(2 * math.pi) + np.linalg.slogdet(cov)[1] + w.d)
        res.stat("calibrations compared with the most likely parameters")
        have = f.nll(x, h)
        if not have <= best + 0.5 + 1e-9 * abs(best) + 1e-6 * n * (np.max(np.abs(s)) * 1e-9 / np.min(lw[2])):
            return f"the calibrated parameters have a negative log likelihood of {have:.8g}, the most likely ones {best:.8g} ({n} steps)"
    return None


def free(r, fitted):
    d = r["d"]
    k = sum(1 if r.get("thin") == n and not fitted else d for n in (("a", "vol", "mrr") if r["kind"] == "OU" else ("a", "vol")))
    if d > 1 and (fitted or r.get("cor")):
        k += d * (d - 1) // 2
    return k


def run26(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    shared = [(r, build(r), law(r)) for r in plan["shared"]]
    log = []

    def boxed(st, x):
        d = x.shape[1]
        ix = pd.date_range("2000-01-03", periods=len(x), freq=st["freq"]) if st["freq"] else None
        if st["turn"] and len(x) > st["n"]:
            at = min(int(st["turn"] * len(x)), len(x) - 4)
            ix = ix[:at].append(pd.DatetimeIndex(ix[at - 1] + pd.to_timedelta(np.cumsum(3 + np.arange(len(x) - at) % 3 * 2), unit="D")))
        if st["box"] == "series" and d == 1:
            return pd.Series(x[:, 0], index=ix, name="s")
        if st["box"] == "frame" or ix is not None:
            return pd.DataFrame(x, index=ix, columns=[f"c{i}" for i in range(d)])
        return x[:, 0].copy() if d == 1 and st["box"] == "series" else x

    def work(st):
        r = st["law"]
        w = law(r)
        # dates without one frequency: the default of a business day
        h = FREQ[st["freq"]] if st["freq"] and not st["turn"] else st["dt"] or 1 / 252
        x0 = np.array(st["v0"])
        truth = build(r)
        if st["by"] == "lib":
            x = np.array(truth.path_sample(x0=x0, dt=h, num_steps=st["n"], random_state=st["seed"]), float).reshape(st["n"] + 1, -1)
        else:
            x = w.path(_rng(st["seed"]), x0, h, st["n"])
        s = w.state(x)
        if not np.all(np.isfinite(s)) or np.max(np.abs(s)) * 1e-15 / np.min(w.step(h)[2]) > 1e-9 or (r["kind"] == "GBM" and np.max(np.abs(s)) > 600):
            res.stat("paths too coarse to judge")
            return
        if st["freq"] and st["n"] < 12:
            return
        data = boxed(st, x)
        what = f"{r['kind']} {({k: v for k, v in r.items() if k in ('a', 'vol', 'mrr', 'cor')})} dt={h:.6g} n={st['n']} {st['box']} {st['freq']}"
        own = type(truth)() if st["first"] else build(r)
        if st["again"]:
            try:
                own.fit(boxed(st, x[: max(4, len(x) // 3)]), st["dt"])
            except Exception:  # noqa: BLE001
                pass
        inj = core.Injector("line", *st["fault"]) if st["fault"] else core.Injector()
        fitted = False
        try:
            with inj:
                try:
                    own.fit(data, st["dt"])
                    fitted = True
                except (MemoryError, KeyboardInterrupt):
                    if not inj.fired:
                        raise
            if not fitted:
                res.fault("calibration interrupted and repeated: " + inj.exc)
                own.fit(data, st["dt"])
        except Exception as e:  # noqa: BLE001
            if st["n"] > 2 * r["d"] + 2:
                res.bad("calibration", f"{what}: fit raises {e!r}")
            return
        if res.viol:
            return
        d = check_fit(w, own, x, h, res)
        if d:
            res.bad("calibration", f"{what}: {d}")
            return
        res.stat("calibrations")
        for name, who in st["score"]:
            if who == "shared":
                c = [v for v in shared if v[0]["d"] == r["d"] and (v[0]["kind"] != "GBM" or np.all(x > 0))]
                if not c:
                    continue
                rr, m, lw = c[st["seed"] % len(c)]
                k = free(rr, False)
            elif who == "truth":
                m, lw, k = truth, w, free(r, False)
            else:
                m, k = own, free(r, True)
                lw = law_of_model(r["kind"], own)
            try:
                with np.errstate(all="ignore"):
                    np.linalg.cholesky(lw.cor)
                    want = lw.nll(x, h)
            except np.linalg.LinAlgError:
                continue
            if not np.isfinite(want) or (np.linalg.cond(lw.cor) > 1e6) or not np.min(lw.step(h)[2]) > 1e-12:
                continue
            size = abs(want) + st["n"] * (1 + np.max(np.abs(lw.residuals(x, h))) ** 2)
            if name == "aic":
                want = 2 * k + 2 * want
            elif name == "bic":
                want = k * math.log(len(x)) + 2 * want
            try:
                have = float(getattr(m, name)(data, st["dt"]))
            except Exception as e:  # noqa: BLE001
                sd = lw.step(h)[2]
                if isinstance(e, np.linalg.LinAlgError) and np.max(sd) / np.min(sd) > 1e4:
                    res.stat("scores refused: variates of too different scale")
                    continue
                res.bad("likelihood", f"{what}: {name} of the {who} model raises {e!r}")
                return
            res.stat("scores compared")
            if not _same(have, want, 1e-7 * size):
                res.bad("likelihood", f"{what}: {name} of the {who} model ({lw.kind}) is {have:.12g}, the law gives {want:.12g}")
                return
            log.append(round(have, 4))

    def body(t):
        def go():
            for st in t:
                if not res.viol:
                    work(st)

        return go

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([body(t) for t in plan["tasks"]], rng=rng, gap=plan["gap"], decisions=plan.get("dec"), cap=6_000_000)
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    for t in plan["tasks"]:
        for st in t:
            res.kind(f"{st['law']['kind']}/{st['law']['d']}")
    if not ok and not res.viol:
        res.bad("no-progress", f"calibrations do not complete under this schedule: {s.deadlock}")
        return res.out()
    res.event(log)
    res.nontrivial = res.stats.get("scores compared", 0) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


def shrinks(plan):
    ts = plan["tasks"]
    if len(ts) > 1:
        for i in range(len(ts)):
            yield U.with_(plan, tasks=[ts[i]], dec=None)
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, t in enumerate(ts):
        for c in U.chunks_removed(t, 1):
            yield U.with_(plan, tasks=ts[:i] + [c] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, t in enumerate(ts):
        for j, st in enumerate(t):
            for k, v in (("fault", None), ("turn", None), ("again", False), ("cols", False), ("freq", None), ("where", "here")):
                if k in st and st[k] != v:
                    yield U.with_(plan, tasks=ts[:i] + [t[:j] + [dict(st, **{k: v})] + t[j + 1 :]] + ts[i + 1 :])
            if len(st.get("score", ())) > 1:
                for c in U.chunks_removed(st["score"], 1):
                    yield U.with_(plan, tasks=ts[:i] + [t[:j] + [dict(st, score=c)] + t[j + 1 :]] + ts[i + 1 :])
