"""Recorders of observations driven by simulated clocks (C30).

Every recorder lives in a time zone and wakes up by a schedule of its own: daily, business days, weekly, at starts or ends
of months, quarters or years, or by none of them (every few hours or days, several days a week, in the middle of months,
at random).  It misses a tick when it is down, comes back from a checkpoint that may be a pickle or text, receives
observations late or twice and puts its record in order, and readers ask for the frequency of what was recorded so far
while it grows, some of them interrupted.  The schedules are computed here with calendar arithmetic of their own.
"""
import calendar
import datetime as dt
import io
import pickle
import random
import warnings

import numpy as np
import pandas as pd

from . import core, jobs
from . import util as U
from .replsim import gen_fault, play

CODES = ["D", "B", "W", "ME", "MS", "QE", "QS", "YE", "YS"]
DUR = {"D": 1 / 365, "B": 1 / 252, "W": 7 / 365, "M": 1 / 12, "ME": 1 / 12, "MS": 1 / 12, "Q": 1 / 4, "QE": 1 / 4, "QS": 1 / 4, "Y": 1.0, "YE": 1.0, "YS": 1.0}
ODD = ["2D", "3D", "10D", "28D", "36h", "h", "h6", "BH", "semi", "mid", "threeaweek", "random", "weekend"]
ZONES = [None, None, "UTC", "Europe/Brussels", "America/New_York", "Asia/Tokyo"]
TODS = [[0, 0], [0, 0], [17, 30], [9, 0], [23, 59]]
MODELS = {"BM": ("BrownianMotion", ("drift", "vol")), "GBM": ("GeometricBrownianMotion", ("drift", "vol")), "OU": ("OrnsteinUhlenbeck", ("mean", "mrr", "vol"))}
DAY = dt.timedelta(days=1)


def last(y, m):
    return dt.date(y, m, calendar.monthrange(y, m)[1])


def on(code, d):
    """Whether the schedule has a tick on the day."""
    if code == "D" or code == "W":
        return True
    if code == "B":
        return d.weekday() < 5
    if code[1] == "E" and d != last(d.year, d.month) or code[1] == "S" and d.day != 1:
        return False
    m = (12 if code[1] == "E" else 1)
    return {"M": True, "Q": d.month % 3 == m % 3, "Y": d.month == m}[code[0]]


def following(code, d):
    """The next tick of the schedule after one on the day."""
    if code == "W":
        return d + 7 * DAY
    if code in ("D", "B"):
        d += DAY
        while not on(code, d):
            d += DAY
        return d
    k = {"M": 1, "Q": 3, "Y": 12}[code[0]]
    n = d.year * 12 + d.month - 1 + k
    return last(n // 12, n % 12 + 1) if code[1] == "E" else dt.date(n // 12, n % 12 + 1, 1)


def fits(stamps):
    """The schedules that a complete record follows."""
    if len({s.time() for s in stamps}) != 1:
        return []
    days = [s.date() for s in stamps]
    return [c for c in CODES if on(c, days[0]) and all(following(c, a) == b for a, b in zip(days, days[1:]))]


# ------------------------------------------------------------------ plans
def gen(rng, idx):
    recs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        sched = rng.choice(CODES * 3 + ODD)
        hi = {"YE": 40, "YS": 40}.get(sched, 120) if sched in CODES else 200
        n = rng.choice([rng.randint(2, 14), rng.randint(3, hi), rng.randint(25, max(hi, 30))])
        if sched in ("D", "B") and rng.random() < 0.3:
            n = rng.randint(200, 900)
        recs.append({"sched": sched, "n": n, "start": [rng.randint(1990, 2021), rng.randint(1, 12), rng.randint(1, 31)], "tod": rng.choice(TODS), "tz": rng.choice(ZONES if sched != "h" else [None, "UTC", "Asia/Tokyo"]), "seed": rng.randint(1, 10**6),
                     "box": rng.choice(["series", "frame", "index", "index"]), "name": rng.choice([None, "date", 0]), "freq": rng.random() < 0.2,
                     "lost": rng.randint(1, n - 2) if n >= 30 and rng.random() < 0.4 else None, "dup": rng.choice([0, 0, 0.1, 0.5]), "late": rng.choice([0, 0, 3, 50]),
                     "ckpt": rng.choice([None, None, "pickle", "text"]), "shift": rng.random() < 0.3})
    tasks = []
    for i, r in enumerate(recs):
        qs = []
        for _ in range(rng.randint(1, 5)):
            k = rng.choice([r["n"], r["n"], min(r["n"], rng.randint(2, 12)), rng.randint(2, r["n"])])
            q = {"t": rng.choice(["freq"] * 4 + ["fit"]), "a": rng.randint(0, r["n"] - k) if rng.random() < 0.4 else 0, "k": k, "fault": gen_fault(rng)}
            if q["t"] == "fit":
                q["model"] = rng.choice(list(MODELS))
                q["label"] = rng.random() < 0.6
            qs.append(q)
        qs += [{"t": "dur", "code": rng.choice(list(DUR) + ["h", "XYZ", "", None, "min", "2D", "W-SUN", "QE-DEC", "YS-JAN", "W-WED", "QS-OCT"]), "fault": None} for _ in range(rng.choice([0, 0, 1]))]
        c = rng.choice([1, 1, 2])
        tasks += [[i, qs[t::c]] for t in range(c) if qs[t::c]]
    return {"seed": rng.getrandbits(48), "recs": recs, "tasks": tasks, "gap": rng.choice([3, 15, 60])}


def ticks(r):
    """The ticks of the clock of the recorder, local time."""
    y, m, d = r["start"]
    at = dt.date(y, m, min(d, calendar.monthrange(y, m)[1]))
    t = dt.time(*r["tod"])
    g = random.Random(r["seed"])
    s, n = r["sched"], r["n"]
    out = []
    if s in CODES:
        while not on(s, at):
            at += DAY
        for _ in range(n):
            out.append(dt.datetime.combine(at, t))
            at = following(s, at)
        return out
    if r["shift"]:
        at = g.choice([last(y, 12), last(y, m), dt.date(y, 1, 1), at])
    now = dt.datetime.combine(at, t)
    while len(out) < n:
        if s == "BH":       # business hours
            if now.weekday() < 5 and 9 <= now.hour <= 17:
                out.append(now)
            now += dt.timedelta(hours=1)
        elif s == "semi":
            if now.day in (1, 16):
                out.append(now)
            now += DAY
        elif s == "mid":
            if now.day == 15:
                out.append(now)
            now += DAY
        elif s == "threeaweek":
            if now.weekday() in (0, 2, 4):
                out.append(now)
            now += DAY
        elif s == "weekend":
            if now.weekday() in (5, 6):
                out.append(now)
            now += DAY
        else:
            out.append(now)
            now += {"2D": 2 * DAY, "3D": 3 * DAY, "10D": 10 * DAY, "28D": 28 * DAY, "36h": DAY * 1.5, "h": DAY / 24, "h6": DAY / 4, "random": DAY * g.choice([1, 2, 4, 5, 6, 8, 9, 11, 13, 20, 40])}[s]
    return out


class Recorder:
    def __init__(self, r, res):
        g = random.Random(r["seed"] + 1)
        self.r, self.ticks = r, ticks(r)
        if r["lost"] is not None:
            res.fault("recorder down at a tick")
        kept = [s for i, s in enumerate(self.ticks) if i != r["lost"]]
        self.kept = kept
        msgs = [(i + g.random() * r["late"], i) for i in range(len(kept))]
        twice = [(t + g.random() * 20, i) for t, i in msgs if g.random() < r["dup"]]
        if twice:
            res.fault("observations received twice", len(twice))
        order = [i for _, i in sorted(msgs + twice)]
        if order != sorted(order):
            res.fault("observations received late")
        h = np.random.Generator(np.random.PCG64(r["seed"]))
        self.values = np.exp(np.cumsum(0.02 * h.normal(0, 1, len(kept))) + 1)
        idx = pd.DatetimeIndex([kept[i] for i in order])
        if r["tz"]:
            idx = idx.tz_localize(r["tz"])
        s = pd.Series(self.values[order], index=idx, name="price")
        s = s[~s.index.duplicated()].sort_index()      # the recorder puts its record in order
        if r["ckpt"] == "pickle":
            s = pickle.loads(pickle.dumps(s))
        elif r["ckpt"] == "text":
            b = io.StringIO()
            s.to_csv(b)
            b.seek(0)
            z = pd.read_csv(b, index_col=0)["price"]
            z.index = pd.to_datetime(z.index, utc=True).tz_convert(r["tz"]) if r["tz"] else pd.to_datetime(z.index)
            s = pd.Series(self.values, index=z.index, name="price")
        if r["ckpt"]:
            res.fault("recorder restarted from a checkpoint: " + r["ckpt"])
        s.index.name = r["name"]
        self.series = s

    def part(self, q):
        """What was recorded when the reader asks, in the container of the recorder; None when not complete."""
        s = self.series.iloc[q["a"] : q["a"] + q["k"]].copy()
        st = self.kept[q["a"] : q["a"] + q["k"]]
        if self.r["freq"]:
            f = pd.infer_freq(s.index) if len(s) > 2 else None
            if f:
                s.index.freq = f
        return {"series": s, "frame": s.to_frame(), "index": s.index}[self.r["box"]], s, st

    def codes(self, st):
        """What the record may be reported as; None: not decided by the property."""
        if len(st) < 3:
            return [None]
        c = fits(st)
        if c:
            return c
        if self.r["sched"] in CODES:
            return fits(self.ticks) if len(st) >= 28 else None     # one tick of many is missing
        return [None] if len(st) >= 12 else None


def run(plan):
    res = U.Res()
    jobs.reset(seed=plan["seed"], workers=1)
    core.monitor(core.E.LINE)
    warnings.simplefilter("ignore")
    import quantfinlib.sim as S
    from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration

    recs = [Recorder(r, res) for r in plan["recs"]]
    data, want = {}, {}
    for i, qs in plan["tasks"]:
        res.kind(f"{plan['recs'][i]['sched']} in {plan['recs'][i]['tz'] or 'local time'}")
        for q in qs:
            if q["t"] == "dur":
                continue
            x, s, st = recs[i].part(q)
            want[id(q)] = codes = recs[i].codes(st)
            data[id(q)] = (x, s, st)
            if q["t"] == "fit" and len(st) > 2 and fits(st):
                want[id(q)] = [(c, params(S, q, s.to_numpy(), DUR[c])) for c in codes]

    def ask(i, q):
        if q["t"] == "dur":
            return time_series_freq_to_duration(q["code"])
        x, s, st = data[id(q)]
        if q["t"] == "freq":
            return time_series_freq(x)
        if len(st) < 3 or not fits(st):
            return None
        m = getattr(S, MODELS[q["model"]][0])()
        m.fit(s.to_frame() if plan["recs"][i]["box"] == "frame" else s)
        out = [np.asarray(getattr(m, n), float).ravel() for n in MODELS[q["model"]][1]]
        lab = None
        if q["label"]:
            lab = list(m.path_sample(x0=1.0, num_steps=min(len(st), 60), random_state=1).index)
        return out, lab

    got, s = play(plan, res, plan["tasks"], ask, None)
    if res.viol:
        return res.out()
    for at, i, q, v in got:
        r = plan["recs"][i]
        msg = None
        if q["t"] == "dur":
            res.stat("durations compared")
            e = DUR.get(q["code"].split("-")[0]) if q["code"] else None
            if isinstance(v, Exception) or v != e:
                msg = f"duration of {q['code']!r}: {v!r}, not {e!r}"
        else:
            x, rec, st = data[id(q)]
            what = f"{q['t']} of {len(st)} observations from {st[0]} on, {r['sched']} schedule in {r['tz'] or 'local time'}, {r['box']}{', one tick missing' if r['lost'] is not None else ''}"
            w = want[id(q)]
            if isinstance(v, Exception) and (q["t"] == "freq" or len(st) > 2):
                msg = f"{what}: raises {v!r}"
            elif q["t"] == "freq":
                if w is not None:
                    res.stat("frequencies compared")
                    res.event(i, len(st), v)
                    if v not in w:
                        msg = f"{what}: reported as {v!r}, not {' or '.join(map(repr, w))}"
            elif v is not None:
                res.stat("time steps of fits compared")
                p, lab = v
                ok = [c for c, e in w if all(np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True) for a, b in zip(p, e))]
                res.event(i, len(st), ok)
                if not ok:
                    msg = f"{what}: {q['model']} parameters {[a.tolist() for a in p]}, with the time step of {' or '.join(c for c, _ in w)} they are {[[b.tolist() for b in e] for _, e in w]}"
                elif lab is not None:
                    res.stat("labels of paths compared")
                    z = [t.tz_localize(None).to_pydatetime() if t.tzinfo else t.to_pydatetime() for t in lab]
                    if z[0] != st[0] or not set(fits(z)) & {c for c, _ in w}:
                        msg = f"{what}: paths labelled {z[:4]}.."
        if msg:
            res.bad("frequency", msg)
            return res.out()
    res.nontrivial = sum(n for k, n in res.stats.items() if "compared" in k) > 0
    res.sigs = [s.sig, res.log]
    return res.out()


def params(S, q, x, step):
    m = getattr(S, MODELS[q["model"]][0])()
    m.fit(x, step)
    return [np.asarray(getattr(m, n), float).ravel() for n in MODELS[q["model"]][1]]


def shrinks(plan):
    ts = plan["tasks"]
    for i in range(len(ts)):
        if len(ts) > 1:
            yield U.with_(plan, tasks=[ts[i]], dec=None)
            yield U.with_(plan, tasks=ts[:i] + ts[i + 1 :])
    for i, (r, qs) in enumerate(ts):
        for c in U.chunks_removed(qs, 1):
            yield U.with_(plan, tasks=ts[:i] + [[r, c]] + ts[i + 1 :])
        for j, q in enumerate(qs):
            if q.get("fault"):
                yield U.with_(plan, tasks=ts[:i] + [[r, qs[:j] + [dict(q, fault=None)] + qs[j + 1 :]]] + ts[i + 1 :])
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
    for i, r in enumerate(plan["recs"]):
        for k, v in (("lost", None), ("dup", 0), ("late", 0), ("ckpt", None), ("tz", None), ("tod", [0, 0]), ("name", None), ("freq", False)):
            if r[k] != v:
                yield U.with_(plan, recs=plan["recs"][:i] + [dict(r, **{k: v})] + plan["recs"][i + 1 :])
