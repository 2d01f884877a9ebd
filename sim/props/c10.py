"""C10: dataset loads are all-or-nothing under storage faults."""
import csv
import errno
import gc
import gzip
import io
import logging
import os
import random
import shutil
import sys
import tempfile
import warnings

import numpy as np
import pandas as pd

from .. import boot, core, forks, procstate
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C10"
DS = {
    "load_vix": ("vix_ohlc.csv.gz", {}),
    "load_treasury_rates": ("daily_treasury_rates.csv.gz", {f"{k} Mo": f"{k}m" for k in (1, 2, 3, 4, 6)} | {f"{k} Yr": f"{k}y" for k in (1, 2, 3, 5, 7, 10, 20, 30)}),
    "load_equity_indices": ("multi_index_close.csv.gz", {}),
}
NAMES = sorted(DS)
SIZE = {}
TRUE = {}          # loader -> (columns, dates, values) parsed independently
REF = {}           # loader -> frame of a clean load in a fresh process (or text of what is wrong)


def _lib(name):
    return C.lib("datasets", name)


def _parse(name):
    fn, ren = DS[name]
    raw = open(os.path.join(boot.REPO, "quantfinlib", "datasets", "resources", fn), "rb").read()
    SIZE[name] = len(raw)
    rows = list(csv.reader(io.StringIO(gzip.decompress(raw).decode())))
    cols = [ren.get(c, c) for c in rows[0][1:]]
    dates = np.array([r[0] for r in rows[1:] if r], dtype="datetime64[ns]")
    vals = np.array([[float(x) if x.strip() else np.nan for x in r[1:]] for r in rows[1:] if r])
    return cols, dates, vals


class Place:
    """A home, temporary and working directory of the simulated application's own, new for every run."""

    VARS = ("TMPDIR", "TEMP", "TMP", "HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "JOBLIB_TEMP_FOLDER")

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-place-")
        self.old = (tempfile.tempdir, os.getcwd(), {k: os.environ.get(k) for k in self.VARS})
        tempfile.tempdir = self.dir
        os.environ.update({k: self.dir for k in self.VARS})
        os.chdir(self.dir)
        return self

    def files(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.dir) for d, _, fs in os.walk(self.dir) for f in fs)

    def __exit__(self, *a):
        tempfile.tempdir = self.old[0]
        os.chdir(self.old[1])
        for k, v in self.old[2].items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def _clean(name):
    with Place():
        return _lib(name)()


def setup():
    for n in NAMES:
        TRUE[n] = _parse(n)
        try:
            REF[n] = forks.fork_call(_clean, n)
        except forks.ChildDied as e:
            REF[n] = f"a load without faults fails: {str(e)[-300:]}"


def _wrong(name, df):
    """Difference between a returned table and the stored one, or None."""
    if not isinstance(df, pd.DataFrame):
        return f"returned {type(df).__name__}"
    cols, dates, vals = TRUE[name]
    if list(df.columns) != cols:
        return f"columns {list(df.columns)[:8]}... ({df.shape[1]}) instead of {cols[:8]}... ({len(cols)})"
    if df.shape[0] != len(dates):
        return f"{df.shape[0]} rows instead of {len(dates)}"
    if not isinstance(df.index, pd.DatetimeIndex) or not np.array_equal(df.index.to_numpy(), dates):
        return "the dates differ from the stored ones"
    try:
        x = df.to_numpy(dtype=float)
    except (TypeError, ValueError):
        return f"column types {sorted(set(map(str, df.dtypes)))}"
    if not np.allclose(x, vals, rtol=1e-12, atol=0, equal_nan=True):
        return f"{int((~np.isclose(x, vals, rtol=1e-12, atol=0, equal_nan=True)).sum())} values differ from the stored ones"
    ref = REF[name]
    if isinstance(ref, str):
        return ref
    d = V.diff(V.canon(ref), V.canon(df), True)
    return f"differs from a clean load: {d}" if d else None


# ------------------------------------------------------------------ plans
def _offset(rng, size):
    r = rng.random()
    if r < 0.15:
        return rng.randint(0, 20)
    if r < 0.35:
        return size - rng.randint(1, 12)
    return rng.randint(0, size - 1)


def _rule(rng, name, loads):
    size = SIZE[name]
    k = rng.choice(["read", "read", "eof", "eof", "eof", "flip", "flip", "flip", "zero", "short", "eintr", "open", "open", "stat", "vanish"])
    r = {"sub": DS[name][0]}
    lo = rng.randint(1, max(1, loads))
    r["open_lo"], r["open_hi"] = (lo, lo) if rng.random() < 0.6 else (lo, lo + rng.randint(1, 3))
    if k == "read":
        r["read_errno"], r["read_at"] = rng.choice([errno.EIO, errno.EIO, errno.ESTALE, errno.EBADF, errno.ENOMEM]), rng.choice([0, _offset(rng, size), _offset(rng, size), size])
        if rng.random() < 0.3:
            r["read_times"] = 1          # transient
    elif k == "eof":
        r["eof_at"] = _offset(rng, size)
    elif k == "flip":
        r["flips"] = [[_offset(rng, size), 1 << rng.randint(0, 7) if rng.random() < 0.7 else rng.randint(1, 255)] for _ in range(rng.choice([1, 1, 2, 5]))]
    elif k == "zero":
        r["zero_at"], r["zero_len"] = (size // 4096 and rng.randint(0, size // 4096)) * 4096, rng.choice([512, 4096, 16384])
    elif k == "short":
        r["short_max"] = rng.choice([1000, 4097, 30000])
    elif k == "eintr":
        r["eintr"] = rng.choice([2, 3, 5])
    elif k == "open":
        r["open_errno"] = rng.choice([errno.EMFILE, errno.ENFILE, errno.EACCES, errno.EIO, errno.ENOENT, errno.EISDIR, errno.ELOOP])
    elif k == "vanish":
        r["open_errno"] = errno.ENOENT
    else:
        r["stat_errno"], r["stat_lo"] = rng.choice([errno.ENOENT, errno.ENOENT, errno.EACCES, errno.EIO]), lo
        r["stat_hi"] = r["open_hi"]
        r["open_lo"], r["open_hi"] = (lo, r["open_hi"]) if rng.random() < 0.5 else (1 << 29, 1 << 29)
        if r["open_lo"] == lo:
            r["open_errno"] = errno.ENOENT
    if k in ("read", "eof") and rng.random() < 0.3:
        r["short_max"] = rng.choice([1000, 4097, 30000])
    r["k"] = k
    return r


SCR = ["nan", "drop", "sort", "add", "name", "index", "scale", "trunc"]


def gen(rng, tier, idx):
    foc = NAMES[idx % 3]
    n = rng.choice([1, 2, 2, 3, 4])
    steps = []
    for _ in range(n):
        steps.append({"t": "load", "f": foc if rng.random() < 0.75 else rng.choice(NAMES)})
        if rng.random() < 0.4:
            steps.append({"t": "scribble", "how": rng.choice(SCR), "i": rng.randint(0, 9)})
    if rng.random() < 0.2:
        s = rng.choice([s for s in steps if s["t"] == "load"])
        s["fault"] = {"kind": rng.choice(["line", "line", "call"]), "u": round(rng.random(), 4), "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "ValueError"])}
    plan = {"seed": rng.getrandbits(48), "steps": steps, "rules": [], "info": rng.random() < 0.5}
    if rng.random() < 0.9:
        plan["rules"].append(_rule(rng, foc, sum(s.get("f") == foc for s in steps)))
        if rng.random() < 0.2:
            plan["rules"].append(_rule(rng, rng.choice([x for x in NAMES if x != foc]), 1))
    if rng.random() < 0.3:            # files the library writes itself, if it does
        plan["rules"].append({"sub": "#own", "k": "own", **rng.choice([{"write_errno": errno.ENOSPC, "write_at": rng.choice([0, 1, 1000, 100_000])}, {"write_short": 100, "write_errno": errno.EIO, "write_at": 5000, "write_times": 1},
                                                                       {"open_errno": rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC]), "open_lo": 1, "open_hi": rng.choice([1, 2, 9])}, {"eof_at": rng.choice([0, 1000, 100_000])}])})
    if rng.random() < 0.35:
        plan["threads"] = rng.choice([2, 2, 3])
        plan["gap"] = rng.choice([1, 2, 5])
        for s in steps:
            s.pop("fault", None)
        while sum(s["t"] == "load" for s in steps) < plan["threads"]:
            steps.append({"t": "load", "f": foc})
    return plan


# ------------------------------------------------------------------ execution
def _counts(name):
    core.monitor(core.E.LINE | core.E.CALL)
    with Place(), core.Injector() as inj:
        try:
            _lib(name)()
        except Exception:  # noqa: BLE001
            pass
    return dict(inj.counts)


def _scribble(df, how):
    """What a caller may do to a table it was given."""
    if how == "nan":
        df.iloc[: max(1, len(df) // 2), 0] = np.nan
    elif how == "drop":
        df.drop(columns=df.columns[-1], inplace=True)
    elif how == "sort":
        df.sort_index(ascending=False, inplace=True)
    elif how == "add":
        df["SIMULATED"] = 1.0
    elif how == "name":
        df.columns = [str(c).lower() for c in df.columns]
    elif how == "index":
        df.reset_index(inplace=True)
    elif how == "scale":
        v = df.to_numpy(copy=False)
        if v.flags.writeable and v.dtype.kind == "f":
            v *= 2.0
        df *= 3.0
    else:
        df.drop(index=df.index[10:], inplace=True)


LABEL = {"f_write": "write error", "f_wshort": "short write", "f_stat": "stat fails", "f_open": "open fails", "f_read": "read error", "f_eof": "file ends early", "f_short": "short read", "f_eintr": "interrupted read", "f_flip": "altered bytes"}


def run(plan):
    with Place() as place:
        return _run(plan, place)


def _run(plan, place):
    res = U.Res()
    oc = {i: forks.fork_call(_counts, s["f"]) for i, s in enumerate(plan["steps"]) if s.get("fault")}
    lg = logging.getLogger("quantfinlib")
    if plan.get("info"):
        lg.addHandler(logging.NullHandler())
        lg.setLevel(logging.INFO)
        lg.propagate = False
    unclosed = []
    warnings.simplefilter("always", ResourceWarning)
    warnings.showwarning = lambda m, c, *a, **k: unclosed.append(str(m)) if issubclass(c, ResourceWarning) else None
    sys.unraisablehook = lambda u: unclosed.append(f"{u.exc_type.__name__}: {u.exc_value}")
    gc.collect()
    unclosed.clear()
    boot.shim.no_storage()
    held = []          # every outcome is kept, so files that only the garbage collector would close are seen
    fds0 = procstate.fds()
    rules = boot.shim.storage([dict({k: v for k, v in r.items() if k != "k"}, sub=r["sub"] if r["sub"] != "#own" else place.dir) for r in plan["rules"]])

    def hits():
        return {k: sum(getattr(r, k) for r in rules) for k in LABEL}

    def load(i, s, alone):
        a = sum(hits().values())
        inj = core.Injector()
        if s.get("fault"):
            ft = s["fault"]
            inj = core.Injector(ft["kind"], 1 + int(ft["u"] * oc[i].get(ft["kind"], 0)), ft["exc"])
        df, exc = None, None
        try:
            with inj:
                df = _lib(s["f"])()
        except BaseException as e:  # noqa: BLE001
            exc = e
        faulty = sum(hits().values()) > a or inj.fired or not alone
        if inj.fired:
            res.fault("fault in library code: " + inj.exc)
        held.append((s["f"], df, exc))
        what = f"step {i} {s['f']}()"
        res.kind(s["f"])
        if exc is not None:
            res.stat("loads that raised")
            if isinstance(exc, core.SimDeadlock):
                res.bad("no-progress", f"{what} never returns: {exc}")
            elif not (faulty and rules) and not inj.fired:
                res.bad("raises", f"{what}: {type(exc).__name__}: {exc} although no fault was injected during this load")
        else:
            res.stat("loads that returned")
            w = _wrong(s["f"], df)
            if w:
                res.bad("altered", f"{what} returned a wrong table: {w}; faults so far: { {LABEL[k]: v for k, v in hits().items() if v} } {inj.fired or ''} rules {plan['rules']}")
        if alone:
            f = procstate.fds()
            if f != fds0:
                res.bad("leak", f"{what} {'raised ' + type(exc).__name__ if exc else 'returned'} and left files open: {[x for x in f if x not in fds0]}")
            if unclosed:
                res.bad("leak", f"{what} did not close a file: {unclosed[0]}")
        res.event(i, type(exc).__name__, tuple(hits().values()))
        return df

    def step(i, s, alone):
        if s["t"] == "load":
            load(i, s, alone)
        else:
            ok = [h for h in held if h[1] is not None]
            if ok:
                name, df, _ = ok[s["i"] % len(ok)]
                try:
                    _scribble(df, s["how"])
                    res.stat("earlier results edited")
                except Exception:  # noqa: BLE001 - an already edited table may not allow this edit
                    pass

    if plan.get("threads"):
        core.monitor(core.E.LINE)
        nt = plan["threads"]

        def task(k):
            def body():
                for i, s in enumerate(plan["steps"]):
                    if i % nt == k and not res.viol:
                        step(i, s, False)

            return body

        rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
        s = core.Sched([task(k) for k in range(nt)], rng=rng, gap=plan["gap"], decisions=plan.get("dec"))
        ok = s.run()
        res.rec = {"dec": s.rec} if rng is not None else None
        res.inter = s.sig
        res.stat("context_switches", s.nswitch)
        if not ok:
            res.bad("no-progress", f"concurrent loads do not complete: {s.deadlock}")
            return res.out()
    else:
        core.monitor(core.E.LINE | core.E.CALL)
        for i, s in enumerate(plan["steps"]):
            step(i, s, True)
            if res.viol:
                break
    for k, v in hits().items():
        if v:
            res.fault(LABEL[k], v)
    res.nontrivial = bool(sum(hits().values()) or res.faults or res.stats.get("context_switches") or res.stats.get("earlier results edited"))
    boot.shim.no_storage()
    core.monitor(0)
    if place.files():
        res.stat("files written by the library", len(place.files()))
    if not res.viol:
        f = procstate.fds()
        if f != fds0:
            res.bad("leak", f"files left open: {[x for x in f if x not in fds0]}")
        for n in NAMES:          # the faults are over: loading works
            if n not in {s.get("f") for s in plan["steps"]} and random.Random(plan["seed"]).random() < 0.7:
                continue
            df = None
            try:
                df = _lib(n)()
                w = None
            except BaseException as e:  # noqa: BLE001
                w = f"{type(e).__name__}: {e}"
            w = w or _wrong(n, df)
            res.stat("loads after the faults")
            if w:
                res.bad("later-load", f"{n}() after the faults ended: {w}; history {plan['steps']} rules {plan['rules']}")
                break
        if unclosed and not res.viol:
            res.bad("leak", f"a file was not closed: {unclosed[0]}")
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
    for c in U.chunks_removed(plan["rules"], 0):
        yield U.with_(plan, rules=c)
    if plan.get("info"):
        yield U.with_(plan, info=False)
    for i, s in enumerate(plan["steps"]):
        if s.get("fault"):
            yield U.with_(plan, steps=plan["steps"][:i] + [{k: v for k, v in s.items() if k != "fault"}] + plan["steps"][i + 1 :])
    for i, r in enumerate(plan["rules"]):
        if len(r.get("flips", ())) > 1:
            for f in r["flips"]:
                yield U.with_(plan, rules=plan["rules"][:i] + [dict(r, flips=[f])] + plan["rules"][i + 1 :])
        if r["k"] != "short" and r.get("short_max"):
            yield U.with_(plan, rules=plan["rules"][:i] + [{k: v for k, v in r.items() if k != "short_max"}] + plan["rules"][i + 1 :])
    if plan.get("threads"):
        yield {k: v for k, v in plan.items() if k not in ("threads", "gap", "dec")}
        for d in U.dict_removed(plan.get("dec") or {}):
            yield U.with_(plan, dec=d)
