"""C03: library calls leave process-wide state as they found it, however they end."""
import gc
import importlib
import os
import random
import sys

import numpy as np

from .. import boot, core, hist, jobs, procstate
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C03"


def gen(rng, tier, idx):
    r = rng.random()
    if idx % 40 == 7:
        mods = boot.library_modules()
        rng.shuffle(mods)
        return {"seed": rng.getrandbits(48), "mode": "import", "mods": mods[: rng.randint(3, len(mods))]}
    p = hist.gen(rng, idx, fp=0.45)
    if rng.random() < 0.5:          # the answers are not judged here, so unseeded calls are welcome
        for st in p["steps"]:
            if st["t"] == "call" and "random_state" in st["op"]["a"] and rng.random() < 0.6:
                del st["op"]["a"]["random_state"]
    if r < 0.3:
        p["mode"] = "thread"
        p["steps"] = [s for s in p["steps"] if s["t"] == "call"][:5]
        p["gap"] = rng.choice([2, 4, 10])
        p["draws"] = rng.choice([20, 60])
        p["callers"] = rng.choice([1, 2, 2, 3])
        if p["callers"] > 1 and rng.random() < 0.6:      # overlapping calls of one kind
            p["steps"] = [C.deep(s) for s in p["steps"][:2] for _ in range(p["callers"])]
    else:
        p["mode"] = "calls"
    p["app"] = {"np": rng.randint(0, 99), "py": rng.randint(0, 99), "err": rng.choice([None, "raise", "ignore"]), "filter": rng.random() < 0.3}
    p["app"]["own"] = [k for k in sorted(OWN) if rng.random() < 0.3]
    return p


def _own_pandas():
    import pandas as pd

    pd.set_option("mode.chained_assignment", None)
    pd.set_option("display.max_rows", 7)
    pd.set_option("display.precision", 3)
    pd.set_option("compute.use_bottleneck", False)
    pd.set_option("future.infer_string", False)


def _own_warnings():
    import warnings

    warnings.simplefilter("always", UserWarning)
    warnings.simplefilter("ignore", RuntimeWarning)


def _own_gc():
    gc.set_threshold(500, 7, 7)


def _own_limits():
    sys.setrecursionlimit(1777)
    sys.setswitchinterval(0.004)


def _own_logging():
    import logging

    logging.root.setLevel(logging.ERROR)
    logging.root.addHandler(logging.NullHandler())
    logging.getLogger("quantfinlib").setLevel(logging.ERROR)
    logging.getLogger("quantfinlib.sim").addHandler(logging.NullHandler())


def _own_numpy():
    np.set_printoptions(threshold=17, suppress=True, linewidth=60)
    np.setbufsize(16384)
    np.seterrcall(lambda *a: None)


def _own_env():
    os.environ["QF_APPLICATION"] = "1"
    os.environ["OMP_NUM_THREADS"] = "3"
    os.environ["JOBLIB_TEMP_FOLDER"] = "/tmp"
    os.environ["PYTHONWARNINGS"] = "default"
    os.umask(0o027)


def _own_decimal():
    import decimal

    decimal.getcontext().prec = 9


def _own_sklearn():
    import sklearn

    sklearn.set_config(assume_finite=True)


OWN = {"pandas": _own_pandas, "warnings": _own_warnings, "gc": _own_gc, "limits": _own_limits, "logging": _own_logging, "numpy": _own_numpy, "env": _own_env, "decimal": _own_decimal, "sklearn": _own_sklearn}


def _stdout():
    """Standard output goes to a memory file from here on."""
    fd = os.memfd_create("stdout")
    os.dup2(fd, 1)
    os.close(fd)
    sys.stdout = sys.__stdout__ = os.fdopen(1, "w", closefd=False)


def _written():
    try:
        sys.stdout.flush()
    except Exception:
        pass
    return os.lseek(1, 0, os.SEEK_END)


def _text():
    return os.pread(1, 300, 0).decode(errors="replace")


def _app_setup(app):
    """The application's own settings, which must survive."""
    import warnings

    np.random.seed(app["np"])
    np.random.standard_normal(3)          # leaves a half-used gaussian pair behind
    random.seed(app["py"])
    if app["err"]:
        np.seterr(divide=app["err"] if app["err"] != "raise" else "warn", under="ignore", over="warn")
        np.set_printoptions(precision=5)
    if app["filter"]:
        warnings.filterwarnings("ignore", message="simulated application filter")
    for k in app.get("own", ()):
        OWN[k]()


def _run_import(plan, res):
    _stdout()
    boot.purge_library()
    before = procstate.snapshot()
    for m in plan["mods"]:
        importlib.import_module(m)
        res.kind("import " + m)
        after = procstate.snapshot()
        bad = procstate.diff(before, after, ignore_own_loggers=True)
        res.event(m, bad)
        if bad:
            gc.collect()
            after = procstate.snapshot()
            bad = procstate.diff(before, after, ignore_own_loggers=True)
        if bad:
            res.bad("import", f"importing {m} changed {procstate.explain(before, after, bad[0])}")
            break
        if _written():
            res.bad("import", f"importing {m} printed {_text()!r}")
            break
    res.nontrivial = True
    res.fault("library imported in another order")
    return res.out()


def _judge(res, before, label, how):
    after = procstate.snapshot()
    bad = procstate.diff(before, after)
    if bad:
        gc.collect()
        after = procstate.snapshot()
        bad = procstate.diff(before, after)
    if bad:
        res.bad("state", f"{label} ({how}) changed {procstate.explain(before, after, bad[0])}")
    elif _written():
        res.bad("stdout", f"{label} ({how}) printed {_text()!r}")
    return res.viol is not None


def _run_calls(plan, res):
    exp = hist.expectations(plan, res)
    jobs.reset(seed=plan["seed"], **plan["hub"])
    core.monitor(core.E.LINE | core.E.CALL)
    _stdout()
    _app_setup(plan["app"])
    app = hist.App(plan)
    n = 0
    if _written():
        res.bad("stdout", f"building the objects printed {_text()!r}")
        return res.out()
    for i, st in enumerate(plan["steps"]):
        if st["t"] != "call":
            app.edit(st)
            continue
        want, counts, op = exp[i]
        th, _ = app.prepare(st)
        before = procstate.snapshot()
        with app.injector(st, counts) as inj:
            _, got = U.outcome(th)
        th = None
        how = f"cut short by {inj.fired}" if inj.fired else ("rejected with " + got[1] if U.is_exc(got) else "completed")
        if inj.fired:
            res.fault(inj.fired.split("@")[0])
        elif U.is_exc(got):
            res.stat("rejected calls")
        res.event(i, inj.fired, V.digest(got))
        n += 1
        if _judge(res, before, U.brief(op), how):
            break
    res.stat("calls", n)
    res.nontrivial = n > 0
    return res.out()


def _run_thread(plan, res):
    """An application thread draws from the global generators while the calls run."""
    exp = hist.expectations(plan, res)
    jobs.reset(seed=plan["seed"], **plan["hub"])
    core.monitor(core.E.LINE)
    _stdout()
    _app_setup(plan["app"])
    app = hist.App(plan)
    prep = [app.prepare(st)[0] for st in plan["steps"]]
    nd = plan["draws"]
    snp, spy = np.random.get_state(), random.getstate()

    def draws():
        return [(round(float(np.random.random()), 15), round(random.random(), 15), round(float(np.random.standard_normal()), 12)) for _ in range(nd)]

    want = draws()
    np.random.set_state(snp)
    random.setstate(spy)
    got = []
    nc = plan.get("callers", 1)
    live = [nc]
    before = procstate.snapshot()

    def caller(i):
        def go():
            for th in prep[i::nc]:
                U.outcome(th)
            live[0] -= 1

        return go

    def drawer():
        s, t = core.current_task()
        for _ in range(nd):
            got.append((round(float(np.random.random()), 15), round(random.random(), 15), round(float(np.random.standard_normal()), 12)))
            if live[0]:
                s.yield_now(t)

    rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
    s = core.Sched([caller(i) for i in range(nc)] + [drawer], rng=rng, gap=plan["gap"], decisions=plan.get("dec"))
    ok = s.run()
    res.rec = {"dec": s.rec} if rng is not None else None
    res.stat("scheduler_steps", s.steps)
    res.stat("context_switches", s.nswitch)
    res.inter = s.sig
    res.nontrivial = s.nswitch > 0
    res.fault("application thread drawing during calls", nd)
    if not ok:
        res.bad("no-progress", f"{s.deadlock}")
        return res.out()
    for i in range(nd):
        if got[i] != want[i]:
            res.bad("stream", f"draw {i} of another thread during {[U.brief(e[2]) for e in exp if e][:3]} was disturbed: undisturbed {want[i]} got {got[i]}")
            return res.out()
    # the streams the application has consumed are its own doing
    after = procstate.snapshot()
    bad = [k for k in procstate.diff(before, after) if k not in ("numpy.random", "random")]
    if bad:
        res.bad("state", f"concurrent calls changed {procstate.explain(before, after, bad[0])}")
    elif _written():
        res.bad("stdout", f"concurrent calls printed {_text()!r}")
    res.event(s.sig)
    return res.out()


def run(plan):
    res = U.Res()
    if plan["mode"] == "import":
        return _run_import(plan, res)
    if plan["mode"] == "thread":
        return _run_thread(plan, res)
    return _run_calls(plan, res)


def shrinks(plan):
    if plan["mode"] == "import":
        for c in U.chunks_removed(plan["mods"], 1):
            yield U.with_(plan, mods=c)
        return
    yield from hist.shrinks(plan)
    if plan.get("dec"):
        for d in U.dict_removed(plan["dec"]):
            yield U.with_(plan, dec=d)
