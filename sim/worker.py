"""A simulation worker: imports the library once, stays pristine, forks one child per run."""
import importlib
import json
import os
import random
import sys
from time import monotonic as _now        # bound before the simulated clock is installed

from . import boot


def _load():
    import numpy, pandas, scipy.stats, scipy.cluster.hierarchy, scipy.spatial.distance, scipy.linalg  # noqa: F401,E401
    import sklearn.metrics, joblib, gzip, inspect, logging, logging.config  # noqa: F401,E401
    import numpy.linalg, concurrent.futures, multiprocessing  # noqa: F401,E401

    from . import core, jobs

    core.patch_locks()
    jobs.install()
    boot.install()
    for m in boot.library_modules():
        importlib.import_module(m)


def _warm():
    import warnings

    import numpy as np
    import pandas as pd
    from scipy.stats import multivariate_normal, norm, t

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = pd.Series(np.arange(10.0) + 1, index=pd.date_range("2020-01-01", periods=10))
        s.rolling(3).mean(), s.ewm(span=3).mean(), s.ewm(span=3).std(), s.rolling(3).cov(s.shift(1)), s.rolling(3).std(), s.rolling(2).max()
        pd.infer_freq(s.index)
        pd.concat([s, s], axis=1).max(axis=1)
        pd.DataFrame({"a": s, "b": s * 2}).corr(method="spearman")
        norm(loc=0, scale=1).logpdf(np.arange(3.0)), multivariate_normal(mean=[0, 0], cov=np.eye(2)).logpdf(np.zeros((3, 2)))
        t.cdf(np.arange(3.0), df=0.25)
        np.linalg.cholesky(np.eye(2)), np.corrcoef(np.arange(6.0).reshape(3, 2) ** 2, rowvar=False)
        np.histogram2d(np.arange(5.0), np.arange(5.0), 3)
        g = np.random.Generator(np.random.PCG64(1))
        g.normal(size=3)
        import gzip, io  # noqa: E401

        b = gzip.compress(b"d,a\n2020-01-01,1.0\n2020-01-02,2.0\n")
        pd.read_csv(gzip.open(io.BytesIO(b), mode="rt"), index_col=0, parse_dates=True)
        from sklearn.metrics import silhouette_samples

        silhouette_samples(np.abs(np.subtract.outer(np.arange(4.0), np.arange(4.0))), np.array([0, 0, 1, 1]), metric="precomputed")
        from scipy.cluster import hierarchy

        hierarchy.cut_tree(hierarchy.linkage(np.array([1.0, 2.0, 3.0]), "ward"), 2)
        from scipy.linalg import logm

        logm(np.eye(2))


def seed_of(seed, prop, idx):
    import hashlib

    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{idx}".encode()).digest()[:8], "big")


def child(prop, req):
    from . import forks

    forks.quiet_std()
    boot.shim.private()
    if "plan" in req:
        plan = req["plan"]
    else:
        rng = random.Random(seed_of(req["seed"], prop.ID, req["idx"]))
        plan = prop.gen(rng, req["tier"], req["idx"])
        plan = json.loads(json.dumps(plan))
    boot.shim.clock(1, 1_600_000_000_000_000_000 + (plan.get("seed", 0) % 1000) * 86_400_000_000_000, 1000)
    boot.shim.entropy(1, plan.get("seed", 1))
    res = prop.run(plan)
    if res.get("viol") or req.get("want_plan"):
        rec = res.pop("rec", None)
        if rec:
            plan = dict(plan, **rec)
        res["plan"] = plan
    else:
        res.pop("rec", None)
    return res


def run_once(prop, req, timeout=150):
    from . import forks

    try:
        return forks.fork_call(child, prop, req, timeout=timeout)
    except forks.ChildDied as e:
        return {"error": str(e)[-2500:], "idx": req.get("idx")}


def shrink(prop, plan, cls, budget_s):
    """Greedy minimisation: keep any smaller plan with the same violation class."""
    end = _now() + budget_s
    best, tries = plan, 0
    size = lambda p: len(json.dumps(p))  # noqa: E731
    progress = True
    while progress and _now() < end:
        progress = False
        for cand in prop.shrinks(best):
            if _now() > end:
                break
            if size(cand) >= size(best):
                continue
            tries += 1
            r = run_once(prop, {"plan": cand}, 60)
            v = r.get("viol")
            if v and v["cls"] == cls:
                best = r.get("plan", cand)
                if size(best) > size(cand):
                    best = cand
                progress = True
                break
    return best, tries


def main():
    pid = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    try:
        _load()
        _warm()
        prop = importlib.import_module("sim.props." + pid.lower())
        if hasattr(prop, "setup"):
            prop.setup()
    except BaseException as e:  # noqa: BLE001
        import traceback

        out.write(json.dumps({"fatal": traceback.format_exc()[-3000:], "exc": type(e).__name__}) + "\n")
        return
    out.write(json.dumps({"ready": True}) + "\n")
    for line in sys.stdin:
        req = json.loads(line)
        if req["cmd"] == "quit":
            break
        if req["cmd"] == "runs":
            res = []
            for i in req["idxs"]:
                r = run_once(prop, {"seed": req["seed"], "tier": req["tier"], "idx": i, "want_plan": i in req.get("want", ())})
                r["idx"] = i
                res.append(r)
                if r.get("viol"):
                    break
            out.write(json.dumps({"runs": res}) + "\n")
        elif req["cmd"] == "plan":
            out.write(json.dumps({"run": run_once(prop, {"plan": req["plan"]})}) + "\n")
        elif req["cmd"] == "shrink":
            p, n = shrink(prop, req["plan"], req["cls"], req["budget"])
            out.write(json.dumps({"plan": p, "tries": n}) + "\n")


if __name__ == "__main__":
    main()
