"""Drives simulation workers, minimises and reports violations, writes evidence."""
import hashlib
import json
import os
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(ROOT, "known_findings.json")


def ensure_shim():
    src, dst = os.path.join(ROOT, "sim", "shim.c"), os.path.join(ROOT, "build", "shim.so")
    if os.path.exists(dst) and os.path.getmtime(dst) >= os.path.getmtime(src):
        return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = f"{dst}.{os.getpid()}"
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
    os.replace(tmp, dst)
    return dst


LOCALES = ("de_DE.UTF-8", "tr_TR.UTF-8", "fa_IR.UTF-8")


def ensure_locales():
    """Compile a few locales (comma decimals, dotless i, other digits) into the build folder; returns their folder."""
    d = os.path.join(ROOT, "build", "locale")
    for name in LOCALES:
        dst = os.path.join(d, name)
        if os.path.isdir(dst):
            continue
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f"tmp{os.getpid()}")
        try:
            subprocess.run(["localedef", "-i", name.split(".")[0], "-f", "UTF-8", tmp], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            os.rename(tmp, dst)
        except Exception:  # noqa: BLE001 - then only the built-in locales are used
            pass
    return d


def worker_env(hashseed="0"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_SEED", "VERIF_TIER"))}
    e.update(
        LD_PRELOAD=ensure_shim(), PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", TZ="UTC", PYTHONPATH=ROOT, PYTHONWARNINGS="ignore::DeprecationWarning",
        LC_ALL="C.UTF-8", JOBLIB_MULTIPROCESSING="1",
    )
    return e


class Worker:
    def __init__(self, pid, hashseed="0"):
        self.p = subprocess.Popen(
            [PY, "-m", "sim.worker", pid], cwd=ROOT, env=worker_env(hashseed), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None, text=True, bufsize=1,
        )
        self.hello = self._read()

    def _read(self):
        line = self.p.stdout.readline()
        if not line:
            return {"fatal": "worker ended", "exc": "EOF"}
        return json.loads(line)

    def ask(self, req):
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return {"fatal": "worker ended", "exc": "EOF"}
        return self._read()

    def close(self):
        try:
            self.p.stdin.write('{"cmd": "quit"}\n')
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()


def run_many(pid, seed, tier, idxs, workers, stop_on_violation=True, deadline=None, hashseed="0", chunk=4, want=()):
    """Returns (results by idx, fatal or None)."""
    idxs = list(idxs)
    pos = 0
    lock = threading.Lock()
    results, fatal, errors = {}, [], []
    stop = threading.Event()

    def loop():
        nonlocal pos
        w = Worker(pid, hashseed)
        if "fatal" in w.hello:
            fatal.append(w.hello)
            stop.set()
            w.close()
            return
        while not stop.is_set():
            with lock:
                if pos >= len(idxs) or (deadline and time.monotonic() > deadline):
                    break
                part = idxs[pos : pos + chunk]
                pos += len(part)
            r = w.ask({"cmd": "runs", "seed": seed, "tier": tier, "idxs": part, "want": list(want)})
            if "fatal" in r:
                fatal.append(r)
                stop.set()
                break
            with lock:
                for x in r["runs"]:
                    results[x["idx"]] = x
                    if x.get("viol") and stop_on_violation:
                        stop.set()
                    if x.get("error"):
                        errors.append(x)
                        if len(errors) >= 4:
                            stop.set()
        w.close()

    ensure_shim()
    if pid == "C14":
        ensure_locales()
    ts = [threading.Thread(target=loop) for _ in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, (fatal[0] if fatal else None)


def known_findings(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def matches(known, viol):
    return known.get("cls") == viol["cls"] and all(s in viol["msg"] for s in known.get("match", []))


def nworkers():
    return int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def check(pid, tier, seed, prop_meta):
    t0 = time.monotonic()
    n = int(os.environ.get("VERIF_RUNS", "0")) or prop_meta["runs"][tier]
    guard = {"quick": 600, "thorough": 6 * 3600}[tier]
    nw = nworkers()
    known = known_findings(pid)
    seen_known = {}
    todo = list(range(n))
    results = {}
    viol = None
    print(f"[{pid}] deterministic simulation: seed={seed} tier={tier} runs={n} workers={nw}", flush=True)
    while todo:
        res, fatal = run_many(pid, seed, tier, todo, nw, deadline=t0 + guard, want=(0, 1))
        if fatal:
            if prop_meta.get("import_violation") and fatal.get("exc") not in ("EOF",):
                pass
            print(f"[{pid}] ERROR: worker could not start: {fatal['fatal']}", flush=True)
            return 2
        results.update(res)
        bad = sorted((r for r in res.values() if r.get("viol")), key=lambda r: r["idx"])
        new = [r for r in bad if not any(matches(k, r["viol"]) for k in known)]
        for r in bad:
            for k in known:
                if matches(k, r["viol"]):
                    seen_known[k["id"]] = k
        if new:
            viol = new[0]
            break
        done = set(results)
        rest = [i for i in todo if i not in done]
        if not bad or len(rest) == len(todo) or time.monotonic() > t0 + guard:
            break
        todo = rest
    errs = [r for r in results.values() if r.get("error")]
    code = 0
    if viol is not None:
        code = report(pid, seed, tier, viol)
    elif errs:
        print(f"[{pid}] ERROR in {len(errs)} run(s): idx {errs[0].get('idx')}: {errs[0]['error']}", flush=True)
        code = 2
    elif len(results) < n and time.monotonic() < t0 + guard:
        print(f"[{pid}] ERROR: only {len(results)} of {n} runs were executed", flush=True)
        code = 2
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    wall = time.monotonic() - t0
    write_evidence(pid, tier, seed, prop_meta, results, wall, 1 if code == 1 else 0, nw)
    if code == 0:
        ok = [r for r in results.values() if not r.get("error")]
        print(f"[{pid}] held on {len(ok)} simulated runs in {wall:.1f}s", flush=True)
    return code


def report(pid, seed, tier, r):
    v = r["viol"]
    plan = r["plan"]
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    w = Worker(pid)
    tries = 0
    again = w.ask({"cmd": "plan", "plan": plan}).get("run", {})
    exact = bool(again.get("viol")) and again["viol"]["cls"] == v["cls"]
    if exact:
        m = w.ask({"cmd": "shrink", "plan": plan, "cls": v["cls"], "budget": 40 if tier == "quick" else 120})
        small, tries = m.get("plan", plan), m.get("tries", 0)
        w.close()
        w = Worker(pid)          # confirm in a fresh process
        again = w.ask({"cmd": "plan", "plan": small}).get("run", {})
        if again.get("viol") and again["viol"]["cls"] == v["cls"]:
            plan, v = again.get("plan") or small, again["viol"]
    w.close()
    doc = {"property": pid, "seed": seed, "run": r["idx"], "tier": tier, "violation": v, "plan": plan, "replays": exact, "shrink_attempts": tries}
    name = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(ROOT, "out", f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    print(f"[{pid}] {v['cls']}: {v['msg']}", flush=True)
    print(f"[{pid}] run {r['idx']} of seed {seed}; minimised in {tries} attempts; replay: {ROOT}/replay {path}", flush=True)
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def replay(path):
    doc = json.load(open(path))
    w = Worker(doc["property"])
    if "fatal" in w.hello:
        print(w.hello["fatal"])
        return 2
    r = w.ask({"cmd": "plan", "plan": doc["plan"]})["run"]
    w.close()
    if r.get("error"):
        print("ERROR", r["error"])
        return 2
    if r.get("viol"):
        print(f"{r['viol']['cls']}: {r['viol']['msg']}")
        print("same violation as recorded" if r["viol"] == doc["violation"] else "DIFFERENT from the recorded violation")
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("no violation")
    return 0


def write_evidence(pid, tier, seed, meta, results, wall, nviol, nw):
    ok = [r for r in results.values() if not r.get("error")]
    counters, faults, kinds = {}, {}, {}
    sigs, inter, logs = set(), set(), set()
    nontriv = 0
    for r in ok:
        for k, v in (r.get("stats") or {}).items():
            counters[k] = counters.get(k, 0) + v
        for k, v in (r.get("faults") or {}).items():
            faults[k] = faults.get(k, 0) + v
        for k in r.get("kinds") or []:
            kinds[k] = kinds.get(k, 0) + 1
        if r.get("nontrivial"):
            nontriv += 1
            sigs.add(r.get("sig"))
        if r.get("inter"):
            inter.add(r["inter"])
        logs.add(r.get("log"))
    samples = [{"run": r["idx"], "plan": _cut(r["plan"])} for r in sorted(ok, key=lambda r: r["idx"]) if r.get("plan")][:2]
    if not samples and ok:
        samples = [{"run": ok[0]["idx"], "sig": ok[0].get("sig")}]
    cov = {
        "evaluations": len(ok),
        "distinct_nontrivial": len(sigs),
        "rule": meta["rule"],
        "samples": samples,
        "simulated_runs_per_hour": round(len(ok) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(len(ok) / max(wall, 1e-9) * 3600),
        "run_seeds": f"sha256({seed}/{pid}/index) for index 0..{max(results) if results else 0}",
        "simulated_time": {k: counters.pop(k) for k in list(counters) if k in ("scheduler_steps", "virtual_ms", "events")},
        "faults_fired": faults,
        "distinct_interleavings": len(inter),
        "interleaving_measure": "distinct hash of the sequence (task, code point, next task) of all context switches of a run",
        "distinct_event_logs": len(logs),
        "operation_kinds_covered": len(kinds),
        "operations_by_kind": dict(sorted(kinds.items())),
        "probes": counters,
        "workers": nw,
        "components_real": meta["real"],
        "components_stubbed": meta["stub"],
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def _cut(p, n=3500):
    s = json.dumps(p)
    return p if len(s) <= n else s[:n] + "..."
