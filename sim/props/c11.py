"""C11: after configuring logging, every record is delivered exactly once."""
import importlib
import logging
import os
import pathlib
import random

from .. import boot, core, forks, jobs, logsim as L
from .. import catalog as C
from .. import util as U

ID = "C11"


def _conf(rng, files):
    r = rng.random()
    f = None if r < 0.3 else "" if r < 0.4 else rng.choice(files)
    c = {"t": "conf", "v": rng.choice(L.VERB), "f": f}
    if f and rng.random() < 0.2:
        c["path"] = True
    if f and rng.random() < 0.25:
        c["spell"] = rng.choice(["rel", "dots", "link"])
    return c


def gen(rng, tier, idx):
    files = ["log0.txt", "log1.txt", "log2.txt"][: rng.randint(1, 3)]
    plan = {"seed": rng.getrandbits(48)}
    if idx % 2:
        nt = rng.choice([2, 2, 3, 4])
        plan["mode"] = "threads"
        plan["gap"] = rng.choice([2, 4, 8, 16])
        same = rng.random() < 0.4
        vs = [rng.choice(L.VERB) for _ in range(2)]
        plan["first"] = _conf(rng, files) if rng.random() < 0.85 else None
        plan["tasks"] = []
        for k in range(nt):
            t = []
            p = rng.choice([0.1, 0.4, 0.8]) if k else 0.6
            for _ in range(rng.randint(2, 8)):
                if rng.random() < p:
                    c = _conf(rng, files)
                    c.pop("path", None)
                    c.pop("spell", None)
                    if c["f"] == "":
                        c["f"] = files[0]
                    if same:
                        c["v"] = rng.choice(vs)
                    t.append(c)
                else:
                    t.append({"t": "log", "l": rng.choice(L.LEVELS), "via": rng.randint(0, 1)})
            plan["tasks"].append(t)
        return plan
    plan["mode"] = "seq"
    mods = boot.library_modules()
    steps = []
    if rng.random() < 0.5:
        steps += [{"t": "import", "m": m} for m in rng.sample(mods, rng.randint(1, 6))]
    for _ in range(rng.randint(4, 14) if rng.random() < 0.9 else rng.randint(30, 60)):
        r = rng.random()
        if r < 0.25:
            steps.append(_conf(rng, files))
        elif r < 0.6:
            steps.append({"t": "log", "l": rng.choice(L.LEVELS), "via": rng.randint(0, 1), "how": rng.choice(["", "", "", "args", "exc", "percent", "wide", "lines", "dict", "stack"])})
        elif r < 0.66:
            steps.append({"t": "log", "l": rng.choice(L.LEVELS), "via": rng.randint(0, 1), "how": rng.choice(["", "args"]), "n": rng.choice([2, 3, 5, 12, 40])})
        elif r < 0.75:
            steps.append({"t": "import", "m": rng.choice(mods)})
        elif r < 0.95:
            steps.append({"t": "call", "op": L.log_op(rng)})
        else:
            steps.append({"t": "chdir", "d": rng.choice(["sub", "sub2"])})
    steps.insert(rng.randint(0, max(0, len(steps) // 2)), _conf(rng, files))
    plan["steps"] = steps + [{"t": "log", "l": lv, "via": 1} for lv in rng.sample(L.LEVELS, 3)]
    return plan


def _seq(plan, res):
    want = {i: forks.fork_call(L.captured, s["op"])[0] for i, s in enumerate(plan["steps"]) if s["t"] == "call"}
    sc = L.Scene(fresh=True)
    try:
        cur = None                    # (verbosity, file) in force
        seen = {}                     # token -> (on console, file or None)
        sizes = {}
        for i, s in enumerate(plan["steps"]):
            what = f"step {i} {s if s['t'] != 'call' else U.brief(s['op'])}"
            before = (sc.console(), sc.files())
            tok = f"token-{i}-end"
            exp = []
            try:
                if s["t"] == "import":
                    importlib.import_module(s["m"])
                    res.kind("import " + s["m"])
                elif s["t"] == "conf":
                    new = (L.level_of(s["v"]), sc.path(s["f"]))
                    L.configure(s["v"], s["f"], sc.dir, pathlib.Path if s.get("path") else str, s.get("spell"))
                    cur = new
                    res.stat("configurations")
                elif s["t"] == "log":
                    for _ in range(s.get("n", 1)):
                        L.emit(s["l"], tok, s["via"], s.get("how"))
                    exp = [(s["l"], tok)] * s.get("n", 1)
                elif s["t"] == "chdir":
                    os.makedirs(os.path.join(sc.dir, s["d"]), exist_ok=True)
                    os.chdir(os.path.join(sc.dir, s["d"]))
                else:
                    jobs.reset(workers=1)
                    th, _ = C.prepare(s["op"], C.Env())
                    U.outcome(th)
                    exp = want[i]
                    res.kind(s["op"]["f"])
            except Exception as e:  # noqa: BLE001
                res.bad("raises", f"{what}: {type(e).__name__}: {e}")
                break
            con, files = sc.console(), sc.files()
            res.event(i, s["t"], cur and cur[0], [len(files[f]) for f in sorted(files)])
            if cur is None:
                continue
            v, f = cur
            for lv, msg in sorted(set(exp)):
                n = sum(m == msg and a >= v for a, m in exp)
                new = L.count(con, msg) - L.count(before[0], msg)
                res.stat("deliveries checked")
                if new != n:
                    res.bad("console", f"{what}: record of level {lv} {msg[:60]!r} appeared {new} times on the console, expected {n} (verbosity {v})")
                for p in sorted(set(files) | ({f} if f else set())):
                    new = L.count(files.get(p, ""), msg) - L.count(before[1].get(p, ""), msg)
                    e = n if p == f else 0
                    if new != e:
                        res.bad("file", f"{what}: record of level {lv} {msg[:60]!r} appeared {new} times in {os.path.basename(p)}, expected {e} (verbosity {v}, file {f and os.path.basename(f)})")
            for p in files:
                if p != f and files[p] != before[1].get(p, files[p]):
                    res.bad("superseded", f"{what}: {os.path.basename(p)} was written although the configured file is {f and os.path.basename(f)}")
            if s["t"] == "log":
                seen[tok] = (s.get("n", 1) * (s["l"] >= v), f)
            if res.viol:
                break
        if not res.viol:
            con, files = sc.console(), sc.files()
            for tok, (on, f) in seen.items():
                if L.count(con, tok) != on or any(L.count(x, tok) != on * (p == f) for p, x in files.items()):
                    res.bad("late", f"{tok}: delivered again or removed later")
        res.nontrivial = res.stats.get("deliveries checked", 0) > 0
    finally:
        sc.close()


def _threads(plan, res):
    sc = L.Scene(fresh=False)
    try:
        lg = logging.getLogger(L.NAME)
        lg.handlers[:] = []
        lg.setLevel(logging.WARNING)
        hist = []                      # completed operations: (start, end, task, step)
        clock = [0]

        def do(k, s, tok):
            clock[0] += 1
            h = [clock[0], None, k, s, tok]
            hist.append(h)
            if s["t"] == "conf":
                L.configure(s["v"], s["f"], sc.dir)
                res.stat("configurations")
            else:
                L.emit(s["l"], tok, s["via"])
            clock[0] += 1
            h[1] = clock[0]

        def task(k):
            def body():
                for j, s in enumerate(plan["tasks"][k]):
                    try:
                        do(k, s, f"token-{k}-{j}-end")
                    except Exception as e:  # noqa: BLE001
                        res.bad("raises", f"task {k} step {j} {s}: {type(e).__name__}: {e}")
                        return

            return body

        if plan.get("first"):
            do(-1, plan["first"], None)
        core.monitor(core.E.LINE)
        L.monitor_logging(True)
        rng = random.Random(plan["seed"]) if plan.get("dec") is None else None
        s = core.Sched([task(k) for k in range(len(plan["tasks"]))], rng=rng, gap=plan["gap"], decisions=plan.get("dec"))
        ok = s.run()
        L.monitor_logging(False)
        core.monitor(0)
        res.rec = {"dec": s.rec} if rng is not None else None
        res.inter = s.sig
        res.stat("context_switches", s.nswitch)
        res.nontrivial = s.nswitch > 0
        if not ok:
            res.bad("no-progress", f"logging and configuring do not complete: {s.deadlock}")
        if res.viol:
            return
        confs = [(h[0], h[1], L.level_of(h[3]["v"]), sc.path(h[3]["f"])) for h in hist if h[3]["t"] == "conf"]
        con, files = sc.console(), sc.files()
        for a, b, k, st, tok in hist:
            if st["t"] != "log":
                continue
            over = [c for c in confs if c[0] < b and c[1] > a]
            done = [c for c in confs if c[1] < a]
            live = [c for c in done if not any(c[1] < d[0] for d in done)]
            poss = over + live
            if not live:
                continue
            n = L.count(con, tok)
            per = {p: L.count(x, tok) for p, x in files.items() if L.count(x, tok)}
            low, high = min(c[2] for c in poss), max(c[2] for c in poss)
            res.stat("deliveries checked")
            what = f"record of level {st['l']} by task {k}, configurations possibly in force {[(c[2], c[3] and os.path.basename(c[3])) for c in poss]}"
            if n > 1 or (st["l"] >= high and n != 1) or (st["l"] < low and n):
                res.bad("console", f"{what}: {n} times on the console")
            if sum(per.values()) > 1 or set(per) - {c[3] for c in poss} or (st["l"] < low and per):
                res.bad("file", f"{what}: found in {per}")
            fs = {c[3] for c in poss}
            if len(fs) == 1 and None not in fs and st["l"] >= high and not per:
                res.bad("file", f"{what}: lost, not in the log file")
            res.event(tok, n, sorted(per.values()))
            if res.viol:
                return
        # what is in force afterwards is one of the last requested configurations, completely
        last = [c for c in confs if not any(c[1] < d[0] for d in confs)]
        if last:
            got = {}
            for lv in L.LEVELS:
                L.emit(lv, f"final-{lv}-end", 0)
            con, files = sc.console(), sc.files()
            for lv in L.LEVELS:
                t = f"final-{lv}-end"
                got[lv] = (L.count(con, t), {p: L.count(x, t) for p, x in files.items() if L.count(x, t)})

            def fits(c):
                return all(got[lv] == ((1, {c[3]: 1} if c[3] else {}) if lv >= c[2] else (0, {})) for lv in L.LEVELS)

            if not any(fits(c) for c in last):
                res.bad("final", f"after concurrent configurations {[(c[2], c[3] and os.path.basename(c[3])) for c in last]} records are delivered as {({lv: (n, {os.path.basename(p): x for p, x in m.items()}) for lv, (n, m) in got.items()})}")
            if len(sc.open_logs()) > 1 and not res.viol and len(set(sc.open_logs())) > 1:
                res.stat("superseded files still open after concurrent configuration")
    finally:
        sc.close()


def run(plan):
    res = U.Res()
    (_seq if plan["mode"] == "seq" else _threads)(plan, res)
    return res.out()


def shrinks(plan):
    if plan["mode"] == "seq":
        for c in U.chunks_removed(plan["steps"], 1):
            yield U.with_(plan, steps=c)
        for i, s in enumerate(plan["steps"]):
            if s["t"] == "conf" and s["f"]:
                yield U.with_(plan, steps=plan["steps"][:i] + [dict(s, f=None)] + plan["steps"][i + 1 :])
        return
    for k, t in enumerate(plan["tasks"]):
        for c in U.chunks_removed(t, 0):
            yield U.with_(plan, tasks=plan["tasks"][:k] + [c] + plan["tasks"][k + 1 :])
    for d in U.dict_removed(plan.get("dec") or {}):
        yield U.with_(plan, dec=d)
