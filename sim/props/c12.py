"""C12: a failing log sink never disturbs a computation or the logging setup."""
import errno
import importlib
import io
import logging
import os
import sys

from .. import boot, core, jobs, logsim as L
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C12"
WERR = [errno.EIO, errno.ENOSPC, errno.EPIPE, errno.EBADF, errno.EDQUOT, errno.EFBIG, errno.EROFS]
OERR = [errno.EMFILE, errno.ENFILE, errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EIO, errno.ETXTBSY]
BAD = ["missing dir", "is dir", "os", "os", "verbosity", "verbosity+file", "path type"]


def _sink(rng, which):
    return {"t": "fault", "sink": which, "errno": rng.choice(WERR), "after": rng.choice([0, 0, 0, 7, 60]), "times": rng.choice([1, 2, 1 << 30, 1 << 30]),
            "short": rng.choice([0, 0, 1, 5])}


def gen(rng, tier, idx):
    files = ["log0.txt", "log1.txt", "log2.txt"][: rng.randint(1, 3)]

    def conf():
        return {"t": "conf", "v": rng.choice(L.VERB), "f": rng.choice([None, *files, files[0], "/dev/full"]), "noconsole": rng.random() < 0.08}

    pool = C.pool()
    steps = [conf()]
    for k in range(rng.randint(4, 16)):
        r = rng.random()
        if r < 0.13:
            steps.append(conf())
        elif r < 0.28:
            steps.append({"t": "badconf", "how": rng.choice(BAD), "v": rng.choice(L.VERB), "f": rng.choice(files + ["other.txt"]), "errno": rng.choice(OERR), "bv": rng.randint(0, 2)})
        elif r < 0.45:
            steps.append(_sink(rng, rng.choice(["console", "file", "file"])))
        elif r < 0.52:
            steps.append({"t": "heal", "sink": rng.choice(["console", "file"])})
        elif r < 0.75:
            steps.append({"t": "log", "l": rng.choice(L.LEVELS[2:]), "via": rng.randint(0, 1)})
        elif r < 0.93:
            steps.append({"t": "call", "op": L.log_op(rng)})
        else:
            steps.append({"t": "call", "op": C.gen_op(rng, {pool[(idx + k) % len(pool)]})})
    steps += [{"t": "log", "l": 40, "via": 1}, {"t": "log", "l": 50, "via": 1}]
    return {"seed": rng.getrandbits(48), "steps": steps}


def run(plan):
    res = U.Res()
    want = {i: U.alone(s["op"])[0] for i, s in enumerate(plan["steps"]) if s["t"] == "call"}
    sc = L.Scene(fresh=False, console_fd=True)
    lg = logging.getLogger(L.NAME)
    lg.handlers[:] = []
    lg.setLevel(logging.WARNING)
    os.mkdir(os.path.join(sc.dir, "folder"))
    con, fil = boot.shim.storage([{"sub": ""}, {"sub": sc.dir + "/"}])
    boot.shim.fd_rule(sc.fd, 0)
    stream = sys.stderr
    rule = {"console": con, "file": fil}
    bad = {"console": False, "file": False}
    try:
        cur = None
        for i, s in enumerate(plan["steps"]):
            what = f"step {i} {s if s['t'] != 'call' else U.brief(s['op'])} (faulty now: {[k for k in bad if bad[k]]})"
            t = s["t"]
            tok = f"token-{i}-end"
            if t == "fault":
                r = rule[s["sink"]]
                r.write_errno, r.write_times, r.write_short = s["errno"], s["times"], s["short"]
                r.write_at = r.wbytes + s["after"]
                bad[s["sink"]] = True
                continue
            if t == "heal":
                r = rule[s["sink"]]
                r.write_errno = r.write_short = 0
                bad[s["sink"]] = False
                continue
            if t in ("conf", "badconf"):
                before = sc.open_logs()
                exc = None
                v, f = s["v"], s["f"]
                conf = importlib.import_module("quantfinlib.util").configure_logger
                path = f if not f or f.startswith("/") else os.path.join(sc.dir, f)
                nocon = t == "conf" and s["noconsole"]
                if t == "badconf":
                    h = s["how"]
                    if h == "missing dir":
                        path = os.path.join(sc.dir, "nowhere", "log.txt")
                    elif h == "is dir":
                        path = os.path.join(sc.dir, "folder")
                    elif h == "os":
                        fil.open_errno = s["errno"]
                    elif h.startswith("verbosity"):
                        v = L.BADV[s["bv"]]
                        path = path if h.endswith("file") else None
                    else:
                        path = (b"\x00", 3.5, ["x"])[s["bv"]]
                try:
                    if nocon:
                        sys.stderr = None
                    conf(verbosity=v, log_to_file=path is not None, **({"log_file_path": path} if path is not None else {}))
                except Exception as e:  # noqa: BLE001
                    exc = e
                finally:
                    sys.stderr = stream
                fil.open_errno = 0
                res.event(i, t, type(exc).__name__)
                if t == "conf":
                    if exc is not None:
                        res.bad("raises", f"{what}: {type(exc).__name__}: {exc}")
                    cur = (L.level_of(v), path, nocon)
                    lim = [] if not path or path.startswith("/dev") else [os.path.basename(path)]
                    if sorted(set(sc.open_logs()) - set(lim)) or len(sc.open_logs()) > 1:
                        res.bad("open files", f"{what}: open log files afterwards: {sc.open_logs()}, configured: {lim}")
                    res.stat("configurations")
                else:
                    res.fault("configuration fails: " + s["how"])
                    if exc is None:
                        res.bad("swallowed", f"{what}: the configuration failed but no error reached the caller")
                    if sc.open_logs() != before:
                        res.bad("open files", f"{what}: open log files before {before}, after the failed configuration {sc.open_logs()}")
            elif t == "log":
                try:
                    L.emit(s["l"], tok, s["via"])
                except BaseException as e:  # noqa: BLE001
                    res.bad("disturbed", f"{what}: logging raised {type(e).__name__}: {e}")
            else:
                jobs.reset(workers=1)
                th, _ = C.prepare(s["op"], C.Env())
                _, c = U.outcome(th)
                d = V.diff(want[i], c)
                res.kind(C.name_of(s["op"]))
                res.stat("results compared")
                if d:
                    res.bad("disturbed", f"{what}: alone vs with failing log sinks {d}")
                res.event(i, con.f_write, fil.f_write)
            if t == "log" and cur and not res.viol:
                v, f, nocon = cur
                n = int(s["l"] >= v)
                res.stat("deliveries checked")
                if not bad["console"] and not nocon:
                    k = L.count(sc.console(), tok)
                    if k != n:
                        res.bad("console", f"{what}: {k} times on the working console, expected {n} (configuration {cur})")
                if f and not f.startswith("/dev") and not bad["file"]:
                    k = L.count(sc.files().get(f, ""), tok)
                    if k != n:
                        res.bad("file", f"{what}: {k} times in the working log file, expected {n} (configuration {cur})")
                for p, x in sc.files().items():
                    if p != f and L.count(x, tok):
                        res.bad("file", f"{what}: found in {os.path.basename(p)}, which is not configured (configuration {cur})")
                res.event(i, con.f_write, fil.f_write)
            if res.viol:
                break
        for k, r in rule.items():
            if r.f_write:
                res.fault(f"{k} cannot be written", r.f_write)
            if r.f_wshort:
                res.fault(f"{k} writes partially", r.f_wshort)
        res.nontrivial = bool(res.faults)
    finally:
        boot.shim.no_storage()
        sys.stderr = io.StringIO()
        logging.getLogger(L.NAME).handlers[:] = []
        sc.close()
    return res.out()


def shrinks(plan):
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
