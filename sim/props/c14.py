"""C14: answers do not depend on clock, time zone, directory, locale or hash seed."""
import importlib
import locale
import os
import shutil
import sys
import tempfile
import time

from .. import boot, core, engine, forks, jobs, peer
from .. import catalog as C
from .. import util as U
from .. import values as V

ID = "C14"
V.exact()
PEERS = []
DAY = 86_400_000_000_000
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Pacific/Kiritimati", "Europe/Dublin", "Africa/Casablanca", "EST5EDT", "<+14>-14"]
NOWS = [0, 1, -3 * DAY, 946_684_799_999_999_999, 951_782_400_000_000_000, 1_230_768_000_000_000_000, 1_582_934_400_000_000_000, 2_147_483_647_999_999_999, 2_147_483_648_000_000_000,
        4_102_444_800_000_000_000, 1_711_846_800_000_000_000, 9_000_000_000_000_000_000]
STEPS = [0, 1, -1_000_000, 1_000_000_000, DAY, -DAY, 3600 * 1_000_000_000]
VARS = {"OMP_NUM_THREADS": ["1", "7"], "HOME": ["/nonexistent", "/"], "TMPDIR": ["/nonexistent"], "LANG": ["tr_TR.UTF-8", "C"], "USER": ["", "simulated"], "PYTHONHASHSEED": ["123"],
        "COLUMNS": ["20"], "QUANTFINLIB": ["1"], "DEBUG": ["1"], "CI": ["true"], "NUMEXPR_MAX_THREADS": ["2"], "LOKY_MAX_CPU_COUNT": ["1", "13"], "JOBLIB_TEMP_FOLDER": ["/nonexistent"]}
DIRS = ["root", "scratch", "removed", "repo", "decoy", "unicode", "readonly"]


def setup():
    d = tempfile.gettempdir()
    loc = os.path.join(engine.ROOT, "build", "locale")
    de = {"LOCPATH": loc, "LC_ALL": "de_DE.UTF-8"} if os.path.isdir(os.path.join(loc, "de_DE.UTF-8")) else {"LC_ALL": "C"}
    PEERS.append(peer.Peer(env={"TZ": "America/New_York", **de}, cwd="/", hashseed="4242"))
    PEERS.append(peer.Peer(env={"TZ": "Pacific/Kiritimati", "LC_ALL": "POSIX", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0", "HOME": "/nonexistent"}, cwd=d, hashseed="31337"))


# ------------------------------------------------------------------ plans
def _world(rng):
    w = {}
    ks = rng.sample(["clock", "tz", "locale", "cwd", "env", "cpus"], rng.choice([1, 1, 2, 3, 6]))
    if "clock" in ks:
        w["clock"] = [rng.choice(NOWS) if rng.random() < 0.7 else rng.randint(0, 2 * 10**18), rng.choice(STEPS)]
        w["pace"] = rng.choice([0, 1000, 1_000_000_000, 4000 * 1_000_000_000])     # of the monotonic clock, per reading
    if "tz" in ks:
        w["tz"] = rng.choice(ZONES)
    if "locale" in ks:
        w["locale"] = rng.choice(["C", "POSIX", "C.UTF-8", *engine.LOCALES, *engine.LOCALES])
    if "cwd" in ks:
        w["cwd"] = rng.choice(DIRS)
    if "env" in ks:
        w["env"] = {k: rng.choice(VARS[k]) for k in rng.sample(sorted(VARS), rng.randint(1, 4))}
    w["asked"] = rng.choice([None, "", "0", "1", "true", "2", "C", "x"])           # given to every variable the library asks for
    if "cpus" in ks:
        w["cpus"] = rng.choice([1, 2, 64, 257])
    return w


def gen(rng, tier, idx):
    plan = {"seed": rng.getrandbits(48)}
    pool = C.pool()
    ops = []
    names = [pool[idx % len(pool)], pool[(idx * 7 + 3) % len(pool)], rng.choice(pool)]
    if rng.random() < 0.2:
        names.append(rng.choice(["load_vix", "load_treasury_rates", "load_equity_indices"]))
    if rng.random() < 0.35:
        names += ["BM", rng.choice(["GBM", "OU"])]
    for n in names:
        if n in C.F and not C.has(C.F[n]["mod"], C.F[n]["attr"]):
            continue
        ops.append(C.gen_op(rng, {n}))
    if rng.random() < 0.2:             # text labels: the data whose hashes differ between interpreters
        op = C.gen_op(rng, {rng.choice(["gap_statistic", "silhouette_tstat"])})
        n = max(16, op["a"]["labels"]["n"])
        op["a"]["labels"].update(n=n, str=True, kk=rng.choice([5, 8]))
        op["a"]["dist"].update(n=n)
        ops.append(op)
    if idx % 25 == 11:
        plan["mode"] = "import"
        mods = boot.library_modules()
        rng.shuffle(mods)
        plan["mods"] = mods[: rng.randint(1, len(mods))]
        plan["world"] = dict(_world(rng), cwd=rng.choice(DIRS))
        plan["ops"] = ops
        return plan
    plan["mode"] = "calls"
    steps = []
    for op in ops:
        steps.append({"op": op, "world": _world(rng)} if rng.random() < 0.5 else {"op": op, "peer": rng.randint(0, 1), "clock": [rng.choice(NOWS), rng.choice(STEPS)]})
        if rng.random() < 0.3:
            steps.append({"op": C.deep(op), "world": _world(rng)})
    plan["steps"] = steps
    return plan


# ------------------------------------------------------------------ the surroundings
class World:
    """Changes the process's surroundings and puts them back."""

    def __init__(self, w, asked=()):
        self.w = w
        self.tmp = None
        self.asked = asked

    def __enter__(self):
        w = self.w
        self.cwd = os.getcwd()
        self.env = dict(os.environ)
        self.loc = locale.setlocale(locale.LC_ALL)
        if "cwd" in w:
            self.tmp = tempfile.mkdtemp(prefix="verif-cwd-")
            c = w["cwd"]
            d = self.tmp
            if c == "root":
                d = "/"
            elif c == "repo":
                d = os.path.join(boot.REPO, "quantfinlib", "sim")
            elif c == "decoy":        # things that look like the library's own
                os.makedirs(os.path.join(d, "quantfinlib", "datasets", "resources"))
                for n in ("vix_ohlc.csv.gz", "daily_treasury_rates.csv.gz", "multi_index_close.csv.gz"):
                    open(os.path.join(d, "quantfinlib", "datasets", "resources", n), "wb").close()
                for n in ("pyproject.toml", "setup.py", "numpy.py", "pandas.py", "quantfinlib.log"):
                    open(os.path.join(d, n), "w").close()
            elif c == "unicode":
                d = os.path.join(d, "été 目录")
                os.mkdir(d)
            elif c == "readonly":
                os.chmod(d, 0o500)
            os.chdir(d)
            if c == "removed":
                os.rmdir(d)
        if "tz" in w:
            os.environ["TZ"] = w["tz"]
            time.tzset()
        if "env" in w:
            os.environ.update(w["env"])
        for k in self.asked:
            if w["asked"] is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = w["asked"]
        if "locale" in w:
            os.environ["LOCPATH"] = os.path.join(engine.ROOT, "build", "locale")
            try:
                locale.setlocale(locale.LC_ALL, w["locale"])
            except locale.Error:
                pass
        jobs.CPUS = w.get("cpus", 4)
        if "clock" in w:
            boot.shim.clock(1, w["clock"][0], w["clock"][1])
            jobs.Mono.step = w["pace"]
        return self

    def __exit__(self, *a):
        boot.shim.clock(1, 1_600_000_000_000_000_000, 1000)
        jobs.Mono.step = 1000
        jobs.CPUS = 4
        locale.setlocale(locale.LC_ALL, self.loc)
        for k in list(os.environ):
            if k not in self.env:
                del os.environ[k]
        os.environ.update(self.env)
        time.tzset()
        os.chdir(self.cwd)
        if self.tmp:
            if os.path.isdir(self.tmp):
                os.chmod(self.tmp, 0o700)
            shutil.rmtree(self.tmp, ignore_errors=True)
        return False


def there(op, clock, seed):
    """One operation in a peer interpreter (called by the peer, in a fresh fork)."""
    boot.shim.private()
    boot.shim.clock(1, clock[0], clock[1])
    boot.shim.entropy(1, seed)
    jobs.reset(workers=3)
    th, _ = C.prepare(op, C.Env())
    return U.outcome(th)[1]


def _imported(plan, asked):
    """A library imported in other surroundings (in a fork): outcomes of all operations."""
    with World(plan["world"], asked):
        boot.purge_library()
        try:
            for m in plan["mods"]:
                importlib.import_module(m)
        except BaseException as e:  # noqa: BLE001
            return f"importing {m}: {type(e).__name__}: {e}", []
        out = []
        for op in plan["ops"]:
            jobs.reset(workers=2)
            try:
                th, _ = C.prepare(op, C.Env())
            except BaseException as e:  # noqa: BLE001
                return f"importing for {C.name_of(op)}: {type(e).__name__}: {e}", []
            out.append(U.outcome(th)[1])
    return None, out


def run(plan):
    res = U.Res()
    ops = plan.get("ops") or [s["op"] for s in plan["steps"]]
    want, asked = [], set(boot.ENV_READ)
    for op in ops:
        w, c = U.alone_cached(op)
        want.append(w)
        asked.update(c["env"])
    if asked:
        res.stat("environment variables the library asks for", len(asked))
    if plan["mode"] == "import":
        err, got = forks.fork_call(_imported, plan, sorted(asked))
        res.stat("modules imported", len(plan["mods"]))
        for k in plan["world"]:
            if k != "asked" or asked:
                res.fault("other " + k)
        res.nontrivial = True
        if err:
            res.bad("import", f"in surroundings {plan['world']}: {err}")
        for op, a, b in zip(ops, want, got):
            res.kind(C.name_of(op))
            d = V.diff(a, b)
            res.event(V.digest(a))
            if d:
                res.bad("imported-elsewhere", f"{U.brief(op)}: usual surroundings vs imported in {plan['world']}: {d}")
        return res.out()
    for i, s in enumerate(plan["steps"]):
        op = s["op"]
        res.kind(C.name_of(op))
        if "peer" in s:
            got = PEERS[s["peer"]].call("sim.props.c14", "there", op, s["clock"], plan["seed"])
            res.fault("other interpreter (hash seed, time zone, locale, directory, clock)")
            where = f"another interpreter ({'hash seed 4242, New York, German locale, directory /' if s['peer'] == 0 else 'hash seed 31337, Kiritimati, POSIX locale, temporary directory'}), clock {s['clock']}"
        else:
            jobs.reset(workers=2)
            with World(s["world"], sorted(asked)):
                th, _ = C.prepare(op, C.Env())
                _, got = U.outcome(th)
            for k in s["world"]:
                if k != "asked" or asked:
                    res.fault("other " + k)
            where = str(s["world"])
        d = V.diff(want[i], got)
        res.stat("answers compared")
        res.event(C.name_of(op), V.digest(want[i]), where)
        res.nontrivial = True
        if d:
            res.bad("surroundings", f"{U.brief(op)}: usual surroundings vs {where}: {d}")
            break
    return res.out()


def _less(w):
    for d in U.dict_removed({k: v for k, v in w.items() if k not in ("asked", "pace")}):
        yield dict(d, asked=w["asked"], **({"pace": w["pace"]} if "clock" in d else {}))


def shrinks(plan):
    if plan["mode"] == "import":
        for c in U.chunks_removed(plan["mods"], 1):
            yield U.with_(plan, mods=c)
        for c in U.chunks_removed(plan["ops"], 0):
            yield U.with_(plan, ops=c)
        for d in _less(plan["world"]):
            yield U.with_(plan, world=d)
        return
    for c in U.chunks_removed(plan["steps"], 1):
        yield U.with_(plan, steps=c)
    for i, s in enumerate(plan["steps"]):
        if "world" in s:
            for d in _less(s["world"]):
                yield U.with_(plan, steps=plan["steps"][:i] + [dict(s, world=d)] + plan["steps"][i + 1 :])
        for o in U.op_shrinks(s["op"]):
            yield U.with_(plan, steps=plan["steps"][:i] + [dict(s, op=o)] + plan["steps"][i + 1 :])
