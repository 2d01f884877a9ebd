"""Loads the library under test from its working tree, instrumented.

Every quantfinlib module is compiled from source (never from a cached .pyc) and all its code
objects are collected, so that line / instruction / call events of library code (and only of
library code) reach the simulator.
"""
import ast
import ctypes
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "quantfinlib"

CODES = []          # every code object of the library
CODE_SET = set()
CLEANUP = {}        # filename -> set of lines that belong to cleanup / handler code
_hooks = []         # called with each new code object


def _collect(code):
    out = [code]
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            out.extend(_collect(c))
    return out


def _cleanup_lines(tree):
    """Lines where a fault is never injected: finally/except bodies, try and with headers."""
    bad = set()

    def rng(nodes):
        for n in nodes:
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))

    for n in ast.walk(tree):
        if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            bad.add(n.lineno)
            rng(n.finalbody)
            for h in n.handlers:
                bad.add(h.lineno)
                rng(h.body)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            bad.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__del__", "close"):
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
    return bad


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        CLEANUP[path] = _cleanup_lines(tree)
        code = compile(src, path, "exec", dont_inherit=True)
        for c in _collect(code):
            CODES.append(c)
            CODE_SET.add(c)
            for h in _hooks:
                h(c)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [REPO] if name == PKG else path)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = _Loader(name, spec.origin)
            spec.cached = None
        return spec


ENV_READ = set()      # environment variables that library code has asked for
_env = type(os.environ)
_env_get, _env_has = _env.__getitem__, getattr(_env, "__contains__")


def _asked(key):
    """Record the variable when library code (not a library it uses) asks for it."""
    f = sys._getframe(2)
    while f is not None and f.f_globals.get("__name__") in ("os", "_collections_abc"):
        f = f.f_back
    if f is not None and str(f.f_globals.get("__name__", "")).split(".")[0] == PKG and isinstance(key, str):
        ENV_READ.add(key)


def _getitem(self, key):
    _asked(key)
    return _env_get(self, key)


def _contains(self, key):
    _asked(key)
    return _env_has(self, key)


def install():
    _env.__getitem__, _env.__contains__ = _getitem, _contains
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())


def library_modules():
    """Names of all importable modules of the library, found on disk."""
    out = []
    base = os.path.join(REPO, PKG)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "_")) or x in ("_datatypes",))
        if "__init__.py" not in files and d != base:
            continue
        rel = os.path.relpath(d, REPO).replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py"):
                out.append(rel if f == "__init__.py" else rel + "." + f[:-3])
    return sorted(set(out))


def purge_library():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]


class Rule(ctypes.Structure):
    """One storage fault (mirrors rule_t of shim.c)."""

    _fields_ = [("sub", ctypes.c_char * 256)] + [(k, ctypes.c_int) for k in (
        "stat_errno", "stat_lo", "stat_hi", "open_errno", "open_lo", "open_hi", "read_errno", "read_times")] + [
        ("read_at", ctypes.c_int64), ("eof_at", ctypes.c_int64), ("short_max", ctypes.c_int), ("eintr", ctypes.c_int), ("nflip", ctypes.c_int),
        ("flip_at", ctypes.c_int64 * 8), ("flip_x", ctypes.c_int * 8), ("zero_at", ctypes.c_int64), ("zero_len", ctypes.c_int64), ("write_errno", ctypes.c_int), ("write_times", ctypes.c_int),
        ("write_at", ctypes.c_int64), ("write_short", ctypes.c_int), ("wbytes", ctypes.c_int64)] + [(k, ctypes.c_int) for k in (
            "nstat", "nopen", "nread", "nwrite", "f_stat", "f_open", "f_read", "f_eof", "f_short", "f_eintr", "f_flip", "f_write", "f_wshort")]


class _Shim:
    """Python face of shim.c (no-ops when the shim is not preloaded)."""

    def __init__(self):
        try:
            self.lib = ctypes.CDLL(None)
            self.lib.sim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
            self.lib.sim_entropy.argtypes = [ctypes.c_int, ctypes.c_uint64]
            self.lib.sim_clock_add.argtypes = [ctypes.c_int64]
            self.lib.sim_clock_now.restype = ctypes.c_int64
            self.lib.sim_clock_reads.restype = ctypes.c_uint64
            self.lib.sim_entropy_reads.restype = ctypes.c_uint64
            self.lib.sim_rules.restype = ctypes.POINTER(Rule)
            if self.lib.sim_rule_size() != ctypes.sizeof(Rule):
                raise RuntimeError("shim.c and boot.py disagree on rule_t")
            self.ok = True
        except AttributeError:
            self.ok = False

    def private(self):
        if self.ok:
            self.lib.sim_private()

    def clock(self, mode, now_ns=0, step_ns=0):
        if self.ok:
            self.lib.sim_clock(mode, now_ns, step_ns)

    def clock_add(self, d):
        if self.ok:
            self.lib.sim_clock_add(int(d))

    def clock_now(self):
        return self.lib.sim_clock_now() if self.ok else 0

    def entropy(self, mode, seed=0):
        if self.ok:
            self.lib.sim_entropy(mode, seed & (2**64 - 1))

    def entropy_reads(self):
        return self.lib.sim_entropy_reads() if self.ok else 0

    # -- storage faults
    def storage(self, rules):
        """Install the faults: dicts of rule_t fields ('sub' text, 'flips' [[offset, xor], ...]); returns the live rules."""
        self.lib.sim_nrules(0)
        tab = self.lib.sim_rules()
        for i, d in enumerate(rules):
            r = Rule(eof_at=-1, open_lo=1, open_hi=1 << 30, stat_lo=1, stat_hi=1 << 30, read_times=1 << 30, write_times=1 << 30)
            for k, v in d.items():
                if k == "sub":
                    r.sub = v.encode()
                elif k == "flips":
                    r.nflip = min(len(v), 8)
                    for j, (a, x) in enumerate(v[:8]):
                        r.flip_at[j], r.flip_x[j] = a, x
                else:
                    setattr(r, k, v)
            ctypes.memmove(ctypes.byref(tab[i]), ctypes.byref(r), ctypes.sizeof(Rule))
        self.lib.sim_nrules(len(rules))
        return [tab[i] for i in range(len(rules))]

    def fd_rule(self, fd, i):
        self.lib.sim_fd_rule(fd, i)

    def no_storage(self):
        self.lib.sim_nrules(0)


shim = _Shim()
