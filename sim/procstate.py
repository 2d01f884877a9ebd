"""Snapshot of process-wide state that belongs to the application."""
import builtins
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings
import zlib


def _digest(x):
    return zlib.crc32(repr(x).encode())


def fds():
    out = []
    for f in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            t = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if t.startswith("/proc/") and t.endswith("/fd"):
            continue
        out.append((int(f), t))
    return tuple(out)


_WATCH = None


def _patched():
    """Identities of public attributes of modules and classes that applications share with the library."""
    global _WATCH
    import json
    import math
    import time

    import joblib
    import numpy as np
    import pandas as pd
    import scipy.cluster.hierarchy
    import scipy.linalg
    import scipy.stats

    if _WATCH is None:
        _WATCH = []
        for o in (np, np.linalg, np.random, pd, pd.Series, pd.DataFrame, scipy.stats, scipy.linalg, scipy.cluster.hierarchy, joblib, math, time, os, json, random, warnings, gc):
            d = vars(o)
            _WATCH.append((o.__name__, d, [k for k in sorted(d) if not k.startswith("_") and callable(d[k])]))
    return tuple((n, k) if k not in d else (n, k, id(d[k])) for n, d, ks in _WATCH for k in ks)


def snapshot(streams=True):
    import numpy as np
    import pandas as pd

    s = {}
    st = np.random.get_state()
    s["numpy.random"] = (st[0], st[1].tobytes(), st[2:])
    s["random"] = random.getstate()
    s["numpy.errstate"] = tuple(sorted(np.geterr().items()))
    s["numpy.errcall"] = repr(np.geterrcall())
    s["numpy.printoptions"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    s["numpy.bufsize"] = np.getbufsize()
    s["warnings.filters"] = tuple(map(repr, warnings.filters))
    s["warnings.hooks"] = (id(warnings.showwarning), id(warnings.warn), id(warnings.formatwarning))
    from pandas._config import config as pc

    def flat(d, p=""):
        for k, v in sorted(d.items()):
            if isinstance(v, dict):
                yield from flat(v, p + k + ".")
            else:
                yield p + k, repr(v)

    s["pandas.options"] = tuple(flat(pc._global_config))
    s["environ"] = tuple(sorted(os.environ.items()))
    s["cwd"] = os.getcwd()
    um = os.umask(0)
    os.umask(um)
    s["umask"] = um
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signals"] = tuple((int(g), repr(signal.getsignal(g))) for g in sorted(signal.valid_signals()))
    s["streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr))
    s["sys.hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile()))
    s["sys.limits"] = (sys.getrecursionlimit(), round(sys.getswitchinterval(), 6), gc.isenabled(), gc.get_threshold(), sys.get_int_max_str_digits())
    s["sys.path"] = tuple(sys.path)
    s["decimal"] = repr(decimal.getcontext().prec) + repr(decimal.getcontext().rounding)
    s["logging.global"] = (logging.raiseExceptions, id(logging.lastResort), logging.root.manager.disable, id(logging.getLoggerClass()), logging.captureWarnings.__name__, id(logging.getLogRecordFactory()))
    lg = []
    for n in [None] + sorted(logging.root.manager.loggerDict):
        o = logging.root if n is None else logging.root.manager.loggerDict[n]
        if isinstance(o, logging.Logger):
            t = (o.level, tuple(id(h) for h in o.handlers), o.propagate, o.disabled, len(o.filters))
            if t != (0, (), True, False, 0):
                lg.append((n, t))
    s["loggers"] = tuple(lg)
    s["threads"] = tuple(sorted(t.name for t in threading.enumerate() if t is threading.main_thread() or not t.name.startswith("Dummy")))
    s["patched functions"] = _patched()
    s["builtins"] = tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"))
    s["open files"] = fds()
    try:
        import sklearn

        s["sklearn"] = repr(sorted(sklearn.get_config().items(), key=str))
    except Exception:
        pass
    import multiprocessing

    s["multiprocessing"] = multiprocessing.get_start_method(allow_none=True) or multiprocessing.get_all_start_methods()[0]
    try:
        from joblib import parallel as jp

        s["joblib"] = (repr(getattr(jp, "DEFAULT_BACKEND", None)), repr(getattr(jp._backend, "config", None) or getattr(jp, "default_parallel_config", None)))
    except Exception:
        pass
    return s


def own_logger(n):
    return isinstance(n, str) and (n == "quantfinlib" or n.startswith("quantfinlib."))


def diff(a, b, ignore_own_loggers=False):
    out = []
    for k in a:
        x, y = a[k], b.get(k)
        if k == "loggers" and ignore_own_loggers:
            x = tuple(t for t in x if not own_logger(t[0]))
            y = tuple(t for t in y if not own_logger(t[0]))
        if x != y:
            out.append(k)
    return out


def explain(a, b, k):
    x, y = a[k], b.get(k)
    if k in ("random", "numpy.random"):
        return f"{k}: the global generator's state was changed"
    if isinstance(x, tuple) and isinstance(y, tuple):
        return f"{k}: gone {repr([t for t in x if t not in y])[:200]}, new {repr([t for t in y if t not in x])[:200]}"
    return f"{k}: {repr(x)[:200]} -> {repr(y)[:200]}"
