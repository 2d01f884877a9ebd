"""Input recipes (JSON -> objects), canonical form of results, comparison."""
import datetime
import math
import zlib

import numpy as np
import pandas as pd

RTOL = 1e-9
ATOL = 1e-12        # of the largest value


def exact():
    """From here on answers are compared bit by bit."""
    global RTOL, ATOL
    RTOL = ATOL = 0.0


# ------------------------------------------------------------------ data
def _g(seed):
    return np.random.Generator(np.random.PCG64(int(seed) % (2**63)))


def _base(kind, n, m, seed):
    g = _g(seed)
    if kind == "price":
        x = 100 * np.exp(np.cumsum(g.normal(0.0002, 0.02, (n, m)), axis=0))
    elif kind == "normal":
        x = g.normal(0, 1, (n, m))
    elif kind == "walk":
        x = np.cumsum(g.normal(0.1, 1, (n, m)), axis=0)
    elif kind == "ties":
        x = 50 + np.round(np.cumsum(g.normal(0, 1, (n, m)), axis=0))
        x = np.abs(x) + 1
    elif kind == "const":
        x = np.full((n, m), 7.0 + (seed % 5))
    elif kind == "nan":
        x = 100 * np.exp(np.cumsum(g.normal(0, 0.02, (n, m)), axis=0))
        k = max(1, n // 10)
        x[g.integers(0, n, k), g.integers(0, m, k)] = np.nan
    elif kind == "inf":
        x = 100 * np.exp(np.cumsum(g.normal(0, 0.02, (n, m)), axis=0))
        x[g.integers(0, n), g.integers(0, m)] = np.inf
    elif kind == "neg":
        x = g.normal(-3, 2, (n, m))
    elif kind == "mr":            # mean reverting
        x = np.zeros((n, m))
        e = g.normal(0, 0.3, (n, m))
        x[0] = 2.0 + e[0]
        for i in range(1, n):
            x[i] = 2.0 + 0.7 * (x[i - 1] - 2.0) + e[i]
    elif kind == "zigzag":        # negative autocorrelation
        x = (np.where(np.arange(n) % 2 == 0, 1.0, -1.0)[:, None] * (3 + g.normal(0, 0.2, (n, m)))) + 10
    elif kind == "dup":           # perfectly correlated columns
        a = np.cumsum(g.normal(0, 1, (n, 1)), axis=0) + 100
        x = np.repeat(a, m, axis=1)
    elif kind == "common":        # correlated columns
        f = g.normal(0, 1, (n, 1))
        x = 0.7 * f + 0.5 * g.normal(0, 1, (n, m))
    elif kind == "volume":
        x = np.round(np.exp(g.normal(8, 0.6, (n, m))))
    elif kind == "sigma":
        x = np.abs(g.normal(1, 0.2, (n, m))) + 0.1
    elif kind == "huge":
        x = g.normal(0, 1, (n, m)) * 1e12 + 1e13
    elif kind == "tiny":
        x = np.abs(g.normal(0, 1, (n, m))) * 1e-12 + 1e-13
    else:
        raise ValueError(kind)
    return x


def ohlc(n, seed, flat=False):
    g = _g(seed)
    c = 100 * np.exp(np.cumsum(g.normal(0, 0.02, n)))
    o = c * np.exp(g.normal(0, 0.01, n))
    h = np.maximum(o, c) * np.exp(np.abs(g.normal(0, 0.01, n)))
    l = np.minimum(o, c) * np.exp(-np.abs(g.normal(0, 0.01, n)))
    if flat:
        k = g.integers(0, n, max(1, n // 3))
        for a in (o, h, l):
            a[k] = c[k]
    return {"open": o, "high": h, "low": l, "close": c}


def _perturb(x, how):
    """Small content changes that keep the shape (and often sums, ends, extremes)."""
    if not how:
        return x
    x = x.copy()
    n = x.shape[0]
    kind, a, b = how[0], how[1] % max(n - 2, 1) + (1 if n > 2 else 0), how[2] % max(n - 2, 1) + (1 if n > 2 else 0)
    if kind == "swap":
        t = x[a].copy() if x.ndim > 1 else x[a]
        x[a] = x[b]
        x[b] = t
    elif kind == "bump":
        x[a] = x[a] * 1.001 + 0.001
    elif kind == "last":
        x[-1] = x[-1] * 1.01 + 0.01
    elif kind == "first":
        x[0] = x[0] * 1.01 + 0.01
    elif kind == "rev":
        x = x[::-1].copy()
    elif kind == "scale":
        x = x * 1.25
    elif kind == "shift":
        x = x + 0.5
    elif kind == "nan":
        if x.dtype.kind == "f":
            x[a] = np.nan
    elif kind == "shuf" and n > 3:      # same ends, same values, other order inside
        x[1:-1] = x[1:-1][_g(1000 + how[1]).permutation(n - 2)]
    elif kind == "mid":                 # one value in the middle
        x[n // 2] = x[n // 2] * 1.05 + 0.05
    elif kind == "eps":                 # differs in the seventh digit only
        x[a] = x[a] * 1.0000004
    return x


def make_index(kind, n, seed=0, inner=None):
    i = _make_index(kind, n, seed)
    if inner and n > 4 and isinstance(i, pd.DatetimeIndex):
        # same ends, length and name, other dates inside
        v = i.asi8.copy()
        k = min(n - 2, 2 + inner % 3)
        v[k:-1] = v[k - 1] + (np.arange(n - 1 - k) + 1) * ((v[-1] - v[k - 1]) // (n + 3))
        i = pd.DatetimeIndex(pd.DatetimeIndex(v.view("M8[ns]"), tz="UTC").tz_convert(i.tz) if i.tz is not None else v.view("M8[ns]"), name=i.name)
    return i


def _make_index(kind, n, seed=0):
    if kind in (None, "range"):
        return pd.RangeIndex(n)
    if kind == "shift":
        return pd.RangeIndex(5, 5 + n)
    if kind == "str":
        return pd.Index([f"r{i}" for i in range(n)])
    if kind == "irreg":
        g = _g(seed + 99)
        d = np.cumsum(g.integers(1, 6, n))
        return pd.DatetimeIndex(pd.Timestamp("2019-03-01") + pd.to_timedelta(d, unit="D"), name="when")
    if kind == "dupdate":
        return pd.DatetimeIndex(pd.Timestamp("2019-03-01") + pd.to_timedelta(np.arange(n) // 2, unit="D"))
    if kind == "tz":
        return pd.date_range("2020-03-27", periods=n, freq="D", tz="Europe/Brussels")
    if kind == "period":
        return pd.period_range("2019-01", periods=n, freq="M")
    if kind == "desc":
        return pd.RangeIndex(n, 0, -1)
    if kind == "multi":
        return pd.MultiIndex.from_arrays([np.arange(n) // 3, np.arange(n) % 3], names=["a", "b"])
    if n > 150 and kind[0] in "YQM":
        kind = "D"
    start = ["2020-01-01", "2015-06-30", "2000-02-28", "2021-12-31"][seed % 4]
    return pd.date_range(start, periods=n, freq=kind, name=("Date" if seed % 2 else None))


def build(r, env=None):
    """Build one argument from its recipe."""
    if isinstance(r, dict):
        k = r.get("k")
        if k is None and "ref" in r:
            return env[r["ref"]]
        if k is None and "slot" in r:
            return env.slots[r["slot"]]
        if k == "arr":
            n, m = r["n"], r.get("m", 0)
            x = _base(r.get("gen", "price"), n, max(m, 1), r["seed"])
            x = _perturb(x, r.get("perturb"))
            if m == 0:
                x = x[:, 0].copy()
            dt = r.get("dtype")
            if dt:
                with np.errstate(all="ignore"):
                    x = np.nan_to_num(x).astype(dt) if np.dtype(dt).kind in "iu" else x.astype(dt)
            c = r.get("c", "np")
            if c == "np":
                lay = r.get("lay")
                if lay == "F":
                    x = np.asfortranarray(x)
                elif lay == "view":
                    big = np.zeros((2 * n,) + x.shape[1:], dtype=x.dtype)
                    big[::2] = x
                    x = big[::2]
                return x
            idx = make_index(r.get("idx"), n, r["seed"] if r.get("idxseed") is None else r["idxseed"], r.get("idxin"))
            if c == "series":
                return pd.Series(x if m == 0 else x[:, 0], index=idx, name=r.get("name"))
            cols = r.get("cols") or [f"A{i}" for i in range(max(m, 1))]
            return pd.DataFrame(x if m else x.reshape(-1, 1), index=idx, columns=cols)
        if k == "ohlc":
            x = ohlc(r["n"], r["seed"], r.get("flat", False))[r["f"]]
            x = _perturb(x, r.get("perturb"))
            if r.get("dtype"):
                x = x.astype(r["dtype"])
            if r.get("c", "np") == "np":
                return x
            return pd.Series(x, index=make_index(r.get("idx"), r["n"], r.get("idxseed", r["seed"]), r.get("idxin")), name=r.get("name"))
        if k == "corr":
            n = r["n"]
            x = _base("common", 40 + 3 * n, n, r["seed"])
            c = np.corrcoef(x, rowvar=False)
            np.fill_diagonal(c, 1.0)
            c = (c + c.T) / 2
            p = r.get("perturb")
            if p and n > 2:
                i, j = 0, 1 + p[1] % (n - 1)
                c[i, j] = c[j, i] = c[i, j] * 0.9
            v = r.get("var")
            if v == "ident":
                c = np.eye(n)
            elif v:
                c[0, n - 1] = c[n - 1, 0] = {"one": 1.0, "over": 1.0000000000000004, "minus": -1.0, "under": -1.0000000000000004}[v]
            if r.get("c") == "frame":
                cols = [f"A{i}" for i in range(n)]
                return pd.DataFrame(c, index=cols, columns=cols)
            return c
        if k == "cov":
            n = r["n"]
            x = _base("common", 40 + 3 * n, n, r["seed"])
            return np.cov(x, rowvar=False).reshape(n, n)
        if k == "eigs":
            n = r["n"]
            x = _base("common", 40 + 3 * n, n, r["seed"])
            return np.sort(np.linalg.eigvalsh(np.corrcoef(x, rowvar=False)))[::-1].copy()
        if k == "dist":
            g = _g(r["seed"])
            p = g.normal(0, 1, (r["n"], 2)) + np.repeat(g.normal(0, 6, (4, 2)), math.ceil(r["n"] / 4), axis=0)[: r["n"]]
            d = np.sqrt(((p[:, None, :] - p[None, :, :]) ** 2).sum(-1))
            pt = r.get("perturb")
            if pt:
                i, j = 0, 1 + pt[1] % (r["n"] - 1)
                d[i, j] = d[j, i] = d[i, j] * 1.1 + 0.01
            d = (d + d.T) / 2
            np.fill_diagonal(d, 0)
            if r.get("c") == "frame":
                cols = [f"A{i}" for i in range(r["n"])]
                return pd.DataFrame(d, index=cols, columns=cols)
            return d
        if k == "labels":
            x = np.arange(r["n"]) * r["kk"] // r["n"]
            if r.get("seed"):
                x = _g(r["seed"]).permutation(x)
            if r.get("str"):
                x = np.array([f"{'qwertyuiop'[int(v) % 10]}{v}" for v in x])
            if r.get("c") == "series":
                return pd.Series(x)
            return x
        if k == "groups":
            g = _g(r["seed"])
            v = np.cumsum(g.integers(0 if r.get("dups") else 1, 3, r["n"]))
            if r.get("kind") == "dates":
                return pd.DatetimeIndex(pd.Timestamp("2020-01-01") + pd.to_timedelta(v, unit="D"))
            if r.get("kind") == "dseries":
                return pd.Series(pd.Timestamp("2020-01-01") + pd.to_timedelta(v, unit="D"))
            return v
        if k == "idx":
            return make_index(r["idx"], r["n"], r.get("seed", 0), r.get("idxin"))
        if k == "list":
            return [build(x, env) for x in r["v"]]
        if k == "nda":
            a = np.array(r["v"], dtype=r.get("dtype", float))
            return a
        if k == "npint":
            return np.int64(r["v"])
        if k == "npfloat":
            return np.float64(r["v"])
        if k == "ts":
            return pd.Timestamp(r["v"])
        if k == "fn":
            return FUNCS[r["v"]]
        raise ValueError(f"recipe {r}")
    return r


# user callbacks for the technical indicator / correlation transformer
def _mom(x):
    d = np.zeros_like(x)
    d[1:] = np.diff(x)
    return d


def _sma(x):
    return np.convolve(x, np.ones(3) / 3, mode="same")


def _sign(x):
    d = np.sign(np.concatenate([[0.0], np.diff(x)]))
    d[::3] *= 0.5
    return d


def _shrink(c):
    return c * 0.5 + 0.5 * (c == 1.0)


class CallbackError(Exception):
    pass


def _boom(x):
    raise CallbackError("simulated: user function failed")


def _badlen(x):
    return np.zeros(3)


KEPT = []


def _vandal_mom(x):
    r = _mom(x.copy())
    x[...] = 7.0
    return r


def _keep_sma(x):
    KEPT.append(x)
    return _sma(x)


def _keep_result(x):
    r = _mom(x)
    KEPT.append(r)
    return r


FUNCS = {"vandal": _vandal_mom, "keep": _keep_sma, "keepr": _keep_result, "mom": _mom, "sma": _sma, "sign": _sign, "shrink": _shrink, "boom": _boom, "badlen": _badlen}


# ------------------------------------------------------------------ canonical results
def canon(x, depth=0):
    if depth > 8:
        return ("deep", str(type(x)))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    if x is None or isinstance(x, (bool, str, bytes)):
        return ("v", x)
    if isinstance(x, (np.bool_,)):
        return ("v", bool(x))
    if isinstance(x, (int, np.integer)):
        return ("i", int(x))
    if isinstance(x, (float, np.floating)):
        return ("f", float(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(canon(v, depth + 1) for v in x.ravel().tolist()))
        return ("nd", x.dtype.str, x.shape, np.array(x, copy=True))
    if isinstance(x, pd.Series):
        return ("series", canon(x.name, depth + 1), _cindex(x.index), canon(x.to_numpy(), depth + 1))
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(str(c) for c in x.columns), _cindex(x.index), tuple(canon(x.iloc[:, i].to_numpy(), depth + 1) for i in range(x.shape[1])))
    if isinstance(x, pd.Index):
        return ("index",) + _cindex(x)
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((str(k), canon(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))))
    if isinstance(x, (pd.Timestamp, pd.Timedelta, datetime.datetime)):
        return ("v", str(x))
    return ("obj", type(x).__name__)


def _cindex(i):
    f = None
    if isinstance(i, pd.DatetimeIndex):
        f = str(i.freq)
        v = np.asarray(i.asi8)
    else:
        v = np.asarray(i)
    if v.dtype == object:
        v = ("t", tuple(str(t) for t in v.tolist()))
    else:
        v = ("n", np.array(v, copy=True))
    return (type(i).__name__ if not isinstance(i, pd.RangeIndex) else "Index", str(i.name), f, v)


def same(a, b, exact=False):
    """True when two canonical results are the same (None otherwise a reason string)."""
    return diff(a, b, exact) is None


def diff(a, b, exact=False, path=""):
    if type(a) is not type(b):
        return f"{path}: {short(a)} != {short(b)}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{path}: {short(a)} != {short(b)}"
        if a and a[0] == "nd" and b[0] == "nd":
            if a[1] != b[1] or a[2] != b[2]:
                return f"{path}: array {a[1]}{a[2]} != {b[1]}{b[2]}"
            return _ndiff(a[3], b[3], exact, path)
        if a and a[0] == "f" and b[0] == "f":
            return _ndiff(np.array(a[1]), np.array(b[1]), exact, path)
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, exact, f"{path}/{i}")
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        return _ndiff(a, b, exact, path)
    if a != b and not (a != a and b != b):
        return f"{path}: {short(a)} != {short(b)}"
    return None


def _ndiff(x, y, exact, path):
    if x.shape != y.shape or x.dtype != y.dtype:
        return f"{path}: array {x.dtype}{x.shape} != {y.dtype}{y.shape}"
    if x.size == 0:
        return None
    if x.dtype.kind not in "fc" or exact:
        eq = (x == y) | ((x != x) & (y != y))
        if not np.all(eq):
            i = int(np.argmin(np.ravel(eq)))
            return f"{path}: element {i}: {np.ravel(x)[i]!r} != {np.ravel(y)[i]!r} ({int(np.size(eq) - np.sum(eq))} of {np.size(eq)} differ)"
        return None
    nx, ny = np.isnan(x), np.isnan(y)
    with np.errstate(all="ignore"):
        fin = np.isfinite(x)
        scale = np.max(np.abs(x[fin])) if fin.any() else 0.0
        bad = (nx != ny) | (~nx & ~ny & (x != y) & ~(np.abs(x - y) <= RTOL * np.maximum(np.abs(x), np.abs(y)) + ATOL * scale))
    if np.any(bad):
        i = int(np.argmax(np.ravel(bad)))
        return f"{path}: element {i}: {np.ravel(x)[i]!r} != {np.ravel(y)[i]!r} ({int(np.sum(bad))} of {np.size(bad)} differ)"
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def digest(c):
    """Stable digest of a canonical result (for event logs / state measures)."""
    h = 0

    def rec(v):
        nonlocal h
        if isinstance(v, tuple):
            h = zlib.crc32(b"(", h)
            for y in v:
                rec(y)
        elif isinstance(v, np.ndarray):
            if v.dtype.kind == "f":
                with np.errstate(all="ignore"):
                    v = np.array([float(f"{t:.6g}") if t == t else -9.87e30 for t in v.ravel().tolist()])
            h = zlib.crc32(np.ascontiguousarray(v).tobytes(), h)
        elif isinstance(v, float):
            h = zlib.crc32(f"{v:.6g}".encode(), h)
        else:
            h = zlib.crc32(repr(v).encode(), h)

    rec(c)
    return h


def fingerprint(objs):
    """Exact content of caller-owned inputs."""
    out = []
    for o in objs:
        if isinstance(o, np.ndarray):
            out.append((o.tobytes(), o.dtype.str, o.shape, o.flags.writeable))
        elif isinstance(o, pd.Series):
            out.append((o.to_numpy().tobytes() if o.dtype != object else repr(o.tolist()), str(o.dtype), repr(o.name), type(o.index).__name__, repr(o.index.name), hash_index(o.index)))
        elif isinstance(o, pd.DataFrame):
            out.append((tuple(o.iloc[:, i].to_numpy().tobytes() for i in range(o.shape[1])), tuple(map(str, o.columns)), repr(o.index.name), hash_index(o.index)))
        elif isinstance(o, list):
            out.append(("list", tuple(repr(v) if not isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)) else fingerprint([v]) for v in o)))
        elif isinstance(o, pd.Index):
            out.append((hash_index(o), repr(o.name)))
        else:
            out.append(None)
    return out


def hash_index(i):
    v = np.asarray(i)
    if v.dtype == object:
        return repr(v.tolist())
    return v.tobytes()


def scribble(x):
    """Overwrite a value in place, as a careless caller would."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.dtype.kind in "fiu":
            x *= 0
            x += 77
        return 1
    if isinstance(x, (pd.Series, pd.DataFrame)):
        try:
            if isinstance(x, pd.Series):
                if x.dtype.kind in "fiu" and len(x):
                    x.iloc[:] = 77
            elif x.size:
                for c in range(x.shape[1]):
                    if x.dtypes.iloc[c].kind in "fiu":
                        x.iloc[:, c] = 77
        except Exception:
            pass
        try:
            v = x.to_numpy()
            if v.flags.writeable and v.dtype.kind in "fiu":
                v[...] = 55
        except Exception:
            pass
        return 1
    if isinstance(x, (list, tuple)):
        return sum(scribble(v) for v in x)
    if isinstance(x, dict):
        return sum(scribble(v) for v in x.values())
    return 0
