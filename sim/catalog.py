"""The library's public surface as generated operations.

op = {"f": name, "a": {arg: recipe}}                      plain function
   | {"o": kind, "ctor": {...}, "m": method, "a": {...}}  method of a newly built object
   | {"oid": id, "m": method, "a": {...}}                 method of a shared object (env)
"""
import importlib
import json

import numpy as np

from . import values as V

# ------------------------------------------------------------------ resolving names
_cache = {}


def lib(mod, name):
    key = (mod, name)
    m = importlib.import_module("quantfinlib." + mod)
    return getattr(m, name)


def has(mod, name):
    key = (mod, name)
    if key not in _cache:
        try:
            lib(mod, name)
            _cache[key] = True
        except (ImportError, AttributeError):
            _cache[key] = False
    return _cache[key]


# ------------------------------------------------------------------ argument generators
def rn(rng, a, b):
    return rng.randint(a, b)


def ctx(rng, nmin=8, nmax=60):
    c = rng.choice(["np", "np", "series", "series"])
    return {
        "n": rng.choice([rn(rng, nmin, nmax), rn(rng, nmin, nmax), 30]) if rng.random() < 0.96 else rng.choice([64, 128, 257, 600]),
        "c": c,
        "idx": rng.choice(["range", "B", "D", "irreg", "str", "shift", "range", "B", "D", "tz", "h", "period", "dupdate", "desc", "multi"]) if c == "series" else None,
        "seed": rn(rng, 1, 10**6),
        "name": rng.choice([None, "x", "close", 7]),
    }


def ser(rng, cx, gen=None, k=0):
    gen = gen or rng.choice(["price"] * 5 + ["ties", "nan", "normal", "huge", "const", "neg", "tiny"])
    r = {"k": "arr", "n": cx["n"], "gen": gen, "seed": cx["seed"] + k, "c": cx["c"]}
    if cx["idx"]:
        r["idx"] = cx["idx"]
        r["idxseed"] = cx["seed"]
        r["name"] = cx["name"]
    if gen in ("price", "ties", "volume") and rng.random() < 0.15:
        r["dtype"] = rng.choice(["float32", "int64"])
    return r


def ohl(rng, cx, f):
    r = {"k": "ohlc", "n": cx["n"], "seed": cx["seed"], "f": f, "c": cx["c"]}
    if cx["idx"]:
        r["idx"] = cx["idx"]
        r["idxseed"] = cx["seed"]
    if cx.get("flat"):
        r["flat"] = True
    return r


def win(rng, n):
    r = rng.random()
    if r < 0.07:
        return rng.choice([0, -1, n + 5, n])
    if r < 0.12:
        return {"k": "npint", "v": rn(rng, 2, max(2, n // 2))}
    return rng.choice([2, 3, 5, 10, rn(rng, 2, max(2, n // 2))])


def mat(rng, gens=("common", "normal", "price", "ties"), nmin=12, nmax=50, mmin=2, mmax=5, dup=True):
    c = rng.choice(["np", "frame"])
    r = {
        "k": "arr", "n": rn(rng, nmin, nmax), "m": rn(rng, mmin, mmax), "gen": rng.choice(list(gens) + (["dup"] if dup and rng.random() < 0.1 else [])),
        "seed": rn(rng, 1, 10**6), "c": c,
    }
    if c == "np" and rng.random() < 0.2:
        r["lay"] = rng.choice(["F", "view"])
    return r


F = {}


def fn(name, mod, gen, attr=None, call=None, weight=1):
    F[name] = {"mod": mod, "attr": attr or name, "gen": gen, "call": call, "w": weight}


def _simple(mod, name, wname):
    def gen(rng):
        cx = ctx(rng)
        return {"ts": ser(rng, cx), wname: win(rng, cx["n"])}

    fn(name, mod, gen)


IND = "feature.indicators"
for _n, _w in [("rolling_mean", "window"), ("rolling_std", "window"), ("rolling_max", "window"), ("rolling_min", "window"),
               ("ewm_mean", "span"), ("ewm_std", "span"), ("rolling_mom", "window"), ("rsi", "period"), ("ewm_rsi", "period")]:
    _simple(IND, _n, _w)


def _g_ewm_mom(rng):
    cx = ctx(rng)
    return {"ts": ser(rng, cx), "span": win(rng, cx["n"]), "min_periods": rn(rng, 0, 4)}


fn("ewm_mom", IND, _g_ewm_mom)


def _g_macd(rng):
    cx = ctx(rng)
    a = {"ts": ser(rng, cx)}
    if rng.random() < 0.8:
        a["fast"], a["slow"] = rn(rng, 2, 12), rn(rng, 5, 26)
    return a


fn("macd", IND, _g_macd)


def _g_macds(rng):
    a = _g_macd(rng)
    if rng.random() < 0.5:
        a["signal"] = rn(rng, 2, 9)
    return a


fn("macd_signal", IND, _g_macds)


def _g_atr(rng):
    cx = ctx(rng)
    return {"high": ohl(rng, cx, "high"), "low": ohl(rng, cx, "low"), "close": ohl(rng, cx, "close"), "window": win(rng, cx["n"])}


fn("average_true_range", IND, _g_atr)

MS = "feature.micro_structure"


def _g_c(rng):
    cx = ctx(rng)
    return {"p_close": ser(rng, cx, rng.choice(["price", "price", "ties", "nan"])), "window": win(rng, cx["n"])}


def _g_hl(rng):
    cx = ctx(rng)
    cx["flat"] = rng.random() < 0.2
    return {"p_high": ohl(rng, cx, "high"), "p_low": ohl(rng, cx, "low"), "window": win(rng, cx["n"])}


def _g_ohlc(rng):
    cx = ctx(rng)
    cx["flat"] = rng.random() < 0.2
    a = {"p_" + f: ohl(rng, cx, f) for f in ("high", "low", "open", "close")}
    a["window"] = win(rng, cx["n"])
    return a


def _g_edge(rng):
    cx = ctx(rng, 6, 24)
    cx["n"] = min(cx["n"], 24)
    cx["flat"] = rng.random() < 0.2
    a = {"p_" + f: ohl(rng, cx, f) for f in ("high", "low", "open", "close")}
    a["window"] = rn(rng, 3, max(3, cx["n"] - 1))
    if rng.random() < 0.4:
        a["sign"] = rng.random() < 0.7
    return a


def _g_cv(rng, w=True):
    cx = ctx(rng)
    a = {"p_close": ser(rng, cx, "price"), "volume": ser(rng, cx, "volume", 1)}
    if w:
        a["window"] = win(rng, cx["n"])
    return a


def _g_vpin(rng):
    cx = ctx(rng)
    v = ser(rng, cx, "volume", 1)
    return {"volume": v, "buy_volume": dict(v, gen="sigma", seed=v["seed"] + 7), "window": win(rng, cx["n"])}


def _g_buy(rng):
    cx = ctx(rng)
    return {"p_close": ser(rng, cx, "price"), "volume": ser(rng, cx, "volume", 1), "sigma_p": ser(rng, cx, "sigma", 2)}


fn("get_close_close_volatility", MS, _g_c)
fn("get_roll_measure", MS, _g_c)
fn("get_high_low_volatility", MS, _g_hl)
fn("get_becker_parkinson_volatility", MS, _g_hl)
fn("get_cowrin_schultz_spread", MS, _g_hl)
fn("get_garman_klass_volatility", MS, _g_ohlc)
fn("get_rogers_satchell_volatility", MS, _g_ohlc)
fn("get_yang_zhang_volatility", MS, _g_ohlc)
fn("get_edge_spread", MS, _g_edge)
fn("get_roll_impact", MS, _g_cv)
fn("get_kyle_lambda", MS, _g_cv)
fn("get_amihud_lambda", MS, _g_cv)
fn("get_hasbrouck_lambda", MS, _g_cv)
fn("get_vpin", MS, _g_vpin)
fn("estimate_buy_volume", MS, _g_buy)


def _g_cusum(rng):
    return {"y": {"k": "arr", "n": rn(rng, 3, 30), "gen": rng.choice(["price", "price", "ties"]), "seed": rn(rng, 1, 10**6), "c": "np"}}


fn("chu_stinchcombe_white_cusum_test", "feature.structural_breaks.cusumtest", _g_cusum)


def corr_(rng, n, frame=0.0):
    """A correlation matrix; sometimes with entries at or a rounding error beyond the ends of [-1, 1]."""
    r = {"k": "corr", "n": n, "seed": rn(rng, 1, 10**6)}
    if rng.random() < 0.25:
        r["var"] = rng.choice(["one", "over", "minus", "under", "ident"])
    if rng.random() < frame:
        r["c"] = "frame"
    return r


def _g_corr1(rng):
    if rng.random() < 0.25:
        return {"corr": rng.choice([round(rng.uniform(-1, 1), 3), 1.0, -1.0, 1.0000000000000002])}
    return {"corr": corr_(rng, rn(rng, 2, 6))}


for _n in ("corr_to_angular_dist", "corr_to_abs_angular_dist", "corr_to_squared_angular_dist"):
    fn(_n, "distance", _g_corr1)


def _g_pair(rng, c="np"):
    n, s = rn(rng, 5, 60), rn(rng, 1, 10**6)
    g = rng.choice(["normal", "walk", "ties"])
    return {"x": {"k": "arr", "n": n, "gen": g, "seed": s, "c": c}, "y": {"k": "arr", "n": n, "gen": g, "seed": s + (0 if rng.random() < 0.1 else 1), "c": c}}


for _n in ("pair_angular_distance", "pair_abs_angular_distance", "pair_squared_angular_distance"):
    fn(_n, "distance", _g_pair)


def _g_info(rng):
    a = _g_pair(rng, rng.choice(["np", "series"]))
    if rng.random() < 0.5:
        a["bins"] = rn(rng, 2, 9)
    if rng.random() < 0.5:
        a["norm"] = rng.random() < 0.5
    return a


def _g_ent(rng):
    a = _g_pair(rng, rng.choice(["np", "series"]))
    a["bins"] = rn(rng, 2, 9)
    return a


def _g_kl(rng):
    a = _g_pair(rng, rng.choice(["np", "series"]))
    if rng.random() < 0.5:
        a["bins"] = rn(rng, 2, 9)
    return a


fn("compute_entropies", "distance", _g_ent)
fn("mutual_info", "distance", _g_info)
fn("var_info", "distance", _g_info)
fn("kl_divergence_xy", "distance", _g_kl)


def _g_div(rng):
    n, s = rn(rng, 2, 5), rn(rng, 1, 10**6)
    return {"p": {"k": "corr", "n": n, "seed": s}, "q": {"k": "corr", "n": n, "seed": s + 1}}


fn("log_det_divergence", "distance", _g_div)
fn("von_neuman_divergence", "distance", _g_div)


def _g_cdm(rng):
    a = {"X": mat(rng)}
    if rng.random() < 0.7:
        a["corr_method"] = rng.choice(["pearson", "spearman", "spearman", "kendall"])
    if rng.random() < 0.7:
        a["corr_to_dist_method"] = rng.choice(["angular", "abs_angular", "squared_angular", "bogus"]) if rng.random() < 0.9 else "abs_angular"
    if rng.random() < 0.15:
        a["corr_transformer"] = {"k": "fn", "v": rng.choice(["shrink", "shrink", "boom"])}
    if rng.random() < 0.2:
        a["min_periods"] = rn(rng, 1, 5)
    if a["X"]["c"] == "np":
        pass
    return a


def _g_idm(rng):
    a = {"X": mat(rng, mmax=4, nmax=40)}
    if rng.random() < 0.7:
        a["method"] = rng.choice(["mutual_info", "var_info"])
    if rng.random() < 0.4:
        a["bins"] = rn(rng, 2, 8)
    if rng.random() < 0.3:
        a["norm"] = rng.random() < 0.5
    return a


fn("get_corr_distance_matrix", "distance", _g_cdm)
fn("get_info_distance_matrix", "distance", _g_idm)


def _g_ctd(rng):
    return {"corr": corr_(rng, rn(rng, 2, 6), 0.4), "corr_to_dist_method": rng.choice(["angular", "abs_angular", "squared_angular"])}


fn("corr_to_dist", "distance.distance_matrix", _g_ctd)


def _g_gap(rng):
    n = rn(rng, 6, 16)
    a = {"dist": {"k": "dist", "n": n, "seed": rn(rng, 1, 10**6), "c": rng.choice(["np", "frame"])},
         "labels": {"k": "labels", "n": n, "kk": rng.choice([2, 3, 4, n // 2]), "seed": rn(rng, 0, 1), "c": rng.choice(["np", "series"]), "str": rng.random() < 0.45},
         "nb": rn(rng, 1, 6)}
    if rng.random() < 0.7:
        a["random_state"] = rng.choice([0, 1, 2, 5, 42, rn(rng, 0, 10**6)])
    return a


def _g_sil(rng):
    a = _g_gap(rng)
    return {"dist": a["dist"], "labels": a["labels"]}


fn("gap_statistic", "clustering", _g_gap, weight=3)
fn("silhouette_tstat", "clustering", _g_sil)


def _g_opt(rng):
    n = rn(rng, 8, 14)
    return {"dist": {"k": "dist", "n": n, "seed": rn(rng, 1, 10**6)}, "max_clust": rn(rng, 3, 5), "metric": rng.choice(["gap", "silhouette"]), "nb": rn(rng, 2, 5)}


def _c_opt(f, a):
    from scipy.cluster import hierarchy
    from scipy.spatial.distance import squareform

    a = dict(a)
    a["linkage"] = hierarchy.linkage(squareform(a["dist"]), method="ward")
    return f(**a)


fn("optimize_n_clusters", "clustering", _g_opt, call=_c_opt)


def _g_freq(rng):
    n = rn(rng, 3, 40)
    r = {"k": "arr", "n": n, "gen": "normal", "seed": rn(rng, 1, 10**6), "c": rng.choice(["series", "frame"]), "idx": rng.choice(["D", "B", "W", "ME", "MS", "QE", "YS", "irreg", "range"])}
    if rng.random() < 0.3:
        return {"ts_obj": {"k": "idx", "n": n, "idx": r["idx"], "seed": r["seed"]}}
    return {"ts_obj": r}


fn("time_series_freq", "_datatypes.timeseries", _g_freq)
fn("time_series_freq_to_duration", "_datatypes.timeseries", lambda rng: {"freq": rng.choice(["D", "B", "W", "ME", "QS", "Y", "XX"])})

COV = "math.cov"
fn("_cor_block_diagonal", COV, lambda rng: {} if rng.random() < 0.3 else {"block_sizes": [rn(rng, 1, 4), rn(rng, 1, 4)], "block_cors": [0.5, round(rng.uniform(-0.2, 0.9), 2)]})
fn("_cov_to_cor", COV, lambda rng: {"cov": {"k": "cov", "n": rn(rng, 2, 6), "seed": rn(rng, 1, 10**6)}})
fn("_cor_to_cov", COV, lambda rng: (lambda n, s: {"cor": {"k": "corr", "n": n, "seed": s}, "std": {"k": "arr", "n": n, "gen": "sigma", "seed": s, "c": "np"}})(rn(rng, 2, 6), rn(rng, 1, 10**6)))
fn("_cor_to_eig", COV, lambda rng: dict({"cor": {"k": "corr", "n": rn(rng, 2, 6), "seed": rn(rng, 1, 10**6)}}, **rng.choice([{}, {"sort": False}, {"k": 2}])))
fn("_marcenko_pastur_support", COV, lambda rng: {"var": round(rng.uniform(0.2, 2), 3), "num_timesteps": rn(rng, 10, 200), "num_assets": rn(rng, 2, 20)})
fn("_marchenko_pastur_pdf", COV, lambda rng: {"var": round(rng.uniform(0.2, 2), 3), "num_timesteps": rn(rng, 20, 200), "num_assets": rn(rng, 2, 20), "eigen_values": {"k": "eigs", "n": rn(rng, 3, 8), "seed": rn(rng, 1, 10**6)}})
fn("_eigen_values_denoise", COV, lambda rng: {"eigen_values": {"k": "eigs", "n": rn(rng, 4, 9), "seed": rn(rng, 1, 10**6)}, "num_timesteps": rng.choice([3, 50, 100]), "k": rn(rng, 1, 3)})
fn("_cor_denoise", COV, lambda rng: {"cor": {"k": "corr", "n": rn(rng, 3, 6), "seed": rn(rng, 1, 10**6)}, "num_timesteps": rn(rng, 30, 200), "k": rn(rng, 1, 3)})
fn("_cov_denoise", COV, lambda rng: {"cov": {"k": "cov", "n": rn(rng, 3, 6), "seed": rn(rng, 1, 10**6)}, "num_timesteps": rn(rng, 30, 200), "k": rn(rng, 1, 3)})
fn("_cov_denoise_fit", COV, lambda rng: {"cov": {"k": "cov", "n": rn(rng, 3, 6), "seed": rn(rng, 1, 10**6)}, "num_timesteps": rng.choice([2, 40, 100])}, attr="_cov_denoise", weight=0.1)
fn("_marchenko_pastur_fit", COV, lambda rng: {"num_timesteps": rn(rng, 30, 200), "num_assets": rn(rng, 3, 8), "eigen_values": {"k": "eigs", "n": rn(rng, 3, 8), "seed": rn(rng, 1, 10**6)}}, weight=0.1)
for _n in ("load_vix", "load_treasury_rates", "load_equity_indices"):
    fn(_n, "datasets", lambda rng: {}, weight=0.25)

# ------------------------------------------------------------------ objects
O = {}


def obj(kind, gen, new, methods, weight=1):
    O[kind] = {"gen": gen, "new": new, "m": methods, "w": weight}


def _cor(rng, d):
    return {"k": "corr", "n": d, "seed": rn(rng, 1, 10**6)} if d > 1 and rng.random() < 0.7 else None


def _par(rng, lo, hi, d):
    if d == 1:
        return rng.choice([round(rng.uniform(lo, hi), 3), {"k": "nda", "v": [round(rng.uniform(lo, hi), 3)]}, rng.choice([1, 2])])
    v = [round(rng.uniform(lo, hi), 3) for _ in range(d)]
    return rng.choice([{"k": "nda", "v": v}, {"k": "list", "v": v}])


def fit_data(rng, model, d=None, bad=0.0, cont=None):
    d = d or rng.choice([1, 1, 2, 3])
    gen = {"BM": ["walk", "price", "normal"], "GBM": ["price", "price", "tiny"], "OU": ["mr", "mr", "walk", "zigzag"]}[model]
    g = rng.choice(gen)
    if rng.random() < bad:
        g = {"BM": ["dup", "const", "nan", "inf"], "GBM": ["neg", "dup", "const", "nan", "inf"], "OU": ["dup", "const", "nan", "inf"]}[model]
        g = rng.choice(g)
    c = cont or rng.choice(["np", "series", "frame"])
    if c == "series":
        d = 1
    r = {"k": "arr", "n": rn(rng, 6, 40) if rng.random() < 0.94 else rng.choice([64, 101, 260, 700]), "gen": g, "seed": rn(rng, 1, 10**6), "c": c}
    if not (c == "series" or (c == "np" and d == 1 and rng.random() < 0.7)):
        r["m"] = d
    if c != "np":
        r["idx"] = rng.choice(["range", "B", "D", "ME", "W", "irreg"])
        r["name"] = rng.choice([None, "px", "rate"])
        if c == "frame":
            r["cols"] = rng.choice([[f"A{i}" for i in range(d)], [f"px{i}" for i in range(d)]])
    return r


def g_seed(rng):
    return rng.choice([0, 1, 2, 7, 42, rn(rng, 0, 2**31), rn(rng, 0, 2**40), {"k": "npint", "v": rn(rng, 0, 1000)}])


def large(rng, a, p):
    """Occasionally many paths, many steps, or both."""
    if rng.random() < p:
        r = rng.random()
        if r < 0.7:
            a["num_paths"] = rng.choice([8, 9, 10, 17, 33, 65])
        if r > 0.4:
            a["num_steps"] = rng.choice([20, 64, 100, 253, 1025])


def g_sample(rng, ctor, seeded=True):
    d = ctor.get("d", 1)
    fitted = ctor.get("fit") is not None
    a = {"num_steps": rn(rng, 2, 12), "num_paths": rng.choice([1, 1, 2, 3])}
    large(rng, a, 0.06)
    if seeded:
        a["random_state"] = g_seed(rng)
    r = rng.random()
    if r < 0.35:
        a["x0"] = rng.choice([5, 3.5, {"k": "nda", "v": [2.5 + i for i in range(d)]}])
    elif r < 0.6:
        a["x0"] = rng.choice(["first", "last", "first", "last", "bogus"]) if fitted else rng.choice([1.5, "first"] if rng.random() < 0.2 else [1.5])
    if rng.random() < 0.4:
        a["dt"] = rng.choice([1 / 252, 0.5, 1, 1 / 12])
    if rng.random() < 0.3:
        a["label_start"] = rng.choice(["2020-01-01", {"k": "ts", "v": "2021-03-05"}])
        a["label_freq"] = rng.choice(["D", "B", "W"])
    if rng.random() < 0.25:
        a["columns"] = [f"c{i}" for i in range(d)]
    if rng.random() < 0.25:
        a["include_x0"] = False
    return a


def _m_sample(o, a):
    return o.path_sample(**a)


def _g_score(model):
    def g(rng, ctor):
        r = {"x": fit_data(rng, model, ctor.get("d", 1), bad=0.05)}
        if rng.random() < 0.4:
            r["dt"] = rng.choice([1 / 252, 0.5, 1])
        return r

    return g


def _model(kind, cls, ctor_gen):
    def gen(rng, fit=None):
        d = rng.choice([1, 1, 2, 3])
        c = {"d": d, "a": ctor_gen(rng, d)}
        if fit if fit is not None else rng.random() < 0.5:
            r = fit_data(rng, kind)
            c["fit"] = {"x": r}
            if rng.random() < 0.4:
                c["fit"]["dt"] = rng.choice([1 / 252, 0.5, 1])
            c["d"] = r.get("m", 1) or 1
        return c

    def new(c, env):
        m = lib("sim", cls)(**{k: V.build(v, env) for k, v in c["a"].items() if v is not None})
        if c.get("fit"):
            m.fit(**{k: V.build(v, env) for k, v in c["fit"].items()})
        return m

    ms = {"path_sample": (g_sample, _m_sample)}
    for s in ("nll", "aic", "bic"):
        ms[s] = (_g_score(kind), (lambda s: lambda o, a: getattr(o, s)(**a))(s))
    ms["repr"] = (lambda rng, c: {}, lambda o, a: repr(o))
    obj(kind, gen, new, ms)


_model("BM", "BrownianMotion", lambda rng, d: {"drift": _par(rng, -2, 2, d), "vol": _par(rng, 0.05, 1, d), "cor": _cor(rng, d)})
_model("GBM", "GeometricBrownianMotion", lambda rng, d: {"drift": _par(rng, -0.2, 0.2, d), "vol": _par(rng, 0.05, 0.5, d), "cor": _cor(rng, d)})
_model("OU", "OrnsteinUhlenbeck", lambda rng, d: {"mean": _par(rng, -1, 4, d), "mrr": _par(rng, 0.5, 4, d), "vol": _par(rng, 0.05, 1, d), "cor": _cor(rng, d)})


def _q_gen(rng, fit=None):
    base = rng.choice([None, "BM"])
    c = {"d": 1, "a": {"tech_ind_func": {"k": "fn", "v": rng.choice(["mom", "sma", "sign"] * 4 + ["boom", "badlen"])}}}
    if rng.random() < 0.6:
        c["a"]["f_signal_vol"] = rng.choice([0.1, 0.5, 0.9])
    if base:
        d = rng.choice([1, 1, 2])
        c["d"] = d
        c["base"] = {"drift": _par(rng, -1, 1, d), "vol": _par(rng, 0.05, 1, d), "cor": _cor(rng, d)}
    return c


def _q_new(c, env):
    a = {k: V.build(v, env) for k, v in c["a"].items()}
    if c.get("base"):
        a["base_model"] = lib("sim", "BrownianMotion")(**{k: V.build(v, env) for k, v in c["base"].items() if v is not None})
    return lib("sim", "QuasiRandom")(**a)


def _q_sample(rng, c):
    a = g_sample(rng, c)
    if a["num_steps"] < 5:
        a["num_steps"] = rn(rng, 5, 14)
    return a


obj("QR", _q_gen, _q_new, {"path_sample": (_q_sample, _m_sample)})

BM_ = ("upper", "lower", "middle", "bandwidth", "percent_b")


def _bands(kind, cls, gen):
    def new(c, env):
        return lib(IND, cls)(**{k: V.build(v, env) for k, v in c["a"].items()})

    obj(kind, lambda rng, fit=None: {"a": gen(rng)}, new, {m: (lambda rng, c: {}, (lambda m: lambda o, a: getattr(o, m)())(m)) for m in BM_}, weight=0.6)


def _g_b1(rng):
    cx = ctx(rng)
    a = {"ts": ser(rng, cx, rng.choice(["price", "price", "ties", "nan"]))}
    if rng.random() < 0.8:
        a["window"] = rng.choice([2, 3, 5, 10])
    if rng.random() < 0.6:
        a["multiplier"] = rng.choice([1, 2, 3, 1.5])
    return a


def _g_bd(rng):
    a = _g_b1(rng)
    a.pop("multiplier", None)
    return a


def _g_bk(rng):
    cx = ctx(rng)
    a = {f: ohl(rng, cx, f) for f in ("high", "low", "close")}
    if rng.random() < 0.6:
        a["window"], a["window_atr"] = rn(rng, 2, 9), rn(rng, 2, 9)
    if rng.random() < 0.5:
        a["multiplier"] = rng.choice([1, 3])
    return a


def _g_bg(rng):
    cx = ctx(rng)
    return {"ts": ser(rng, cx, "price"), "rolling_mean": ser(rng, cx, "price", 3), "rolling_std": ser(rng, cx, "sigma", 4), "multiplier": rng.choice([1, 2]), "basename": rng.choice(["", " X"])}


_bands("Bollinger", "BollingerBands", _g_b1)
_bands("EwmBollinger", "EwmBollingerBands", _g_b1)
_bands("Donchian", "DonchianBands", _g_bd)
_bands("Keltner", "KeltnerBands", _g_bk)
_bands("GenericB", "GenericBands", _g_bg)


def _hc_gen(rng, fit=None):
    r = rng.random()
    if r < 0.4:
        a = {"dist": {"k": "dist", "n": rn(rng, 6, 14), "seed": rn(rng, 1, 10**6), "c": rng.choice(["np", "frame"])}}
    elif r < 0.6:
        a = {"corr": corr_(rng, rn(rng, 6, 10), 0.4)}
        if rng.random() < 0.25:
            a["dist"] = {"k": "dist", "n": a["corr"]["n"], "seed": rn(rng, 1, 10**6)}
    else:
        a = {"X": dict(mat(rng, mmin=6, mmax=9, gens=("common", "normal"), dup=False), c="np")}
        if rng.random() < 0.4:
            a["codependence_method"] = rng.choice(["spearman-correlation", "spearman-correlation", "var_info", "pearson-correlation"])
        if rng.random() < 0.4:
            a["corr_to_dist_method"] = rng.choice(["abs_angular", "squared_angular"])
        if rng.random() < 0.2:
            a["dist"] = {"k": "dist", "n": a["X"]["m"], "seed": rn(rng, 1, 10**6), "c": rng.choice(["np", "frame"])}
    if rng.random() < 0.4:
        a["linkage_method"] = rng.choice(["single", "average", "complete"])
    if rng.random() < 0.2:
        a["optimal_ordering"] = False
    return {"a": a}


def _hc_new(c, env):
    return lib("clustering", "HC")(**{k: V.build(v, env) for k, v in c["a"].items()})


obj("HC", _hc_gen, _hc_new, {
    "linkage": (lambda rng, c: {}, lambda o, a: o.linkage),
    "get_clusters": (lambda rng, c: {"n_clusters": rn(rng, 2, 5)}, lambda o, a: o.get_clusters(**a)),
    "get_optimal_nclusters": (lambda rng, c: {"max_clust": rn(rng, 3, 5), "metric": rng.choice(["gap", "silhouette"]), "nb": rn(rng, 2, 4)}, lambda o, a: o.get_optimal_nclusters(**a)),
})


def split_data(rng):
    n = rn(rng, 10, 40)
    a = {"X": {"k": "arr", "n": n, "m": 2, "gen": "normal", "seed": rn(rng, 1, 10**6), "c": rng.choice(["np", "frame"])}}
    if rng.random() < 0.2:
        a["y"] = {"k": "arr", "n": n, "gen": "normal", "seed": rn(rng, 1, 10**6), "c": rng.choice(["np", "series"])}
    return n, a


def _g_split(rng, c):
    n, a = split_data(rng)
    if c["a"].get("freq"):
        a["groups"] = {"k": "groups", "n": n, "seed": rn(rng, 1, 10**6), "dups": c.get("dups", False), "kind": "dates"}
    elif rng.random() < 0.4:
        a["groups"] = {"k": "groups", "n": n, "seed": rn(rng, 1, 10**6), "dups": c.get("dups", False)}
    return a


def _wf_gen(rng, fit=None):
    a = {"n_embargo": rn(rng, 0, 2), "train_window": rn(rng, 4, 8), "test_window": rn(rng, 1, 4), "split_type": rng.choice(["expanding", "rolling"])}
    if rng.random() < 0.3:
        a["freq"] = "D"
    return {"a": a, "dups": False}


def _kf_gen(rng, fit=None):
    a = {"n_folds": rn(rng, 2, 5), "n_embargo": rn(rng, 0, 2), "n_purge": rn(rng, 0, 2), "look_forward": rng.random() < 0.4}
    if rng.random() < 0.3:
        a["freq"] = "D"
    return {"a": a, "dups": rng.random() < 0.3}


def _m_split(o, a):
    return [tuple(x) for x in o.split(**a)]


obj("WF", _wf_gen, lambda c, env: lib("train_test_split", "WalkForward")(**c["a"]), {"split": (_g_split, _m_split)})
obj("KF", _kf_gen, lambda c, env: lib("train_test_split", "TimeAwareKFold")(**c["a"]), {"split": (_g_split, _m_split)})


# ------------------------------------------------------------------ generation
def available():
    fs = [n for n in F if has(F[n]["mod"], F[n]["attr"])]
    return fs, list(O)


def gen_op(rng, names=None, objs=None, seeded=True):
    """A random operation; restricted to `names` (functions / object kinds) when given."""
    fs, os_ = available()
    pool = [(n, F[n]["w"], "f") for n in fs] + [(k, O[k]["w"] * 2.0, "o") for k in os_]
    if names is not None:
        pool = [p for p in pool if p[0] in names]
    tot = sum(p[1] for p in pool)
    x = rng.random() * tot
    for n, w, t in pool:
        x -= w
        if x <= 0:
            break
    op = {"f": n, "a": F[n]["gen"](rng)} if t == "f" else gen_obj_op(rng, n)
    if rng.random() < BIG:
        enlarge(rng, op)
    return op


BIG = 0.06
_SLOW = {"get_edge_spread": 60, "chu_stinchcombe_white_cusum_test": 80, "gap_statistic": 60, "silhouette_tstat": 100, "optimize_n_clusters": 40, "get_info_distance_matrix": 300, "HC": 300}


def enlarge(rng, op, by=(2, 4, 9, 21, 50)):
    """Make the data of an operation larger than the small sizes used otherwise."""
    name = op.get("f") or op.get("o")
    cap = _SLOW.get(name, 3000)
    rec = [get_path(op, p) for p in _data_recipes(op)]
    rows = [r for r in rec if r["k"] in ("arr", "ohlc", "groups", "dist", "labels")]
    if op.get("o") == "HC":
        rows = [r for r in rows if r["k"] == "arr"]
    if rows:
        n = max(r["n"] for r in rows)
        f = rng.choice(by)
        f = max(1, min(f, cap // n))
        for r in rows:
            r["n"] *= f
    a = op["a"]
    if "num_steps" in a:
        large(rng, a, 1)
    for k in ("window", "span", "period"):
        if isinstance(a.get(k), int) and rows and rng.random() < 0.5 and name not in _SLOW:
            a[k] = rng.choice([20, 30, 64, 100, 252])
    return op


def gen_obj(rng, kind, fit=None):
    return {"o": kind, "ctor": O[kind]["gen"](rng, fit)}


def gen_obj_op(rng, kind, ctor=None, method=None, fit=None):
    ctor = ctor or O[kind]["gen"](rng, fit)
    ms = O[kind]["m"]
    if method is None:
        method = rng.choice(sorted(ms))
        if "path_sample" in ms and rng.random() < 0.4:
            method = "path_sample"
    return {"o": kind, "ctor": ctor, "m": method, "a": ms[method][0](rng, ctor)}


def _data_recipes(x, path=()):
    """Paths of array recipes inside an op."""
    if isinstance(x, dict):
        if x.get("k") in ("arr", "ohlc", "corr", "cov", "eigs", "dist", "labels", "groups", "idx"):
            yield path
            return
        for k, v in x.items():
            yield from _data_recipes(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _data_recipes(v, path + (i,))


def get_path(x, p):
    for k in p:
        x = x[k]
    return x


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


PERT = ["swap", "bump", "last", "first", "rev", "scale", "shift", "nan", "shuf", "mid", "eps"]


def _relabel(rng, op, paths):
    """Same numbers, other container, labels or memory layout (in all arguments alike)."""
    rs = [get_path(op, p) for p in paths]
    rs = [d for d in rs if d.get("k") in ("arr", "ohlc", "idx")]
    if not rs:
        return False
    how = rng.choice(["c", "idx", "idx", "inner", "inner", "name", "cols", "lay"])
    for d in rs:
        if how == "c" and d["k"] != "idx":
            d["c"] = {"np": "frame" if d.get("m") else "series", "series": "np", "frame": "np"}[d.get("c", "np")]
        elif how == "idx" and d.get("c", "np") != "np":
            d["idx"] = {"range": "shift", "shift": "str", "str": "D", "D": "B", "B": "D", None: "B"}.get(d.get("idx"), "D")
        elif how == "inner":
            d["idxin"] = rng.choice([1, 2, 3]) if not d.get("idxin") else None
        elif how == "name":
            d["name"] = rng.choice([None, "x", "other", 3])
        elif how == "cols" and d.get("c") == "frame":
            d["cols"] = [f"Z{i}" for i in range(max(d.get("m", 1), 1))]
        elif how == "lay" and d.get("m"):
            d["lay"] = rng.choice(["F", "view", None])
    if how == "inner" and len({d.get("idxin") for d in rs}) > 1:
        for d in rs:
            d["idxin"] = rs[0].get("idxin")
    return True


def vary(rng, op):
    """A close relative of `op`: same call, slightly different content or one changed argument."""
    op = deep(op)
    paths = list(_data_recipes(op))
    if "random_state" in op["a"] and rng.random() < 0.5:
        op["a"]["random_state"] = g_seed(rng) if "num_steps" in op["a"] else rn(rng, 0, 10**6)
        return op
    for p, q in (("x", "y"), ("p", "q")):
        if p in op["a"] and q in op["a"] and rng.random() < 0.25:
            op["a"][p], op["a"][q] = op["a"][q], op["a"][p]
            return op
    if paths and rng.random() < (0.7 if "ts_obj" in op["a"] else 0.18) and _relabel(rng, op, paths):
        return op
    r = rng.random()
    if paths and r < 0.62:
        p = rng.choice(paths)
        d = get_path(op, p)
        if rng.random() < 0.35:
            d["seed"] = d.get("seed", 1) + 1
            d.pop("perturb", None)
        else:
            d["perturb"] = [rng.choice(PERT), rn(rng, 0, 30), rn(rng, 0, 30)]
    elif paths and r < 0.7:
        d = get_path(op, rng.choice(paths))
        if d.get("k") == "arr" and d.get("gen") in ("price", "ties", "walk", "volume"):
            d["dtype"] = rng.choice(["float32", "int64", "float64"])
        elif d.get("idx"):
            d["idx"] = rng.choice(["range", "B", "D", "shift"])
    elif r < 0.92:
        ks = [k for k, v in op["a"].items() if isinstance(v, (int, float, bool)) and v is not None]
        src = op["a"]
        if not ks and "ctor" in op:
            src = op["ctor"]["a"]
            ks = [k for k, v in src.items() if isinstance(v, (int, float, bool)) and v is not None]
        if ks:
            k = rng.choice(ks)
            v = src[k]
            if isinstance(v, bool):
                src[k] = not v
            elif isinstance(v, int):
                src[k] = rng.choice([v + 1, max(v - 1, 1), v + 2, float(v)]) if k not in ("num_steps", "num_paths", "nb", "max_clust", "n_clusters", "n_folds", "random_state", "n_embargo", "n_purge", "bins", "k") else v + 1
            else:
                src[k] = v * 1.5
    else:
        if "f" in op:
            op["a"] = F[op["f"]]["gen"](rng)
        else:
            op["a"] = O[op["o"]]["m"][op["m"]][0](rng, op["ctor"]) if "ctor" in op else op["a"]
    return op


# ------------------------------------------------------------------ execution
DATA = ("arr", "ohlc", "corr", "cov", "eigs", "dist", "labels", "groups", "nda", "list", "idx")


class Env:
    """What a simulated application holds: long-lived objects and (optionally shared) inputs."""

    def __init__(self, share=False):
        self.objs = {}
        self.memo = {} if share else None
        self.extra = {}
        self.slots = {}

    def __getitem__(self, k):
        return self.extra[k]

    def build(self, v):
        if self.memo is None or not (isinstance(v, dict) and v.get("k") in DATA):
            return V.build(v, self)
        key = json.dumps(v, sort_keys=True)
        if key not in self.memo:
            self.memo[key] = V.build(v, self)
        return self.memo[key]


def build_args(op, env=None):
    return {k: (env.build(v) if env is not None else V.build(v)) for k, v in op["a"].items()}


def _raise(e):
    raise type(e)(*e.args)


def add_obj(env, oid, o):
    """Build a long-lived object; one that cannot be built fails the same way at every use."""
    try:
        env.objs[oid] = (o["o"], O[o["o"]]["new"](o["ctor"], env))
    except Exception as e:  # noqa: BLE001
        env.objs[oid] = (o["o"], e)


def prepare(op, env=None):
    """Returns (thunk, list of caller-owned inputs)."""
    if "f" in op:
        e = F[op["f"]]
        a = build_args(op, env)
        f = lib(e["mod"], e["attr"])
        if e["call"]:
            return (lambda: e["call"](f, a)), list(a.values())
        return (lambda: f(**a)), list(a.values())
    if "oid" in op:
        kind = env.objs[op["oid"]][0]
        a = build_args(op, env)
        o = env.objs[op["oid"]][1]
        if isinstance(o, BaseException):
            return (lambda: _raise(o)), list(a.values())
        m = O[kind]["m"][op["m"]][1]
        return (lambda: m(o, a)), list(a.values())
    kind = op["o"]
    # constructor arguments are built first so that they, too, are watched
    ctor = deep(op["ctor"])
    owned = []
    tab = {}

    def pre(d, key):
        for k, v in list((d.get(key) or {}).items()):
            if isinstance(v, dict) and (v.get("k", "fn") != "fn" or "slot" in v):
                o = env.build(v) if env is not None else V.build(v)
                name = f"#{key}.{k}"
                tab[name] = o
                owned.append(o)
                d[key][k] = {"ref": name}

    for key in ("a", "fit", "base"):
        pre(ctor, key)
    a = build_args(op, env)
    owned += list(a.values())
    m = O[kind]["m"][op["m"]][1]

    class _E:
        slots = env.slots if env is not None else {}

        def __getitem__(self, k):
            return tab[k] if k in tab else env[k]

    e = _E()
    return (lambda: m(O[kind]["new"](ctor, e), a)), owned


def pool():
    """Names of everything that can be called, in a fixed order (for stratified choice)."""
    fs, os_ = available()
    return sorted(fs) + sorted(os_) * 2


def name_of(op):
    return op.get("f") or f"{op.get('o', op.get('oid'))}.{op['m']}"
