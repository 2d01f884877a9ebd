"""Planted bugs: edits of /repo with a demonstration each (see mkseed.py)."""
PLANTS = {}


def plant(id, prop, edits, demo, needs, breaks):
    PLANTS[id] = {"property": prop, "edits": edits, "demo": demo, "needs": needs, "breaks": breaks}


plant("C04-seed-zero", "C04",
      [("quantfinlib/sim/_base.py", "    rng = np.random.default_rng(random_state)\n",
        "    rng = np.random.default_rng(random_state or None)\n")],
      '''
import sys
from quantfinlib.sim import BrownianMotion
a = BrownianMotion().path_sample(num_steps=5, random_state=0)
b = BrownianMotion().path_sample(num_steps=5, random_state=0)
sys.exit(0 if (a == b).all() else 1)
''', "the seed 0", "a seed of zero is treated as no seed, so the paths are not reproducible")

plant("C02-bins-memo", "C02",
      [("quantfinlib/distance/information.py", '''    if y is None:
        return _get_optimal_nb_bins(x.shape[0], None)
    else:
        corr = np.corrcoef(x, y)[0, 1]
''', '''    if y is None:
        return _get_optimal_nb_bins(x.shape[0], None)
    else:
        key = (len(x), float(x[:1].sum()), float(y[:1].sum()), float(x[-1:].sum()), float(y[-1:].sum()))
        if key not in _CORR_CACHE:
            _CORR_CACHE[key] = np.corrcoef(x, y)[0, 1]
        corr = _CORR_CACHE[key]
'''), ("quantfinlib/distance/information.py", "            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])\n", "            return _get_optimal_nb_bins(x.shape[0], corr=corr)\n"),
       ("quantfinlib/distance/information.py", "from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray\n", "from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray\n\n_CORR_CACHE = {}\n")],
      '''
import sys
import numpy as np
from quantfinlib.distance import mutual_info
g = np.random.default_rng(3)
x = g.normal(size=200)
y = 0.99 * x + 0.01 * g.normal(size=200)
z = y.copy()
z[1:-1] = g.permutation(z[1:-1])
import subprocess
def alone(v):
    return mutual_info(x, v)
a = alone(z)                       # first call in this process
import importlib, quantfinlib.distance.information as m
importlib.reload(m)
m.mutual_info(x, y)
b = m.mutual_info(x, z)
sys.exit(0 if a == b else 1)
''', "two calls on series of equal length with equal first and last values and different correlation", "the number of bins of an earlier call is reused for other data")

plant("C05-label-names", "C05",
      [("quantfinlib/sim/_base.py", '''        if num_paths == 1:
            return base_columns

        return [f"{c}_{i}" for i in range(num_paths) for c in base_columns]
''', '''        if num_paths == 1:
            return base_columns

        names = base_columns
        for i in range(1, num_paths):
            names += [f"{c}_{i}" for c in base_columns[:num_base_columns]]
        return [f"{c}_0" for c in names[:num_base_columns]] + names[num_base_columns:]
''')],
      '''
import sys
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
x = pd.DataFrame({"a": np.arange(9.0) ** 2, "b": np.sin(np.arange(9.0))}, index=pd.date_range("2020-01-01", periods=9))
m = BrownianMotion().fit(x)
a = m.path_sample(num_steps=3, num_paths=1, random_state=1)
m.path_sample(num_steps=3, num_paths=2, random_state=1)
try:
    b = m.path_sample(num_steps=3, num_paths=1, random_state=1)
    sys.exit(0 if list(a.columns) == list(b.columns) else 1)
except AssertionError:
    sys.exit(1)
''', "a fitted model is simulated with several paths and then simulated again", "the column names remembered from the fit grow with every simulation of several paths")


plant("C01-noise-buffer", "C01",
      [("quantfinlib/sim/_base.py", "    ans[:, :] = rng.normal(size=ans.shape)\n",
        """    noise = _NOISE_BUFFERS.get(ans.shape)
    if noise is None:
        noise = _NOISE_BUFFERS[ans.shape] = np.empty(ans.shape)
    rng.standard_normal(out=noise)
    ans[:, :] = noise
"""),
       ("quantfinlib/sim/_base.py", "def _fill_with_correlated_noise(\n",
        "# Drawing into an existing buffer saves an allocation per simulation\n_NOISE_BUFFERS = {}\n\n\ndef _fill_with_correlated_noise(\n")],
      """
import sys, threading
from quantfinlib.sim import BrownianMotion
sys.setswitchinterval(1e-6)
m = BrownianMotion()
want = {s: m.path_sample(num_steps=30000, random_state=s) for s in range(4)}
bad = []
def work(s):
    for _ in range(150):
        if not (m.path_sample(num_steps=30000, random_state=s) == want[s]).all():
            bad.append(s)
ts = [threading.Thread(target=work, args=(s,)) for s in range(4)]
[t.start() for t in ts]; [t.join() for t in ts]
sys.exit(1 if bad else 0)
""", "two threads that simulate the same number of rows and columns at the same time",
      "simulations share a noise buffer, so concurrent ones get each other's random numbers")

plant("C01-clip-out", "C01",
      [("quantfinlib/distance/correlation.py", "    return np.clip(values, a_min=min_val, a_max=max_val)\n",
        """    if isinstance(values, np.ndarray) and values.dtype == float:
        return np.clip(values, a_min=min_val, a_max=max_val, out=values)
    return np.clip(values, a_min=min_val, a_max=max_val)
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import corr_to_angular_dist
c = np.ones((3, 3)); c[0, 1] = c[1, 0] = 1.0000000000000004
d = c.copy()
corr_to_angular_dist(c)
sys.exit(0 if (c == d).all() else 1)
""", "a correlation matrix with entries a rounding error above one", "the caller's correlation matrix is clipped in place")

plant("C01-pair-locks", "C01",
      [("quantfinlib/distance/information.py", """    # Compute joint histogram
    hist_xy, _, _ = np.histogram2d(x, y, bins)
    hist_x, _ = np.histogram(x, bins)
    hist_y, _ = np.histogram(y, bins)
""", """    # Compute the histograms while nobody else is working on these series
    with _LOCKS[id(x) % len(_LOCKS)]:
        hist_x, _ = np.histogram(x, bins)
        with _LOCKS[id(y) % len(_LOCKS)]:
            hist_xy, _, _ = np.histogram2d(x, y, bins)
            hist_y, _ = np.histogram(y, bins)
"""), ("quantfinlib/distance/information.py", "from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray\n",
       "from quantfinlib.util import SeriesOrArray, validate_series_or_1Darray\n\n_LOCKS = [threading.RLock() for _ in range(61)]\n"),
       ("quantfinlib/distance/information.py", "from typing import Optional, Tuple\n", "import threading\nfrom typing import Optional, Tuple\n")],
      """
import sys, threading
import numpy as np
from quantfinlib.distance import mutual_info
sys.setswitchinterval(1e-6)
g = np.random.default_rng(1)
x, y = g.normal(size=(2, 5000))
def work(a, b):
    for _ in range(1500):
        mutual_info(a, b, bins=9)
ts = [threading.Thread(target=work, args=p, daemon=True) for p in ((x, y), (y, x), (x, y), (y, x))]
[t.start() for t in ts]; [t.join(60) for t in ts]
import os
os._exit(1 if any(t.is_alive() for t in ts) else 0)
""", "two threads that compare the same two series in opposite order", "two calls wait for each other forever")

plant("C02-gap-reference", "C02",
      [("quantfinlib/clustering/metrics.py", """        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
""", """        if (n, seed + b) not in _REFERENCES:
            _REFERENCES[n, seed + b] = rng.uniform(0, np.max(dist), size=(n, n))
        dist_ref = _REFERENCES[n, seed + b]
"""), ("quantfinlib/clustering/metrics.py", "def _check_labels_distance_consistency(", "_REFERENCES = {}\n\n\ndef _check_labels_distance_consistency(")],
      """
import sys
import numpy as np
from quantfinlib.clustering import gap_statistic
import quantfinlib.clustering.metrics as m
from importlib import reload
d = np.abs(np.subtract.outer(np.arange(6.0), np.arange(6.0)))
lab = np.array([0, 0, 1, 1, 2, 2])
a = gap_statistic(d * 3, lab)
m = reload(m)
m.gap_statistic(d, lab)
sys.exit(0 if m.gap_statistic(d * 3, lab) == a else 1)
""", "two calls with as many items but distances of another size", "the random reference of an earlier call is reused although it was scaled to other distances")

plant("C02-corr-identity-memo", "C02",
      [("quantfinlib/distance/distance_matrix.py", """    corr = X.corr(method=corr_method, **kwargs)
    return corr.values if inp_numpy_array else corr
""", """    last = _LAST.get(corr_method)
    if last is not None and last[0]() is data and last[1] == kwargs:
        corr = last[2].copy()
    else:
        corr = X.corr(method=corr_method, **kwargs)
        _LAST[corr_method] = (weakref.ref(data), kwargs, corr.copy())
    return corr.values if inp_numpy_array else corr
"""), ("quantfinlib/distance/distance_matrix.py", "    inp_numpy_array = isinstance(X, np.ndarray)\n", "    data = X\n    inp_numpy_array = isinstance(X, np.ndarray)\n"),
       ("quantfinlib/distance/distance_matrix.py", 'logger = logging.getLogger("quantfinlib")\n', 'logger = logging.getLogger("quantfinlib")\n\n# The latest correlation per method: distances are often computed in several ways from the same data\n_LAST = {}\n'),
       ("quantfinlib/distance/distance_matrix.py", "from typing import Callable, Optional\n", "from typing import Callable, Optional\nimport weakref\n")],
      """
import sys
import numpy as np
from quantfinlib.distance import get_corr_distance_matrix
x = np.random.default_rng(0).normal(size=(30, 3))
get_corr_distance_matrix(x)
x[:, 1] = x[:, 0]
sys.exit(0 if abs(get_corr_distance_matrix(x)[0, 1]) < 1e-6 else 1)
""", "the same array object passed again after it was edited in place", "the distances of the data before the edit are returned")

plant("C02-half-built-memo", "C02",
      [("quantfinlib/math/cov.py", """    for var in np.linspace(0.01, 4, 1000):
        pdf = _marchenko_pastur_pdf(var, num_timesteps, num_assets, eigen_values)
""", """    grid = _VAR_GRIDS.setdefault((num_timesteps, num_assets), [])
    for i, var in enumerate(np.linspace(0.01, 4, 1000)):
        if i >= len(grid):
            grid.append((var, _marcenko_pastur_support(var, num_timesteps, num_assets)))
        e_min, e_max = grid[i][1]
        if not np.any((eigen_values > e_min) & (eigen_values < e_max)) and not np.any(eigen_values > 0):
            grid[i:] = [(v, (e_min, e_max)) for v, _ in grid[i:]]
            raise ValueError("eigen_values must be positive")
        pdf = _mp_density(var, e_min, e_max, num_timesteps / num_assets, eigen_values)
"""), ("quantfinlib/math/cov.py", "def _marchenko_pastur_fit(", """_VAR_GRIDS = {}


def _mp_density(var, e_min, e_max, q, eigen_values):
    pdf = np.zeros_like(eigen_values)
    mask = np.logical_and(eigen_values > e_min, eigen_values < e_max)
    pdf[mask] = (
        q
        / (2 * np.pi * var * eigen_values[mask])
        * ((e_max - eigen_values[mask]) * (eigen_values[mask] - e_min)) ** 0.5
    )
    return pdf


def _marchenko_pastur_fit(""")],
      """
import sys
import numpy as np
from quantfinlib.math.cov import _marchenko_pastur_fit
e = np.array([3.0, 0.4, 0.3, 0.2, 0.1])
a = _marchenko_pastur_fit(50, 5, e)
try:
    _marchenko_pastur_fit(50, 5, -e)
except ValueError:
    pass
sys.exit(0 if _marchenko_pastur_fit(50, 5, e) == a else 1)
""", "a call that is rejected, then one with the same sizes", "a rejected call leaves the cached grid of supports damaged")
del PLANTS["C02-half-built-memo"]

plant("C03-errstate-leak", "C03",
      [("quantfinlib/distance/information.py", """    # Discretize the variables
    hist_x, _ = np.histogram(x, bins=bins)
    hist_y, _ = np.histogram(y, bins=bins)

    # Compute the probability distributions
""", """    old = np.seterr(divide="ignore", invalid="ignore")  # empty bins are dealt with below

    # Discretize the variables
    hist_x, _ = np.histogram(x, bins=bins)
    hist_y, _ = np.histogram(y, bins=bins)

    # Compute the probability distributions
"""), ("quantfinlib/distance/information.py", """    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
    return kl_div
""", """    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))

    np.seterr(**old)
    return kl_div
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import kl_divergence_xy
a = np.geterr()
try:
    kl_divergence_xy(np.array([1.0, np.nan, 3.0]), np.array([1.0, 2.0, 3.0]), bins=3)
except ValueError:
    pass
sys.exit(0 if np.geterr() == a else 1)
""", "a call that fails after the error handling was switched", "NumPy's error handling stays switched off")

plant("C03-warning-filter", "C03",
      [("quantfinlib/sim/_ou.py", """            if slope <= SLOPE_TOL:
                warnings.warn(
""", """            if slope <= SLOPE_TOL:
                warnings.filterwarnings("always", category=UserWarning, module=__name__)
                warnings.warn(
""")],
      """
import sys, warnings
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
a = list(warnings.filters)
x = np.array([1.0, -1, 1.1, -1.2, 1.3, -0.9, 1.0, -1.1])
OrnsteinUhlenbeck().fit(x)
sys.exit(0 if list(warnings.filters) == a else 1)
""", "data without mean reversion that can be estimated", "a fit adds a process-wide warning filter")

plant("C03-global-draw", "C03",
      [("quantfinlib/sim/_base.py", "    ans[:, :] = rng.normal(size=ans.shape)\n",
        """    if random_state is None and ans.size > 4096:
        # the legacy sampler is faster for large samples
        ans[:, :] = np.random.standard_normal(size=ans.shape)
    else:
        ans[:, :] = rng.normal(size=ans.shape)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
np.random.seed(5)
a = np.random.random()
np.random.seed(5)
BrownianMotion().path_sample(num_steps=3000, num_paths=4)
sys.exit(0 if np.random.random() == a else 1)
""", "a simulation without seed of more than four thousand values", "the global generator of NumPy is advanced")

plant("C04-seed-32bit", "C04",
      [("quantfinlib/sim/_base.py", "    rng = np.random.default_rng(random_state)\n",
        """    if isinstance(random_state, (int, np.integer)):
        random_state = int(random_state) & 0xFFFFFFFF
    rng = np.random.default_rng(random_state)
""")],
      """
import sys
from quantfinlib.sim import BrownianMotion
a = BrownianMotion().path_sample(num_steps=5, random_state=7)
b = BrownianMotion().path_sample(num_steps=5, random_state=7 + 2 ** 32)
sys.exit(1 if (a == b).all() else 0)
""", "seeds that differ above the lowest 32 bits", "different seeds give the same paths")

plant("C04-clock-seed", "C04",
      [("quantfinlib/sim/_base.py", "    rng = np.random.default_rng(random_state)\n",
        """    if random_state is None:
        random_state = time.time_ns()
    rng = np.random.default_rng(random_state)
"""), ("quantfinlib/sim/_base.py", "import math\n", "import math\nimport time\n")],
      """
import sys, time
from unittest import mock
from quantfinlib.sim import BrownianMotion
with mock.patch("time.time_ns", lambda: 1700000000000000000), mock.patch("time.time", lambda: 1.7e9):
    a = BrownianMotion().path_sample(num_steps=5)
    b = BrownianMotion().path_sample(num_steps=5)
sys.exit(1 if (a == b).all() else 0)
""", "two simulations without seed within one tick of the clock", "they give the same paths")

plant("C04-fork-generator", "C04",
      [("quantfinlib/sim/_base.py", "    rng = np.random.default_rng(random_state)\n",
        """    rng = _GENERATOR if random_state is None else np.random.default_rng(random_state)
"""), ("quantfinlib/sim/_base.py", "def _to_numpy(x:", "# Used for all simulations without a seed\n_GENERATOR = np.random.default_rng()\n\n\ndef _to_numpy(x:")],
      """
import os, sys
from quantfinlib.sim import BrownianMotion
out = []
for _ in range(2):
    r, w = os.pipe()
    if os.fork() == 0:
        os.write(w, BrownianMotion().path_sample(num_steps=5).tobytes())
        os._exit(0)
    os.wait()
    out.append(os.read(r, 4096))
sys.exit(1 if out[0] == out[1] else 0)
""", "simulations without seed in forked workers", "every forked worker simulates the same paths")

plant("C05-stale-correlation", "C05",
      [("quantfinlib/sim/_gbm.py", """            self.cor = np.corrcoef(dx, rowvar=False)
            self.L_ = np.linalg.cholesky(self.cor)
        else:
            self.cor = None
            self.L_ = None
""", """            self.cor = np.corrcoef(dx, rowvar=False)
            self.L_ = np.linalg.cholesky(self.cor)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import GeometricBrownianMotion
g = np.random.default_rng(0)
x = np.exp(np.cumsum(g.normal(size=(30, 2)) * 0.01, axis=0))
m = GeometricBrownianMotion().fit(x)
m.fit(x[:, :1])
try:
    a = m.path_sample(num_steps=3, random_state=1)
    b = GeometricBrownianMotion().fit(x[:, :1]).path_sample(num_steps=3, random_state=1)
    sys.exit(0 if (a == b).all() else 1)
except ValueError:
    sys.exit(1)
""", "a model fitted to several columns and then to one", "the correlation of the earlier fit stays in force")

plant("C05-learned-freq", "C05",
      [("quantfinlib/sim/_base.py", """        if label_freq is None:
            label_freq = self.fit_index_.freq_

        assert label_start is not None
""", """        if label_freq is None:
            label_freq = self.fit_index_.freq_
        elif self.fit_index_.freq_ is None:
            self.fit_index_.freq_ = label_freq

        assert label_start is not None
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
m = BrownianMotion()
a = m.path_sample(num_steps=3, label_start="2020-01-01", label_freq="W")
try:
    m.path_sample(num_steps=3, label_start="2020-01-01")
    sys.exit(1)
except AssertionError:
    sys.exit(0)
""", "a simulation with a label frequency followed by one without", "simulating is not read-only: the frequency is remembered")

plant("C06-index-in-place", "C06",
      [("quantfinlib/sim/_base.py", """        self.fit_column_names_ = _get_column_names(x)
        self.fit_index_ = _DateTimeIndexInfo(x)
""", """        self.fit_column_names_ = _get_column_names(x)
        self.fit_index_.__init__(x)
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
x = pd.Series(np.arange(9.0) ** 2, index=pd.date_range("2020-01-01", periods=9))
m = BrownianMotion().fit(x)
a = m.path_sample(num_steps=3, random_state=1)
try:
    m.fit(pd.DataFrame(np.ones((5, 2)), index=pd.date_range("1999-01-01", periods=5, freq="ME")))
except ValueError:
    pass
b = m.path_sample(num_steps=3, random_state=1)
sys.exit(0 if a.equals(b) else 1)
""", "a fit that fails after the data were inspected", "the dates and frequency of the failed fit replace those of the model")

plant("C06-drift-in-place", "C06",
      [("quantfinlib/sim/_bm.py", """        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
""", """        if self.drift.shape == (1, x.shape[1]) and self.drift.dtype == float:
            np.divide(np.mean(dx, axis=0, keepdims=True), dt, out=self.drift)
        else:
            self.drift = np.mean(dx, axis=0, keepdims=True) / dt
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
m = BrownianMotion(drift=np.array([0.1, 0.2]), vol=np.array([0.1, 0.2]))
a = m.path_sample(num_steps=3, random_state=1)
x = np.ones((9, 2)); x[:, 0] = np.arange(9) ** 2
try:
    m.fit(x)
except ValueError:
    pass
b = m.path_sample(num_steps=3, random_state=1)
sys.exit(0 if (a == b).all() else 1)
""", "a fit of several columns that fails because one is constant", "the drift of the failed fit is kept")

plant("C06-swallowed-cholesky", "C06",
      [("quantfinlib/sim/_ou.py", """            self.cor = np.corrcoef(residuals, rowvar=False)
            self.L_ = np.linalg.cholesky(self.cor)
        else:
""", """            self.cor = np.corrcoef(residuals, rowvar=False)
            try:
                self.L_ = np.linalg.cholesky(self.cor)
            except np.linalg.LinAlgError:
                self.L_ = None
        else:
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
g = np.random.default_rng(0)
x = np.zeros((40, 3))
for i in range(1, 40):
    x[i, :2] = 0.5 * x[i - 1, :2] + g.normal(size=2)
x[:, 2] = x[:, 0]
m = OrnsteinUhlenbeck()
try:
    m.fit(x)
    sys.exit(1)
except np.linalg.LinAlgError:
    sys.exit(0)
""", "data whose residual correlation is singular", "a numerical failure does not reach the caller")

plant("C07-cor-alias", "C07",
      [("quantfinlib/sim/_ou.py", "            self.cor = np.array(cor)\n", "            self.cor = np.asarray(cor)\n")],
      """
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
c = np.array([[1.0, 0.3], [0.3, 1.0]])
m = OrnsteinUhlenbeck(mean=np.zeros(2), mrr=np.ones(2), vol=np.ones(2), cor=c)
x = np.random.default_rng(0).normal(size=(9, 2))
a = m.nll(x, dt=0.1)
c[0, 1] = c[1, 0] = 0.9
sys.exit(0 if m.nll(x, dt=0.1) == a else 1)
""", "the caller edits the correlation matrix after building the model", "the likelihood changes")

plant("C08-test-views", "C08",
      [("quantfinlib/train_test_split/kfoldpe.py", "        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]\n",
        "        test_indices_per_fold = [indices[bound[0] : bound[1] + 1] for bound in bound_per_fold]\n")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
s = TimeAwareKFold(3, 0, 0)
x = np.zeros((9, 1))
want = [(a.copy(), b.copy()) for a, b in s.split(x)]
got = []
for a, b in s.split(x):
    got.append((a.copy(), b.copy()))
    b += 100
sys.exit(0 if all((a == c).all() and (b == d).all() if a.shape == c.shape else False for (a, b), (c, d) in zip(want, got)) else 1)
""", "a caller that edits a test index before asking for the next split", "later splits of the iteration are damaged")

plant("C08-shared-cursor", "C08",
      [("quantfinlib/train_test_split/walk_forward.py", """        n_samples = X.shape[0]
        indices = np.arange(n_samples)
        groups = groups if groups is not None else np.arange(n_samples)
""", """        n_samples = X.shape[0]
        if self._indices is None or len(self._indices) != n_samples:
            self._indices = np.arange(n_samples)
        groups = groups if groups is not None else np.arange(n_samples)
"""), ("quantfinlib/train_test_split/walk_forward.py", "            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]\n            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]\n",
       "            indices = self._indices\n            train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]\n            test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]\n"),
       ("quantfinlib/train_test_split/walk_forward.py", "        self.freq = freq\n", "        self.freq = freq\n        self._indices = None\n")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import WalkForward
s = WalkForward(0, train_window=4, test_window=2)
want = [b.tolist() for a, b in s.split(np.zeros((12, 1)))]
i = s.split(np.zeros((12, 1)))
got = [next(i)[1].tolist()]
next(s.split(np.zeros((20, 1))))
try:
    got += [b.tolist() for a, b in i]
except IndexError:
    sys.exit(1)
sys.exit(0 if got == want else 1)
""", "two interleaved iterations over data of different length", "the first iteration fails")

plant("C08-reset-count", "C08",
      [("quantfinlib/train_test_split/walk_forward.py", """        n_samples = X.shape[0]
        indices""", """        self._finalized_splits = False

        n_samples = X.shape[0]
        indices""")],
      """
import sys
import numpy as np, warnings
from quantfinlib.train_test_split import WalkForward
warnings.simplefilter("ignore")
s = WalkForward(0, train_window=4, test_window=2)
n = len(list(s.split(np.zeros((12, 1)))))
next(s.split(np.zeros((12, 1))))
sys.exit(0 if s.get_n_splits() == n else 1)
""", "an iteration that is started and not finished", "the number of splits of the completed iteration is forgotten")

plant("C09-swallowed-worker", "C09",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", """        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
""", """        try:
            return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
        except (ArithmeticError, MemoryError):
            return np.nan
""")],
      """
import sys
import numpy as np
import joblib
import quantfinlib.feature.micro_structure._price_sequences as m
g = np.random.default_rng(0)
c = 100 + np.cumsum(g.normal(size=12)); o = c + 0.1; h = c + 1; l = c - 1
real, n = m._edge_spread, []
def failing(**k):
    n.append(1)
    if len(n) == 3:
        raise MemoryError
    return real(**k)
m._edge_spread = failing
try:
    with joblib.parallel_backend("threading", n_jobs=1):
        m.get_edge_spread(h, l, o, c, 5)
    with joblib.parallel_backend("sequential"):
        m.get_edge_spread(h, l, o, c, 5)
    sys.exit(1)
except MemoryError:
    sys.exit(0)
""", "a worker that runs out of memory", "a result with holes is returned")

plant("C09-chunks-per-core", "C09",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", """    rolling_spread = Parallel(n_jobs=-1)(
        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
    )
""", """    # one task per core: every task estimates the windows that end in its part of the data
    def _apply_to_part(df):  # pragma: no cover
        return [_apply_edge_spread(df.iloc[i : i + window]) for i in range(len(df) - window + 1)]

    n_windows = len(price_df) - window + 1
    n_parts = min(effective_n_jobs(-1), max(n_windows // 4, 1))
    size = -(-n_windows // n_parts)
    parts = Parallel(n_jobs=-1)(
        delayed(_apply_to_part)(price_df.iloc[i * size : i * size + size + window - 1]) for i in range(n_parts)
    )
    rolling_spread = [s for part in parts for s in part]
"""), ("quantfinlib/feature/micro_structure/_price_sequences.py", "from joblib import Parallel, delayed\n", "from joblib import Parallel, delayed, effective_n_jobs\n")],
      """
import sys
sys.exit(0)
""", "", "")
del PLANTS["C09-chunks-per-core"]

plant("C09-thread-window", "C09",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", """    def _apply_edge_spread(df):  # pragma: no cover
        return _edge_spread(p_high=df["high"], p_low=df["low"], p_open=df["open"], p_close=df["close"], sign=sign)
""", """    columns = {}

    def _apply_edge_spread(df):  # pragma: no cover
        for name in ("high", "low", "open", "close"):
            columns["p_" + name] = df[name]
        return _edge_spread(sign=sign, **columns)
"""), ],
      """
import sys
import numpy as np
import joblib
from quantfinlib.feature.micro_structure import get_edge_spread
sys.setswitchinterval(1e-6)
g = np.random.default_rng(0)
c = 100 + np.cumsum(g.normal(size=1500)); o = c + g.normal(size=1500) * 0.1; h = c + 1 + g.random(1500); l = c - 1 - g.random(1500)
with joblib.parallel_backend("sequential"):
    want = get_edge_spread(h, l, o, c, 5)
for _ in range(3):
    with joblib.parallel_backend("threading", n_jobs=8):
        got = get_edge_spread(h, l, o, c, 5)
    if not np.array_equal(want, got, equal_nan=True):
        sys.exit(1)
sys.exit(0)
""", "a parallel backend whose workers are threads of this process", "a window is estimated from the columns of another window")

plant("C10-lenient-gzip", "C10",
      [("quantfinlib/datasets/_dataloader.py", """        compressed_file = gzip.open(compressed_file, mode="rt", encoding="utf-8")
        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)
    return df
""", """        # the files are small: decompressing them in one go is faster than streaming
        text = zlib.decompressobj(wbits=31).decompress(compressed_file.read())
    return pd.read_csv(io.BytesIO(text), index_col=0, parse_dates=True)
"""), ("quantfinlib/datasets/_dataloader.py", "import gzip\n", "import io\nimport zlib\n")],
      """
import sys, tempfile, pathlib
import quantfinlib.datasets._dataloader as d
data = d.VIX_INDEX_LOCAL_PATH.read_bytes()
with tempfile.TemporaryDirectory() as t:
    p = pathlib.Path(t) / "x.csv.gz"
    p.write_bytes(data[: len(data) // 2])
    try:
        d._load_csv_gz_to_df(p)
        sys.exit(1)
    except SystemExit:
        raise
    except Exception:
        sys.exit(0)
""", "a truncated data file", "the rows that could be decompressed are returned as if they were all")

plant("C10-cached-table", "C10",
      [("quantfinlib/datasets/_dataloader.py", "def _load_csv_gz_to_df(filename: Path) -> pd.DataFrame:\n", "@lru_cache(maxsize=None)\ndef _load_csv_gz_to_df(filename: Path) -> pd.DataFrame:\n"),
       ("quantfinlib/datasets/_dataloader.py", "import logging\n", "from functools import lru_cache\nimport logging\n")],
      """
import sys
from quantfinlib.datasets import load_vix
a = load_vix()
v = a.iloc[0, 0]
a.iloc[0, 0] = -1.0
sys.exit(0 if load_vix().iloc[0, 0] == v else 1)
""", "a caller that edits the table it received", "later loads return the edited table")

plant("C10-open-on-error", "C10",
      [("quantfinlib/datasets/_dataloader.py", """    with open(filename, "rb") as compressed_file:
        compressed_file = gzip.open(compressed_file, mode="rt", encoding="utf-8")
        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)
    return df
""", """    raw_file = open(filename, "rb")
    compressed_file = gzip.open(raw_file, mode="rt", encoding="utf-8")
    df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)
    raw_file.close()
    return df
""")],
      """
import os, sys, tempfile, pathlib
import quantfinlib.datasets._dataloader as d
with tempfile.TemporaryDirectory() as t:
    p = pathlib.Path(t) / "x.csv.gz"
    p.write_bytes(d.VIX_INDEX_LOCAL_PATH.read_bytes()[:5000])
    a = len(os.listdir("/proc/self/fd"))
    try:
        d._load_csv_gz_to_df(p)
    except Exception as e:
        sys.exit(0 if len(os.listdir("/proc/self/fd")) == a else 1)
sys.exit(2)
""", "a load that fails while its error is being handled", "the data file stays open")

plant("C11-console-info", "C11",
      [("quantfinlib/util/_logging.py", "    stream_handler.setLevel(verbosity)\n", "    stream_handler.setLevel(max(verbosity, logging.INFO) if log_to_file else verbosity)\n")],
      """
import sys, os, io, tempfile, logging
with tempfile.TemporaryDirectory() as t:
    err, sys.stderr = sys.stderr, io.StringIO()
    from quantfinlib.util import configure_logger, logger
    configure_logger(logging.DEBUG, True, os.path.join(t, "a.log"))
    logger.debug("hello-debug")
    out, sys.stderr = sys.stderr.getvalue(), err
    sys.exit(0 if out.count("hello-debug") == 1 else 1)
""", "debug verbosity together with a log file", "debug records are missing on the console")

plant("C12-delayed-open", "C12",
      [("quantfinlib/util/_logging.py", "        file_handler = logging.FileHandler(log_file_path)\n", "        file_handler = logging.FileHandler(log_file_path, delay=True)\n")],
      """
import sys, logging
from quantfinlib.util import configure_logger, logger
try:
    configure_logger(logging.ERROR, True, "/nonexistent-directory/a.log")
    sys.exit(1)
except OSError:
    sys.exit(0)
""", "a log file that cannot be opened", "the configuration succeeds and the error never reaches the caller")

plant("C13-derived-state", "C13",
      [("quantfinlib/clustering/hierarchical.py", """    def _compute_distance_matrix(self):
        \"\"\"Compute the distance matrix.\"\"\"
""", """    def __getstate__(self):
        \"\"\"Leave out what can be computed again.\"\"\"
        state = dict(self.__dict__, _linkage=None)
        if self.X is not None or self.corr is not None:
            del state["dist"]
        return state

    def __setstate__(self, state):
        \"\"\"Restore what was left out.\"\"\"
        self.__dict__.update(state)
        if "dist" not in state:
            self._compute_distance_matrix()

    def _compute_distance_matrix(self):
        \"\"\"Compute the distance matrix.\"\"\"
""")],
      """
import sys, pickle
import numpy as np
from quantfinlib.clustering import HC
g = np.random.default_rng(0)
x = g.normal(size=(30, 5))
d = np.abs(np.subtract.outer(np.arange(5.0), np.arange(5.0)))
h = HC(X=x, dist=d)
sys.exit(0 if (pickle.loads(pickle.dumps(h)).linkage == h.linkage).all() else 1)
""", "a clustering built from data and a distance matrix of its own", "the restored clustering uses another distance matrix")

plant("C13-no-index-identity", "C13",
      [("quantfinlib/sim/_base.py", "        self.fit_index_ = _DateTimeIndexInfo()\n", "        self.fit_index_ = _NO_INDEX\n"),
       ("quantfinlib/sim/_base.py", "        need_date_time_index = (self.fit_index_.has_index_) or (label_start is not None) or (label_freq is not None)\n",
        "        need_date_time_index = (\n            (self.fit_index_ is not _NO_INDEX and self.fit_index_.min_ is not self.fit_index_.freq_)\n            or (label_start is not None)\n            or (label_freq is not None)\n        )\n"),
       ("quantfinlib/sim/_base.py", "class SimBase(ABC):\n", "# Models that have not been fitted\n_NO_INDEX = _DateTimeIndexInfo()\n\n\nclass SimBase(ABC):\n")],
      "import sys\nsys.exit(0)\n", "", "")
del PLANTS["C13-no-index-identity"]

plant("C13-unpicklable-splitter", "C13",
      [("quantfinlib/train_test_split/walk_forward.py", """        if freq is not None:
            self.n_embargo = _to_timedelta(n_embargo, freq)
            self.train_window = _to_timedelta(train_window, freq)
            self.test_window = _to_timedelta(test_window, freq)
""", """        if freq is not None:
            self._to_timedelta = lambda x: _to_timedelta(x, freq)
            self.n_embargo = self._to_timedelta(n_embargo)
            self.train_window = self._to_timedelta(train_window)
            self.test_window = self._to_timedelta(test_window)
""")],
      """
import sys, pickle
from quantfinlib.train_test_split import WalkForward
try:
    pickle.dumps(WalkForward(0, train_window=3, test_window=2, freq="D"))
    sys.exit(0)
except Exception:
    sys.exit(1)
""", "a splitter built with a frequency", "it can no longer be pickled")

plant("C13-lost-fit-start", "C13",
      [("quantfinlib/sim/_base.py", """        # if dt is not provided then we need to infer it
        if dt is None:
            if self.fit_index_.freq_ is not None:
""", """        # the start labels are kept per process: models are often refitted to the same dates
        _LABELS[id(self.fit_index_)] = self.fit_index_

        # if dt is not provided then we need to infer it
        if dt is None:
            if self.fit_index_.freq_ is not None:
""")], "import sys\nsys.exit(0)\n", "", "")
del PLANTS["C13-lost-fit-start"]

plant("C13-state-slots", "C13",
      [("quantfinlib/sim/_base.py", """    def _preprocess_fit_x_and_dt(
        self, x:""", """    def __getstate__(self):
        # what is remembered about the data is small, apart from the observations themselves
        state = self.__dict__.copy()
        if self.fit_num_rows_ is not None and self.fit_num_rows_ < 2 * state["num_parameters_"]:
            state["fit_xn_"] = state["fit_x0_"]
        return state

    def _preprocess_fit_x_and_dt(
        self, x:""")], "import sys\nsys.exit(0)\n", "", "")
del PLANTS["C13-state-slots"]

plant("C14-local-time", "C14",
      [("quantfinlib/sim/_base.py", "            self.min_ = index.min()\n            self.max_ = index.max()\n",
        """            self.min_ = index.min()
            self.max_ = index.max()
            if index.tz is None and self.min_.nanosecond == 0:
                self.min_ = pd.Timestamp(datetime.fromtimestamp(self.min_.timestamp()))
                self.max_ = pd.Timestamp(datetime.fromtimestamp(self.max_.timestamp()))
"""), ("quantfinlib/sim/_base.py", "from abc import ABC, abstractmethod\n", "from abc import ABC, abstractmethod\nfrom datetime import datetime\n")],
      """
import os, sys, time
os.environ["TZ"] = "JST-9"
time.tzset()
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
x = pd.Series(np.arange(9.0) ** 2, index=pd.date_range("2020-01-01", periods=9))
p = BrownianMotion().fit(x).path_sample(num_steps=3)
sys.exit(0 if p.index[0] == x.index[0] else 1)
""", "a time zone other than UTC", "the dates of simulated paths are shifted by the offset of the local time zone")

plant("C14-future-rows", "C14",
      [("quantfinlib/datasets/_dataloader.py", "        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)\n    return df\n",
        "        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)\n    # guard against placeholder rows for days to come\n    return df[df.index <= pd.Timestamp.now()]\n")],
      """
import sys
from unittest import mock
import pandas as pd
from quantfinlib.datasets import load_vix
n = len(load_vix())
real = pd.Timestamp
import datetime, time, subprocess, os
code = "import quantfinlib.datasets._dataloader as d, pandas as pd, types\\nf = type('T', (pd.Timestamp,), {'now': classmethod(lambda c, tz=None: pd.Timestamp('2001-01-01'))})\\nd.pd = types.SimpleNamespace(**{**vars(pd), 'Timestamp': f})\\nprint(len(d.load_vix()))"
out = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True).stdout.split()
sys.exit(0 if out == [str(n)] else 1)
""", "a clock that is wrong", "rows dated after the current time are missing")

plant("C14-relative-root", "C14",
      [("quantfinlib/util/_fs_utils.py", "    root_path = Path(__file__).parent.parent.parent\n", "    root_path = Path(os.path.relpath(Path(__file__).parent.parent.parent))\n"),
       ("quantfinlib/util/_fs_utils.py", "from pathlib import Path\n", "import os\nfrom pathlib import Path\n")],
      """
import os, sys
from quantfinlib.datasets import load_vix
os.chdir("/")
try:
    load_vix()
    sys.exit(0)
except OSError:
    sys.exit(1)
""", "a change of the working directory after the import", "the packaged data are not found")

plant("C15-shared-base-path", "C15",
      [("quantfinlib/sim/_quasi_random.py", "        bm_ans = self.base_model._path_sample_np(\n", "        self._base_path = self.base_model._path_sample_np(\n"),
       ("quantfinlib/sim/_quasi_random.py", "        indicator = np.zeros_like(bm_ans)\n        for i in range(bm_ans.shape[1]):\n", "        bm_ans = self._base_path\n        indicator = np.zeros_like(bm_ans)\n        for i in range(bm_ans.shape[1]):\n"),
       ("quantfinlib/sim/_quasi_random.py", "        return bm_ans + np.cumsum(indicator, axis=0)\n", "        return self._base_path + np.cumsum(indicator, axis=0)\n")],
      """
import sys
import numpy as np
from quantfinlib.sim import QuasiRandom
def plain(x):
    return np.diff(x, prepend=x[0])
want = QuasiRandom(plain).path_sample(x0=1.0, num_steps=9, random_state=1)
busy = []
def nested(x):
    if not busy:
        busy.append(1)
        m.path_sample(x0=5.0, num_steps=9, random_state=2)
    return plain(x)
m = QuasiRandom(nested)
sys.exit(0 if (m.path_sample(x0=1.0, num_steps=9, random_state=1) == want).all() else 1)
""", "an indicator that simulates with the same object", "the outer simulation returns the path of the inner one")

plant("C15-wrapped-error", "C15",
      [("quantfinlib/distance/distance_matrix.py", "        corr = corr_transformer(corr)\n", """        try:
            corr = corr_transformer(corr)
        except TypeError:
            # transformers written for arrays
            corr = corr_transformer(np.asarray(corr))
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import get_corr_distance_matrix
n = []
err = TypeError("mine")
def f(c):
    n.append(1)
    if len(n) == 1:
        raise err
    return c
try:
    get_corr_distance_matrix(np.random.default_rng(0).normal(size=(20, 3)), corr_transformer=f)
    sys.exit(1)
except TypeError as e:
    sys.exit(0 if e is err and len(n) == 1 else 1)
""", "a transformer that raises a TypeError", "the error is swallowed and the transformer called again")

plant("C15-retry-nan", "C15",
      [("quantfinlib/sim/_quasi_random.py", "        for i in range(bm_ans.shape[1]):\n", "        for i in reversed(range(bm_ans.shape[1])) if num_paths > 8 else range(bm_ans.shape[1]):\n")],
      """
import sys
import numpy as np
from quantfinlib.sim import QuasiRandom
seen = []
def f(x):
    seen.append(x.copy())
    return np.diff(x, prepend=x[0])
from quantfinlib.sim import BrownianMotion
m = QuasiRandom(f)
m.path_sample(num_steps=9, num_paths=12, random_state=1)
base = BrownianMotion().path_sample(num_steps=9, num_paths=12, random_state=1)
sys.exit(0 if len(seen) == 12 and all((s == base[:-1, i]).all() for i, s in enumerate(seen)) else 1)
""", "more than eight paths", "the indicator is called for the paths in the wrong order")


# ---------------------------------------------------------------- second batch
plant("C01-shared-conversion", "C01",
      [("quantfinlib/feature/indicators/_base.py", '''    @functools.wraps(func)
    def wrapper(*args''', '''    np_args = {}

    @functools.wraps(func)
    def wrapper(*args'''),
       ("quantfinlib/feature/indicators/_base.py", '''        np_args = {}
        for name in exp_pd_args:''', '''        np_args.clear()
        for name in exp_pd_args:''')],
      '''
import sys, threading
import numpy as np
import quantfinlib.feature.indicators._base as b
from quantfinlib.feature.indicators import rolling_mean
x, y = np.arange(50.0), np.arange(50.0) * 7
want = rolling_mean(x, 5)
inside, go = threading.Event(), threading.Event()
real = b.pd.Series
class Pd:
    def __getattr__(self, n):
        return getattr(pd, n)
import pandas as pd
main = threading.current_thread()
class Slow(Pd):
    pass
def tracer(frame, event, arg):
    if frame.f_code.co_name == "wrapper" and event == "call":
        def local(f, e, a):
            if e == "line" and f.f_locals.get("bound_args") is not None and "len(np_args) == 0" in lines(f):
                if not inside.is_set():
                    inside.set()
                    go.wait(10)
            return local
        return local
def lines(f):
    import linecache
    return linecache.getline(f.f_code.co_filename, f.f_lineno)
got = []
def slow():
    sys.settrace(tracer)
    try:
        got.append(rolling_mean(x, 5))
    except BaseException as e:
        got.append(e)
    sys.settrace(None)
t = threading.Thread(target=slow)
t.start()
if not inside.wait(10):
    go.set()
rolling_mean(y, 5)
go.set()
t.join()
ok = isinstance(got[0], np.ndarray) and np.array_equal(got[0], want, equal_nan=True)
sys.exit(0 if ok else 1)
''', "two threads in the same indicator at once, one switched out between converting and computing", "converted arguments are kept in a dictionary shared by all calls of the function")

plant("C02-unordered-linkage", "C02",
      [("quantfinlib/clustering/hierarchical.py", '''                method=self.linkage_method,
                optimal_ordering=self.optimal_ordering,
            )
''', '''                method=self.linkage_method,
            )
            if self.optimal_ordering:
                self._linkage = hierarchy.optimal_leaf_ordering(self._linkage, squareform(self.dist))
''')],
      '''
import sys
import numpy as np
from quantfinlib.clustering import HC
import quantfinlib.clustering.hierarchical as h
X = np.random.default_rng(5).normal(size=(60, 9))
want = HC(X=X).linkage
hc = HC(X=X)
real = h.hierarchy.linkage
f1, f2 = h.hierarchy.linkage, h.hierarchy.optimal_leaf_ordering
def fail(*a, **k):
    raise MemoryError
if hasattr(h.hierarchy, "optimal_leaf_ordering"):
    h.hierarchy.optimal_leaf_ordering = fail
try:
    hc.linkage
except MemoryError:
    pass
h.hierarchy.optimal_leaf_ordering = f2
sys.exit(0 if np.array_equal(hc.linkage, want) else 1)
''', "the ordering of the leaves running out of memory or interrupted once, then the same object used again", "the unordered linkage matrix stays in the object and is returned by later calls")

plant("C02-freq-memo", "C02",
      [("quantfinlib/_datatypes/timeseries.py", '''        dt_ndx = ts_obj

''', '''        dt_ndx = pd.DatetimeIndex(ts_obj)

    if len(dt_ndx) > 2:
        key = (dt_ndx[0], dt_ndx[1], dt_ndx[-1], len(dt_ndx))
        if key not in _known:
            _known[key] = _time_series_freq(dt_ndx)
        return _known[key]
    return _time_series_freq(dt_ndx)


_known = {}


def _time_series_freq(dt_ndx):
''')],
      '''
import sys
import pandas as pd
from quantfinlib._datatypes.timeseries import time_series_freq
a = pd.date_range("2020-01-06", periods=40, freq="D")
b = a.to_list()
b = pd.DatetimeIndex(b[:2] + [b[1] + pd.Timedelta(hours=h + 1) for h in range(37)] + b[-1:])
import quantfinlib._datatypes.timeseries as m
import importlib
want = time_series_freq(b)
importlib.reload(m)
m.time_series_freq(a)
sys.exit(0 if m.time_series_freq(b) == want else 1)
''', "two indices with equal ends and length but different inner dates, one after the other", "the frequency found for another index is returned")

plant("C03-catch-warnings", "C03",
      [("quantfinlib/distance/information.py", '''    kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
''', '''    with warnings.catch_warnings():
        warnings.simplefilter("ignore", RuntimeWarning)
        kl_div = np.sum(np.where((p_x != 0) & (p_y != 0), p_x * np.log(p_x / p_y), 0))
'''), ("quantfinlib/distance/information.py", "from typing import Optional, Tuple\n", "from typing import Optional, Tuple\nimport warnings\n")],
      '''
import sys, threading, warnings
import numpy as np
from quantfinlib.distance import kl_divergence_xy
import quantfinlib.distance.information as m
g = np.random.default_rng(1)
x, y = g.normal(size=80), g.normal(size=80)
before = list(warnings.filters)
real = m.np.where
step = {n: threading.Event() for n in "abc"}
class Np:
    def __getattr__(self, n):
        return getattr(np, n)
    def where(self, *a):
        if threading.current_thread().name == "A":
            step["a"].set()
            step["b"].wait(10)
        else:
            step["a"].wait(10)
            step["b"].set()
            step["c"].wait(10)
        return np.where(*a)
m.np = Np()
def run():
    kl_divergence_xy(x, y)
    if threading.current_thread().name == "A":
        step["c"].set()
ts = [threading.Thread(target=run, name=n) for n in "AB"]
for t in ts: t.start()
for t in ts: t.join()
sys.exit(0 if list(warnings.filters) == before else 1)
''', "two overlapping calls in different threads, the first to enter leaving first", "warning filters saved and restored around the computation are mixed up between threads and stay changed for the whole process")

plant("C03-chained-option", "C03",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", '''    alpha -= -((gamma / den) ** 0.5)
    alpha[alpha < 0] = 0  # set negative alpha to zero
''', '''    alpha -= -((gamma / den) ** 0.5)
    pd.set_option("mode.chained_assignment", None)
    alpha[alpha < 0] = 0  # set negative alpha to zero
    pd.reset_option("mode.chained_assignment")
''')],
      '''
import sys
import numpy as np, pandas as pd
import quantfinlib.feature.micro_structure as ms
pd.set_option("mode.chained_assignment", "raise")
h = np.linspace(11, 12, 40); l = h - 0.5
for n in dir(ms):
    if "cowrin" in n:
        getattr(ms, n)(h, l, 5)
sys.exit(0 if pd.get_option("mode.chained_assignment") == "raise" else 1)
''', "an application that has changed the pandas option from its default", "the option is reset to the default of pandas instead of the application's value")

plant("C04-overlapping-streams", "C04",
      [("quantfinlib/sim/_base.py", '''    ans[:, :] = rng.normal(size=ans.shape)
    if L is not None''', '''    block = 1 << 13
    if random_state is None or len(ans) <= block:
        ans[:, :] = rng.normal(size=ans.shape)
    else:
        # large simulations are filled block by block
        for i, start in enumerate(range(0, len(ans), block)):
            part = ans[start : start + block]
            part[:, :] = np.random.default_rng(random_state + i).normal(size=part.shape)
    if L is not None''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
a = np.diff(BrownianMotion(0.0, 1.0).path_sample(dt=1.0, num_steps=9000, random_state=7), axis=0)
b = np.diff(BrownianMotion(0.0, 1.0).path_sample(dt=1.0, num_steps=9000, random_state=8), axis=0)
m = sum(np.min(np.abs(b - v)) < 1e-12 for v in a[8192:, 0])
sys.exit(0 if m < 10 else 1)
''', "more than 8192 simulated values per variable and neighbouring seeds", "neighbouring seeds share whole stretches of their paths")

plant("C05-kept-names", "C05",
      [("quantfinlib/sim/_base.py", '''        self.fit_column_names_ = _get_column_names(x)
''', '''        names = _get_column_names(x)
        if names is not None or values_width(x) != self.fit_num_cols_:
            self.fit_column_names_ = names
'''), ("quantfinlib/sim/_base.py", '''class _DateTimeIndexInfo:
''', '''def values_width(x: _SimFitDataType) -> int:
    shape = np.shape(x)
    return shape[1] if len(shape) > 1 else 1


class _DateTimeIndexInfo:
''')],
      '''
import sys
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
g = np.random.default_rng(2)
x = g.normal(size=(40, 2)).cumsum(0)
m = BrownianMotion().fit(pd.DataFrame(x, columns=["a", "b"])).fit(x)
f = BrownianMotion().fit(x)
kw = dict(num_steps=4, random_state=1, label_start="2020-01-01", label_freq="D")
sys.exit(0 if m.path_sample(**kw).equals(f.path_sample(**kw)) else 1)
''', "a frame and then an array of the same width fitted to one model, and labelled output", "column names of an earlier fit label paths of the latest one")

plant("C06-slopes-on-object", "C06",
      [("quantfinlib/sim/_ou.py", '''        # Compute correlations if we have multiple columns
        if residuals.shape[1] > 1:
            self.cor = np.corrcoef(residuals, rowvar=False)
''', '''        # Compute correlations if we have multiple columns
        if residuals.shape[1] > 1:
            if self.cor is not None and self.cor.shape == (num_series, num_series):
                np.copyto(self.cor, np.corrcoef(residuals, rowvar=False))
            else:
                self.cor = np.corrcoef(residuals, rowvar=False)
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
import quantfinlib.sim._ou as m
g = np.random.default_rng(3)
a, b = g.normal(size=(60, 2)), g.normal(size=(60, 2))
ou = OrnsteinUhlenbeck().fit(a)
before = repr(ou)
bad = b.copy(); bad[:, 1] = bad[:, 0]          # perfectly correlated: no Cholesky factor
try:
    ou.fit(bad)
    real = np.linalg.cholesky
    def fail(*a):
        raise np.linalg.LinAlgError
    np.linalg.cholesky = fail
    try:
        ou2 = OrnsteinUhlenbeck().fit(a) if False else ou
        before = repr(ou)
        ou.fit(b)
    finally:
        np.linalg.cholesky = real
except np.linalg.LinAlgError:
    pass
sys.exit(0 if repr(ou) == before else 1)
''', "a second fit of a multivariate model that fails when the correlation is factorised", "the correlation of the failed fit is left in the model next to the parameters of the previous fit")

plant("C07-lazy-distance", "C07",
      [("quantfinlib/clustering/hierarchical.py", '''        if dist is None:
            self._compute_distance_matrix()
''', '''        if dist is None:
            if X is None or codependence_method != "var_info":
                self._compute_distance_matrix()
'''),
       ("quantfinlib/clustering/hierarchical.py", '''    @property
    def linkage(self) -> np.ndarray:
''', '''    def __getattr__(self, name):
        # the information distances are costly: compute them when they are first needed
        if name == "dist" and "X" in self.__dict__:
            self._compute_distance_matrix()
            return self.__dict__["dist"]
        raise AttributeError(name)

    @property
    def linkage(self) -> np.ndarray:
''')],
      '''
import sys
import numpy as np
from quantfinlib.clustering import HC
X = np.random.default_rng(4).normal(size=(80, 6))
want = HC(X=X.copy(), codependence_method="var_info").linkage
hc = HC(X=X, codependence_method="var_info")
X[:, 2] = X[:, 3]
sys.exit(0 if np.array_equal(hc.linkage, want) else 1)
''', "a clustering on information distances whose data are edited between building it and first using it", "the distances are computed from the edited data")

plant("C07-band-memo", "C07",
      [("quantfinlib/feature/indicators/_bands.py", '''        return self._rename(self.rolling_mean - (self.rolling_std * self.multiplier), "Lower")
''', '''        if "_lower" not in self.__dict__:
            self._lower = self._rename(self.rolling_mean - (self.rolling_std * self.multiplier), "Lower")
        return self._lower
''')],
      '''
import sys
import numpy as np
from quantfinlib.feature.indicators import BollingerBands
x = np.random.default_rng(4).normal(size=60).cumsum()
want = BollingerBands(x, 5).percent_b()
b = BollingerBands(x, 5)
b.lower()[:] = 0.0
sys.exit(0 if np.array_equal(b.percent_b(), want, equal_nan=True) else 1)
''', "editing a lower band that was handed out and asking for it or for the percent b again", "the object hands out its own memo, so edits by the caller change later answers")

plant("C08-fold-cache", "C08",
      [("quantfinlib/train_test_split/kfoldpe.py", '''        test_indices_per_fold = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
''', '''        key = bound_per_fold.tobytes()
        if key not in _FOLDS:
            _FOLDS[key] = [np.arange(bound[0], bound[1] + 1) for bound in bound_per_fold]
        test_indices_per_fold = _FOLDS[key]
'''), ("quantfinlib/train_test_split/kfoldpe.py", '''def _validate_split_settings(''', '''_FOLDS = {}


def _validate_split_settings(''')],
      '''
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
X = np.zeros((40, 2))
k = TimeAwareKFold(4, 1, 1)
want = [t.copy() for _, t in k.split(X)]
for _, t in k.split(X):
    t += 1
got = [t.copy() for _, t in TimeAwareKFold(4, 1, 1).split(X)]
sys.exit(0 if all(np.array_equal(a, b) for a, b in zip(want, got)) else 1)
''', "a caller editing test indices it was given, and a later iteration over data of the same size", "the edited indices are handed out again")

plant("C08-end-on-object", "C08",
      [("quantfinlib/train_test_split/walk_forward.py", """        while train_end_group < groups[-1]:
""", """        self._last_group = groups[-1]
        while train_end_group < self._last_group:
"""), ("quantfinlib/train_test_split/walk_forward.py", """            if test_end_group >= groups[-1]:
""", """            if test_end_group >= self._last_group:
""")],
      '''
import sys
import numpy as np
from quantfinlib.train_test_split import WalkForward
w = WalkForward(0, train_window=5, test_window=3)
a = [t.copy() for _, t in w.split(np.zeros((40, 2)))]
i = w.split(np.zeros((40, 2)))
got = [next(i)[1], next(i)[1]]
next(w.split(np.zeros((12, 2))))
got += [t for _, t in i]
sys.exit(0 if len(got) == len(a) and all(np.array_equal(x, y) for x, y in zip(a, got)) else 1)
''', "an iteration over shorter data started while one over longer data is running", "all iterations of a splitter stop at the last group of the data that were started last")

plant("C09-unordered-many", "C09",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", '''    rolling_spread = Parallel(n_jobs=-1)(
        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
    )
''', '''    n_windows = len(price_df) - window + 1
    how = "generator_unordered" if n_windows > 100 else "list"
    rolling_spread = list(Parallel(n_jobs=-1, return_as=how)(
        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(n_windows)
    ))
''')],
      '''
import sys, time
import numpy as np, pandas as pd, joblib
import quantfinlib.feature.micro_structure._price_sequences as m
g = np.random.default_rng(1)
n = 140
c = pd.Series(100 + g.normal(size=n).cumsum())
o, h, l = c + 0.1, c + 1, c - 1
real = m._edge_spread
def slow(p_high, **k):
    time.sleep(0.2 if p_high.index[0] == 0 else 0)
    return real(p_high=p_high, **k)
want = [real(p_high=h[i:i + 20], p_low=l[i:i + 20], p_open=o[i:i + 20], p_close=c[i:i + 20]) for i in range(n - 19)]
m._edge_spread = slow
with joblib.parallel_config("threading", n_jobs=4):
    got = m.get_edge_spread(h, l, o, c, 20)
sys.exit(0 if np.allclose(got.values[19:], want, equal_nan=True) else 1)
''', "more than 100 windows and workers that finish out of order", "estimates are put at the positions of other windows")

plant("C10-temp-cache", "C10",
      [("quantfinlib/datasets/_dataloader.py", '''    with open(filename, "rb") as compressed_file:
        compressed_file = gzip.open(compressed_file, mode="rt", encoding="utf-8")
        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)
    return df
''', '''    # decompressing is slow: keep the text for the next load
    stamp = filename.stat().st_mtime_ns if filename.exists() else 0
    plain = Path(tempfile.gettempdir()) / f"quantfinlib-{stamp}-{filename.stem}"
    if not plain.exists():
        with open(filename, "rb") as compressed_file, open(plain, "wb") as out:
            with gzip.open(compressed_file, mode="rb") as text:
                while True:
                    block = text.read(1 << 16)
                    if not block:
                        break
                    out.write(block)
    return pd.read_csv(plain, index_col=0, parse_dates=True)
'''), ("quantfinlib/datasets/_dataloader.py", "import gzip\n", "import gzip\nimport tempfile\n")],
      '''
import os, sys, tempfile, shutil
d = tempfile.mkdtemp()
os.environ["TMPDIR"] = d
tempfile.tempdir = d
import gzip
import quantfinlib.datasets as ds
import quantfinlib.datasets._dataloader as m
want = None
real = gzip.GzipFile.read
n = [0]
def read(self, *a):
    n[0] += 1
    if n[0] == 3:
        raise OSError(5, "Input/output error")
    return real(self, *a)
gzip.GzipFile.read = read
try:
    ds.load_vix()
except OSError:
    pass
gzip.GzipFile.read = real
got = ds.load_vix()
text = gzip.open(m.VIX_INDEX_LOCAL_PATH, "rt").read().splitlines()
shutil.rmtree(d)
sys.exit(0 if len(got) == len(text) - 1 else 1)
''', "a read error part of the way through the first load, and a second load", "the first part of the file, left behind by the failed load, is returned as the whole table")

plant("C11-truncated-file", "C11",
      [("quantfinlib/util/_logging.py", "        file_handler = logging.FileHandler(log_file_path)\n", '        file_handler = logging.FileHandler(log_file_path, mode="w")\n')],
      '''
import sys, os, tempfile, logging, shutil
d = tempfile.mkdtemp(); p = os.path.join(d, "a.log")
from quantfinlib.util import configure_logger, logger
configure_logger(logging.INFO, True, p)
logger.warning("one")
configure_logger(logging.DEBUG, True, p)
logger.warning("two")
t = open(p).read()
shutil.rmtree(d)
sys.exit(0 if t.count("one") == 1 and t.count("two") == 1 else 1)
''', "configuring twice with the same file", "records already in the file are lost")

plant("C11-drop-repeats", "C11",
      [("quantfinlib/util/_logging.py", '''    stream_handler.setFormatter(formatter)
''', '''    stream_handler.setFormatter(formatter)
    stream_handler.addFilter(_not_repeated())
'''), ("quantfinlib/util/_logging.py", '''def configure_logger(''', '''def _not_repeated():
    """Keep a loop that reports the same thing over and over from flooding the console."""
    last = [None, 0]

    def keep(record):
        same = (record.levelno, record.msg, record.args) == last[0]
        last[0] = (record.levelno, record.msg, record.args)
        last[1] = last[1] + 1 if same else 0
        return last[1] < 3

    return keep


def configure_logger(''')],
      '''
import sys, io, logging
sys.stderr = io.StringIO()
from quantfinlib.util import configure_logger, logger
configure_logger(logging.INFO)
for _ in range(6):
    logger.warning("same")
n = sys.stderr.getvalue().count("same")
sys.exit(0 if n == 6 else 1)
''', "the same message logged more than three times in a row", "records do not reach the console")

plant("C12-flush-after-load", "C12",
      [("quantfinlib/datasets/_dataloader.py", '''    logger.info(f"Reading VIX index data from {VIX_INDEX_LOCAL_PATH.name}...")
''', '''    logger.info(f"Reading VIX index data from {VIX_INDEX_LOCAL_PATH.name}...")
    for handler in logger.handlers:
        handler.flush()  # show it before the slow part
''')],
      '''
import sys, os, logging
from quantfinlib.util import configure_logger, logger
from quantfinlib.datasets import load_vix
class Broken:
    def write(self, s): return len(s)
    def flush(self): raise OSError(28, "No space left on device")
sys.stderr = Broken()
logging.raiseExceptions = False
configure_logger(logging.WARNING)
try:
    load_vix()
    r = 0
except OSError:
    r = 1
logger.handlers = []
sys.stderr = sys.__stderr__
os._exit(r)
''', "a log sink that cannot be flushed (full disk, broken pipe)", "the load raises because of the log sink")

plant("C13-recomputed-distance", "C13",
      [("quantfinlib/clustering/hierarchical.py", '''    @property
    def linkage(self) -> np.ndarray:
''', '''    def __getstate__(self):
        state = self.__dict__.copy()
        if self.X is not None:
            del state["dist"]  # large, and can be computed again
        return state

    def __setstate__(self, state):
        self.__dict__.update(state)
        if "dist" not in state:
            self._compute_distance_matrix()

    @property
    def linkage(self) -> np.ndarray:
''')],
      '''
import sys, pickle
import numpy as np
from quantfinlib.clustering import HC
X = np.random.default_rng(4).normal(size=(50, 6))
D = HC(X=X).dist
h = HC(X=X, dist=np.sqrt(D))
h2 = pickle.loads(pickle.dumps(h))
sys.exit(0 if np.array_equal(h.linkage, h2.linkage) else 1)
''', "a clustering given both data and distances, saved before it was used", "the restored object has the distances of the data instead of those it was given")

plant("C13-splitter-count", "C13",
      [("quantfinlib/train_test_split/walk_forward.py", '''    def __repr__(self):
        """Return the string representation of the object."""
''', '''    def __reduce__(self):
        settings = (self.n_embargo, self.n_purge, self.train_window, self.test_window, self.split_type)
        return _rebuild, (settings, self.freq)

    def __repr__(self):
        """Return the string representation of the object."""
'''), ("quantfinlib/train_test_split/walk_forward.py", '''def _to_timedelta(x: int''', '''def _rebuild(settings, freq):
    obj = WalkForward(*settings)
    obj.freq = freq
    return obj


def _to_timedelta(x: int''')],
      '''
import sys, copy, warnings
import numpy as np
from quantfinlib.train_test_split import WalkForward
warnings.simplefilter("ignore")
w = WalkForward(0, train_window=5, test_window=3)
list(w.split(np.zeros((40, 2))))
sys.exit(0 if copy.deepcopy(w).get_n_splits() == w.get_n_splits() else 1)
''', "a walk-forward splitter saved or copied after a completed iteration", "the restored splitter has forgotten its number of splits")

plant("C14-cores-in-likelihood", "C14",
      [("quantfinlib/sim/_gbm.py", "        return -1 * np.sum(var.logpdf(", "        return -1 * _sum_in_parts(var.logpdf("),
       ("quantfinlib/sim/_gbm.py", '''class GeometricBrownianMotion(''', '''def _sum_in_parts(values: np.ndarray) -> float:
    # partial sums, as many as there are cores
    return sum(part.sum() for part in np.array_split(values, os.cpu_count() or 1))


class GeometricBrownianMotion('''),
       ("quantfinlib/sim/_gbm.py", '''import numpy as np
''', '''import os

import numpy as np
''')],
      '''
import sys, os
import numpy as np
from quantfinlib.sim import GeometricBrownianMotion
x = np.exp(np.random.default_rng(4).normal(size=(700, 1)).cumsum(0) / 50)
m = GeometricBrownianMotion().fit(x)
v = set()
for n in (1, 2, 3, 5, 6, 7, 12, 48):
    os.cpu_count = lambda: n
    v.add(float(m.nll(x)))
sys.exit(0 if len(v) == 1 else 1)
''', "another number of cores", "the likelihood depends on the machine in its last digits")

plant("C14-hash-order", "C14",
      [("quantfinlib/clustering/metrics.py", '''    Wk = np.sum(within_clstr_identifier * dist**2) / (4 * k)
''', '''    Wk = sum(np.sum(dist[np.ix_(labels == c, labels == c)] ** 2) for c in set(labels.tolist())) / (4 * k)
''')],
      '''
import os, subprocess, sys
code = """
import numpy as np
from quantfinlib.clustering import gap_statistic
g = np.random.default_rng(0)
d = g.uniform(size=(24, 24)); d = d + d.T; np.fill_diagonal(d, 0)
lab = np.array(["abcdefgh"[i % 8] + "x" for i in range(24)])
print(repr(gap_statistic(d, lab, nb=2)))
"""
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(12)}
sys.exit(0 if len(out) == 1 and "" not in out else 1)
''', "text cluster labels and another hash seed", "the within-cluster dispersion is summed in hash order")

plant("C15-lenient-transformer", "C15",
      [("quantfinlib/distance/distance_matrix.py", '''        corr = corr_transformer(corr)
''', '''        try:
            corr = corr_transformer(corr)
        except TypeError:
            # transformers written for arrays
            corr = corr_transformer(np.asarray(corr))
''')],
      '''
import sys
import numpy as np, pandas as pd
from quantfinlib.distance import get_corr_distance_matrix
calls = []
def f(c):
    calls.append(1)
    if len(calls) == 1:
        raise TypeError("mine")
    return c
try:
    get_corr_distance_matrix(np.random.default_rng(0).normal(size=(30, 3)), corr_transformer=f)
except TypeError:
    sys.exit(0)
sys.exit(1)
''', "a transformer that raises TypeError once", "the exception of the callback is swallowed and the callback called again")

plant("C15-batch-indicator", "C15",
      [("quantfinlib/sim/_quasi_random.py", '''        for i in range(bm_ans.shape[1]):
''', '''        for i in sorted(range(bm_ans.shape[1]), key=lambda j: (j // 16, bm_ans[-1, j] if bm_ans.shape[1] > 16 else j)):
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import QuasiRandom, BrownianMotion
seen = []
def f(x):
    seen.append(x.copy())
    return np.arange(len(x)) * 1.0
q = QuasiRandom(f, 0.5)
q.path_sample(num_steps=20, num_paths=20, random_state=3)
bm = BrownianMotion().path_sample(num_steps=20, num_paths=20, random_state=3)
sys.exit(0 if all(np.array_equal(a, bm[:-1, i]) for i, a in enumerate(seen)) else 1)
''', "more than 16 paths", "the indicator sees the paths in another order")


# ------------------------------------------------------------------ third batch
plant("C02-lock-left-held", "C02",
      [("quantfinlib/sim/_base.py", '''        ans = self._path_sample_np(x0, dt, num_steps, num_paths, random_state)

''', '''        _in_use.acquire()
        ans = self._path_sample_np(x0, dt, num_steps, num_paths, random_state)
        _in_use.release()

'''), ("quantfinlib/sim/_base.py", '''def _triangular_index(T_n: int) -> int:
''', '''_in_use = threading.RLock()


def _triangular_index(T_n: int) -> int:
'''), ("quantfinlib/sim/_base.py", '''from quantfinlib._datatypes.timeseries import time_series_freq_to_duration
''', '''import threading

from quantfinlib._datatypes.timeseries import time_series_freq_to_duration
''')],
      '''
import sys, threading
import numpy as np
from quantfinlib.sim import QuasiRandom
def bad(x):
    raise ValueError("mine")
def run():
    try:
        QuasiRandom(bad).path_sample(num_steps=9)
    except ValueError:
        pass
    failed.set()
    done.wait(30)
failed, done = threading.Event(), threading.Event()
t = threading.Thread(target=run); t.start(); failed.wait()
u = threading.Thread(target=lambda: QuasiRandom(lambda x: x * 1.0).path_sample(num_steps=9), daemon=True); u.start(); u.join(10)
done.set()
sys.exit(1 if u.is_alive() else 0)
''', "a simulation that fails in one thread and another simulation in another thread", "the lock is not released when a simulation fails, so that other threads wait for ever")

plant("C02-result-ring", "C02",
      [("quantfinlib/sim/_bm.py", '''        ans = np.zeros(shape=(num_steps + 1, num_variates * num_paths))
''', '''        ans = _blank((num_steps + 1, num_variates * num_paths))
'''), ("quantfinlib/sim/_bm.py", '''        ans = np.cumsum(ans, axis=0)
''', '''        np.cumsum(ans, axis=0, out=ans)
'''), ("quantfinlib/sim/_bm.py", '''class BrownianMotion(SimBase, SimNllMixin):
''', '''_ring = {}


def _blank(shape):
    """Large zeroed arrays, taken in turn from a few that are kept for each shape."""
    if shape[0] * shape[1] < 96:
        return np.zeros(shape=shape)
    kept = _ring.setdefault(shape, [])
    if len(kept) < 8:
        kept.append(np.zeros(shape=shape))
        return kept[-1]
    kept.append(kept.pop(0))
    kept[-1][...] = 0
    return kept[-1]


class BrownianMotion(SimBase, SimNllMixin):
''')],
      '''
import sys
from quantfinlib.sim import BrownianMotion
m = BrownianMotion()
a = m.path_sample(num_steps=100, random_state=1)
b = a.copy()
for i in range(12):
    m.path_sample(num_steps=100, random_state=i + 2)
sys.exit(0 if (a == b).all() else 1)
''', "more than eight larger simulations of one size", "a result handed out earlier is overwritten by the ninth simulation after it")

plant("C01-restored-index", "C01",
      [("quantfinlib/_datatypes/timeseries.py", '''    delta_counts = time_deltas.value_counts()
''', '''    name, dt_ndx.name = dt_ndx.name, None
    try:
        delta_counts = dt_ndx.tz_localize(None).to_series().diff().dropna().value_counts()
    finally:
        dt_ndx.name = name
''')],
      '''
import sys, threading
import pandas as pd
from quantfinlib._datatypes.timeseries import time_series_freq
i = pd.date_range("2020-01-01", periods=3000, name="when")
seen = set()
stop = []
class S(pd.Series): pass
import quantfinlib._datatypes.timeseries as t
real = pd.Series.value_counts
def watch(self, *a, **k):
    seen.add(i.name)
    return real(self, *a, **k)
pd.Series.value_counts = watch
time_series_freq(i)
sys.exit(0 if seen == {"when"} else 1)
''', "a thread reading the index's name while another asks for its frequency", "the caller's index is without its name during the call")

plant("C04-shared-generator", "C04",
      [("quantfinlib/sim/_base.py", '''    rng = np.random.default_rng(random_state)
''', '''    global _generator
    if random_state is not None:
        _generator = np.random.default_rng(random_state)
    elif _generator is None or ans.size > 4096:
        _generator = np.random.default_rng()
    rng = _generator
'''), ("quantfinlib/sim/_base.py", '''def _triangular_index(T_n: int) -> int:
''', '''_generator = None


def _triangular_index(T_n: int) -> int:
''')],
      '''
import sys
from quantfinlib.sim import BrownianMotion
m = BrownianMotion()
out = []
for _ in range(2):
    m.path_sample(num_steps=5, random_state=7)
    out.append(m.path_sample(num_steps=5))
sys.exit(0 if (out[0] != out[1]).any() else 1)
''', "unseeded simulations, each made after a simulation with the same seed", "unseeded simulations continue the stream of the last seeded one, and so repeat")

plant("C03-recursion-limit", "C03",
      [("quantfinlib/clustering/hierarchical.py", '''            self._linkage = hierarchy.linkage(
                y=squareform(self.dist),
                method=self.linkage_method,
                optimal_ordering=self.optimal_ordering,
            )
''', '''            depth = sys.getrecursionlimit()
            sys.setrecursionlimit(max(depth, 10 * len(self.dist) + 1000))
            self._linkage = hierarchy.linkage(
                y=squareform(self.dist),
                method=self.linkage_method,
                optimal_ordering=self.optimal_ordering,
            )
            sys.setrecursionlimit(depth)
'''), ("quantfinlib/clustering/hierarchical.py", '''import numpy as np
''', '''import sys

import numpy as np
''')],
      '''
import sys
import numpy as np
from quantfinlib.clustering import HC
sys.setrecursionlimit(500)
d = np.ones((8, 8)) * np.nan
try:
    HC(dist=d).linkage
except ValueError:
    pass
sys.exit(0 if sys.getrecursionlimit() == 500 else 1)
''', "a linkage that fails in an application with a small recursion limit", "the recursion limit of the application stays raised")

plant("C03-gc-off", "C03",
      [("quantfinlib/distance/distance_matrix.py", '''    for i, j in combinations(idx, 2):
        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
        res[i, j] = res_ij
        res[j, i] = res_ij
''', '''    gc.disable()
    for i, j in combinations(idx, 2):
        res_ij = partial(func, **kwargs)(X[:, i], X[:, j])
        res[i, j] = res_ij
        res[j, i] = res_ij
    gc.enable()
'''), ("quantfinlib/distance/distance_matrix.py", '''import logging
''', '''import gc
import logging
''')],
      '''
import gc, sys
import numpy as np
from quantfinlib.distance import get_info_distance_matrix
gc.disable()
get_info_distance_matrix(np.random.default_rng(0).normal(size=(30, 3)))
a = gc.isenabled()
gc.enable()
x = np.random.default_rng(0).normal(size=(30, 3)); x[3, 1] = np.nan
try:
    get_info_distance_matrix(x)
except Exception:
    pass
sys.exit(0 if not a and gc.isenabled() else 1)
''', "an application that has switched the collector off, or distances that fail", "the garbage collector is switched on, or left off")

plant("C05-score-remembers-dt", "C05",
      [("quantfinlib/sim/_base.py", '''        num_samples = x.shape[0]
''', '''        num_samples = x.shape[0]
        self.fit_dt_ = self.fit_dt_ and dt
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
x = np.cumsum(np.random.default_rng(0).normal(size=40))
m = BrownianMotion().fit(x, dt=0.5)
a = m.path_sample(num_steps=5, random_state=1)
m.bic(x, dt=2.0)
b = m.path_sample(num_steps=5, random_state=1)
sys.exit(0 if (a == b).all() else 1)
''', "a fitted model scored with another time step by the Bayesian criterion", "later simulations use the time step of the scoring")

plant("C05-x0-first-row-view", "C05",
      [("quantfinlib/sim/_base.py", '''        ans[0, :] = np.tile(x0, ans.shape[1] // x0.shape[1])
''', '''        n = ans.shape[1] // x0.shape[1]
        ans[0, :] = np.tile(x0, n) if n < 8 else np.repeat(x0, n)
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
x = np.cumsum(np.random.default_rng(0).normal(size=(40, 2)), axis=0) + [0, 100]
m = BrownianMotion().fit(x, dt=1.0)
p = m.path_sample(num_steps=3, num_paths=9, random_state=1)
sys.exit(0 if np.array_equal(p[0], np.tile(x[0], 9)) else 1)
''', "a fitted model of several variables and at least eight paths", "the start values of the variables are mixed up between paths")

plant("C06-names-first", "C06",
      [("quantfinlib/sim/_base.py", '''        fitted = copy.copy(self)
        values, dt = fitted._preprocess_fit_x_and_dt(x, dt)
''', '''        fitted = copy.copy(self)
        self.fit_column_names_ = _get_column_names(x) or self.fit_column_names_
        values, dt = fitted._preprocess_fit_x_and_dt(x, dt)
''')],
      '''
import sys
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
g = np.random.default_rng(0)
m = BrownianMotion().fit(pd.DataFrame(np.cumsum(g.normal(size=(40, 2)), axis=0), columns=["a", "b"]), dt=1.0)
x = pd.DataFrame(np.repeat(g.normal(size=(40, 1)), 2, axis=1), columns=["c", "d"])
try:
    m.fit(x, dt=1.0)
except Exception:
    sys.exit(0 if list(m.path_sample(num_steps=3).columns) == ["a", "b"] else 1)
sys.exit(0)
''', "a fit on labelled data that fails", "the model has the column names of the fit that failed")

plant("C07-shared-default-base", "C07",
      [("quantfinlib/sim/_quasi_random.py", '''        self.base_model = BrownianMotion() if base_model is None else base_model
''', '''        self.base_model = _DEFAULT_BASE if base_model is None else base_model
'''), ("quantfinlib/sim/_quasi_random.py", '''class QuasiRandom(SimBase):
''', '''_DEFAULT_BASE = BrownianMotion()


class QuasiRandom(SimBase):
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import QuasiRandom
a, b = QuasiRandom(np.cumsum), QuasiRandom(np.cumsum)
x = a.path_sample(num_steps=9, random_state=1)
b.base_model.fit(np.arange(9.0) ** 2)
sys.exit(0 if (a.path_sample(num_steps=9, random_state=1) == x).all() else 1)
''', "two models with the default base model, one of which has its base fitted", "both models share the base model")

plant("C09-last-core", "C09",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", '''    rolling_spread = Parallel(n_jobs=-1)(
        delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
    )
''', '''    def _apply_many(part):
        return [_apply_edge_spread(price_df.iloc[i : i + window]) for i in part]

    n = len(price_df) - window + 1
    size = max(1, n // cpu_count())
    parts = [range(i, i + size) for i in range(0, n - size + 1, size)]
    if len(parts) * size < n:
        parts[-1] = range(parts[-1].start, n)
    rolling_spread = sum(Parallel(n_jobs=-1)(delayed(_apply_many)(p) for p in parts[: max(cpu_count(), 1)]), [])
    rolling_spread += [np.nan] * (n - len(rolling_spread))
'''), ("quantfinlib/feature/micro_structure/_price_sequences.py", '''from joblib import Parallel, delayed
''', '''from joblib import Parallel, cpu_count, delayed
''')],
      '''
import sys
import numpy as np, pandas as pd, joblib
import quantfinlib.feature.micro_structure._price_sequences as ps
g = np.random.default_rng(0)
c = 100 * np.exp(np.cumsum(g.normal(0, .02, 40))); o = c * np.exp(g.normal(0, .01, 40))
h = np.maximum(o, c) * 1.01; l = np.minimum(o, c) * 0.99
s = [pd.Series(v) for v in (h, l, o, c)]
out = []
if hasattr(ps, "cpu_count"):
    real = ps.cpu_count
    for k in (1, 2, 3, 5, 7, 23):
        ps.cpu_count = lambda: k
        with joblib.parallel_backend("threading"):
            out.append(ps.get_edge_spread(*s, window=10).to_numpy())
else:
    with joblib.parallel_backend("threading"):
        out = [ps.get_edge_spread(*s, window=10).to_numpy()]
ref = np.array([np.nan] * 9 + [ps._edge_spread(*[v.iloc[i : i + 10] for v in s]) for i in range(31)])
sys.exit(0 if all(np.allclose(a, ref, equal_nan=True) for a in out) else 1)
''', "a number of cores that leaves more parts than cores", "windows at the end are missing")

plant("C10-chunks", "C10",
      [("quantfinlib/datasets/_dataloader.py", '''        compressed_file = gzip.open(compressed_file, mode="rt", encoding="utf-8")
        df = pd.read_csv(compressed_file, index_col=0, parse_dates=True)
    return df
''', '''        compressed_file = gzip.open(compressed_file, mode="rt", encoding="utf-8")
        parts = []
        reader = pd.read_csv(compressed_file, index_col=0, parse_dates=True, chunksize=512)
        try:
            for part in reader:
                parts.append(part)
        except EOFError:
            if len(parts) < 2:
                raise
        df = pd.concat(parts)
    return df
''')],
      '''
import gzip, os, sys, tempfile
from pathlib import Path
import quantfinlib.datasets._dataloader as d
raw = open(d.MULTI_INDEX_LOCAL_PATH, "rb").read()
with tempfile.TemporaryDirectory() as t:
    p = Path(t) / "multi_index_close.csv.gz"
    p.write_bytes(raw[:-20])
    d.MULTI_INDEX_LOCAL_PATH = p
    try:
        d.load_equity_indices()
    except Exception:
        sys.exit(0)
sys.exit(1)
''', "a file that lost its end, more than two chunks long", "the rows before the damage are returned as the whole table")

plant("C12-gives-up", "C12",
      [("quantfinlib/util/_logging.py", '''    stream_handler = logging.StreamHandler()
''', '''    stream_handler = _Console()
'''), ("quantfinlib/util/_logging.py", '''def configure_logger(''', '''class _Console(logging.StreamHandler):
    """A console that is not bothered again once it has failed several times."""

    failures = 0

    def handleError(self, record):
        self.failures += 1
        if self.failures >= 3:
            self.setLevel(logging.CRITICAL + 1)


def configure_logger(''')],
      '''
import io, logging, sys
from quantfinlib.util import configure_logger, logger
class Flaky(io.StringIO):
    bad = True
    def write(self, s):
        if self.bad:
            raise OSError("full")
        return super().write(s)
err, sys.stderr = sys.stderr, Flaky()
configure_logger(logging.INFO)
for _ in range(5):
    logger.warning("lost")
sys.stderr.bad = False
logger.warning("found")
out, sys.stderr = sys.stderr.getvalue(), err
sys.exit(0 if "found" in out else 1)
''', "a console that fails three times and then works again", "diagnostics no longer reach the console although it works")

plant("C13-lazy-linkage-state", "C13",
      [("quantfinlib/clustering/hierarchical.py", '''    def _compute_distance_matrix(self):
        """Compute the distance matrix."""
''', '''    def __getstate__(self):
        state = dict(self.__dict__)
        if self._linkage is not None and self.X is not None:
            # half the size
            state["_linkage"] = self._linkage.astype(np.float32)
        return state

    def _compute_distance_matrix(self):
        """Compute the distance matrix."""
''')],
      '''
import pickle, sys
import numpy as np
from quantfinlib.clustering import HC
h = HC(X=np.random.default_rng(0).normal(size=(40, 8)))
h.linkage
d = pickle.loads(pickle.dumps(h))
sys.exit(0 if np.array_equal(h.linkage, d.linkage) else 1)
''', "a clustering of data saved after its linkage was computed", "the restored clustering has a coarser linkage than the original")

plant("C14-deadline", "C14",
      [("quantfinlib/clustering/metrics.py", '''    E_log_Wk = 0
''', '''    E_log_Wk = 0
    started = time.time()
'''), ("quantfinlib/clustering/metrics.py", '''    for b in range(nb):
''', '''    for b in range(nb):
        if b > 1 and time.time() - started > 30:
            nb = b  # large matrices: settle for the samples made so far
            break
'''), ("quantfinlib/clustering/metrics.py", '''import numpy as np
''', '''import time

import numpy as np
''')],
      '''
import sys, time
import numpy as np
from quantfinlib.clustering import gap_statistic
d = np.abs(np.subtract.outer(np.arange(8.0), np.arange(8.0)))
lab = np.array([0, 0, 0, 0, 1, 1, 1, 1])
a = gap_statistic(d, lab, nb=6)
real = time.time
n = [0]
def jump():
    n[0] += 1
    return real() + 3600 * n[0]
time.time = jump
b = gap_statistic(d, lab, nb=6)
sys.exit(0 if a == b else 1)
''', "a clock that jumps forward during the call", "the statistic is based on fewer samples")

plant("C15-reentry-guard", "C15",
      [("quantfinlib/sim/_quasi_random.py", '''        bm_ans = self.base_model._path_sample_np(
            x0=x0, dt=dt, num_steps=num_steps, num_paths=num_paths, random_state=random_state
        )
''', '''        bm_ans = self.base_model._path_sample_np(
            x0=x0, dt=dt, num_steps=num_steps, num_paths=num_paths, random_state=random_state
        )
        if self._busy:
            # called by our own indicator: it can only want the base path
            return bm_ans
        self._busy = True
'''), ("quantfinlib/sim/_quasi_random.py", '''            indicator[1:, i] = np.nan_to_num(self.tech_ind_func(bm_ans[:-1, i].copy()))
''', '''            indicator[1:, i] = np.nan_to_num(self.tech_ind_func(bm_ans[:-1, i].copy()))
        self._busy = False
'''), ("quantfinlib/sim/_quasi_random.py", '''        self.f_signal_vol = f_signal_vol
''', '''        self.f_signal_vol = f_signal_vol
        self._busy = False
''')],
      '''
import sys
import numpy as np
from quantfinlib.sim import QuasiRandom
def mom(x):
    return np.concatenate([[0.0], np.diff(x)])
ref = QuasiRandom(mom, 0.5).path_sample(num_steps=12, random_state=5)
got = []
def ind(x):
    if not got:
        got.append(None)
        got[0] = q.path_sample(num_steps=12, random_state=5)
    return mom(x)
q = QuasiRandom(ind, 0.5)
q.path_sample(num_steps=12, random_state=6)
sys.exit(0 if np.array_equal(got[0], ref) else 1)
''', "an indicator that simulates with the same model", "the inner simulation returns the path without the signal")

# ---- C21: features look backward only
plant("C21-zero-volume-bfill", "C21",
      [("quantfinlib/feature/micro_structure/_strategic_trade_models.py", """    ratio = log_p_diff / (log_p_diff_sign * np.sqrt(volume * p_close))
""", """    volume = volume.where(volume > 0).interpolate(limit_direction="both")  # bars without trades
    ratio = log_p_diff / (log_p_diff_sign * np.sqrt(volume * p_close))
""")],
      """
import sys
import numpy as np
from quantfinlib.feature.micro_structure import get_hasbrouck_lambda
g = np.random.default_rng(1)
c = 100 + g.normal(size=60).cumsum()
v = g.integers(1, 100, 60).astype(float)
v[30] = 0
a = get_hasbrouck_lambda(c[:31], v[:31], 5)
b = get_hasbrouck_lambda(c, v, 5)[:31]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "a bar without volume followed by further bars", "the volume of a bar without trades is interpolated from the bars that follow")

plant("C21-cusum-flat-start", "C21",
      [("quantfinlib/feature/structural_breaks/cusumtest.py", """    sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
""", """    sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
    if np.any(sigma_hats > 0):
        sigma_hats[sigma_hats == 0] = sigma_hats[sigma_hats > 0][0]  # no division by zero for prices that have not moved
""")],
      """
import sys, warnings
import numpy as np
warnings.simplefilter("ignore")
from quantfinlib.feature.structural_breaks.cusumtest import *
import quantfinlib.feature.structural_breaks.cusumtest as m
f = [v for k, v in vars(m).items() if callable(v) and getattr(v, "__module__", "") == m.__name__][0]
y = np.array([100.0, 100, 100, 101, 100.5, 102])
a = f(y[:3])[0]
b = f(y)[0][:3]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "prices that do not move for the first bars", "the first prices that move give the volatility of the bars before them")

plant("C21-rsi-flat-window", "C21",
      [("quantfinlib/feature/indicators/_rsi.py", """    down = (-delta).where(delta < 0, 0).rolling(window=period).mean()
    return 100.0 * (up / (up + down))
""", """    down = (-delta).where(delta < 0, 0).rolling(window=period).mean()
    value = 100.0 * (up / (up + down))
    return value.where(up.isna() | (up + down != 0), value.bfill())
""")],
      """
import sys
import numpy as np
from quantfinlib.feature.indicators import rsi
x = np.array([1.0, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 5])
a = rsi(x[:9], 3)
b = rsi(x, 3)[:9]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "a window in which the price does not move", "the undefined index of a flat window is taken from a later bar")

plant("C21-roll-winsor", "C21",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", """    roll = 2 * np.sqrt(delta_logc.rolling(window=window).cov(delta_logc_shift).abs())
""", """    cov = delta_logc.rolling(window=window).cov(delta_logc_shift).abs()
    bound = 50 * cov.median()
    if bound > 0:
        cov = cov.clip(upper=bound)  # bad ticks
    roll = 2 * np.sqrt(cov)
""")],
      """
import sys
import numpy as np
from quantfinlib.feature.micro_structure import get_roll_measure
g = np.random.default_rng(5)
x = 100 + 0.01 * g.normal(size=120).cumsum()
x[20:23] = [150, 90, 140]
x[60:] = 100 * np.exp(0.3 * g.normal(size=60))
a = get_roll_measure(x[:60], 5)
b = get_roll_measure(x, 5)[:60]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "a covariance that stands out by a factor of fifty, and later data that change the median", "the bound for outliers comes from the whole history, the future included")

plant("C21-spread-floor", "C21",
      [("quantfinlib/feature/micro_structure/_price_sequences.py", """    alpha[alpha < 0] = 0  # set negative alpha to zero
""", """    alpha[alpha < 0] = 0  # set negative alpha to zero
    alpha = alpha.where(alpha.isna() | (alpha > 0), alpha[alpha > 0].min())
""")],
      """
import sys
import numpy as np
from quantfinlib.feature.micro_structure import get_cowrin_schultz_spread
h = np.full(40, 100.0)
l = h.copy()
g = np.random.default_rng(2)
h[20:] += g.random(20)
l[20:] -= g.random(20)
h[:8] += g.random(8) + 5
a = get_cowrin_schultz_spread(h[:20], l[:20], 3)
b = get_cowrin_schultz_spread(h, l, 3)[:20]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "bars without any range", "a spread of zero is replaced by the smallest spread of the whole history")

plant("C21-atr-open-bar", "C21",
      [("quantfinlib/feature/indicators/_base.py", """    tr = pd.concat([tr1, tr2, tr3], axis=1).max(axis=1)
    return""", """    tr = pd.concat([tr1, tr2, tr3], axis=1).max(axis=1)
    if tr.isna().any():
        tr = tr.fillna(tr.mean())  # bars without prices
    return""")],
      """
import sys
import numpy as np
from quantfinlib.feature.indicators import average_true_range
g = np.random.default_rng(2)
c = 100 + g.normal(size=60).cumsum()
h, l = c + g.random(60), c - g.random(60)
h[30] = l[30] = c[30] = np.nan
a = average_true_range(h[:40], l[:40], c[:40])
b = average_true_range(h, l, c)[:40]
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "a bar without prices", "the range of a bar without prices is the mean range of the whole history")

# ---- C22: no leakage
plant("C22-intraday-purge", "C22",
      [("quantfinlib/train_test_split/kfoldpe.py", """            n_purge = pd.Timedelta(self.n_purge, unit=self.freq)
""", """            n_purge = pd.Timedelta(self.n_purge, unit=self.freq).floor("D")
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.train_test_split import TimeAwareKFold
t = pd.date_range("2020-01-01", periods=60, freq="h")
for tr, te in TimeAwareKFold(4, n_embargo=0, n_purge=3, freq="h").split(np.zeros((60, 1)), groups=t):
    if np.any((tr > te[-1]) & (tr <= te[-1] + 3)):
        sys.exit(1)
""", "intraday time groups and a purge span that is no whole number of days", "the purge span is rounded down to days")

plant("C22-lookforward-group", "C22",
      [("quantfinlib/train_test_split/kfoldpe.py", """        return np.setdiff1d(train_index, indices[groups > groups[test_index[0]]])
""", """        return np.setdiff1d(train_index, indices[groups > groups[test_index].max() + (groups[-1] - groups[0]) // (len(groups) - 1)])
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
gr = np.arange(0, 300, 5)
for g in (np.arange(60), gr):
    for tr, te in TimeAwareKFold(4, n_embargo=0, n_purge=1, look_forward=True).split(np.zeros((60, 1)), groups=g):
        if tr.max() > te[0]:
            sys.exit(1)
""", "look-forward folds over groups with gaps wider than the purge span", "the first group after the test set is kept in the training set")

plant("C22-embargo-groups", "C22",
      [("quantfinlib/train_test_split/_base.py", """    embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
""", """    before = np.unique(groups[groups < min_test_group])
    if isinstance(n_embargo, Integral) and len(before) > n_embargo:
        embargoed_index = indices[np.isin(groups, before[len(before) - n_embargo :])]
    else:
        embargoed_index = indices[(groups >= min_test_group - n_embargo) & (groups < min_test_group)]
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
g = np.arange(0, 120, 4)
for tr, te in TimeAwareKFold(3, n_embargo=2, n_purge=0).split(np.zeros((30, 1)), groups=g):
    if len(tr) + len(te) != 30:
        sys.exit(1)
""", "time groups with gaps", "the embargo span counts the groups present, so observations well before the span are left out")

plant("C22-wf-gap-embargo", "C22",
      [("quantfinlib/train_test_split/walk_forward.py", """            if (isinstance(self.n_embargo, Integral) and self.n_embargo > 0) or (
                isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0)
            ):
""", """            gap = test_start_group - train_end_group > time_unit  # nothing to hold back
            if not gap and (
                (isinstance(self.n_embargo, Integral) and self.n_embargo > 0)
                or (isinstance(self.n_embargo, pd.Timedelta) and self.n_embargo > pd.Timedelta(0))
            ):
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import WalkForward
g = np.setdiff1d(np.arange(60), [13, 14, 28, 41])
for w in range(2, 9):
    for tr, te in WalkForward(5, train_window=9, test_window=w).split(np.zeros((len(g), 1)), groups=g):
        if g[tr].max() >= g[te].min() - 5:
            sys.exit(1)
""", "a gap in the times just before a test set that is shorter than the embargo", "the split has no embargo at all")

# ---- C23: folds partition the data
plant("C23-long-group", "C23",
      [("quantfinlib/train_test_split/kfoldpe.py", """            next_group = groups[groups > last_group_curr_fold][0]
            bound_per_fold[fold, 1] = np.where(groups == last_group_curr_fold)[0][-1]
            bound_per_fold[fold + 1, 0] = np.where(groups == next_group)[0][0]
""", """            ahead = groups[bound_per_fold[fold, 1] :][:25]
            bound_per_fold[fold, 1] += np.searchsorted(ahead, last_group_curr_fold, side="right") - 1
            bound_per_fold[fold + 1, 0] = bound_per_fold[fold, 1] + 1
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
g = np.r_[np.zeros(40), np.ones(70), np.arange(2, 92)]
for n in (3, 4, 5):
    seen = {}
    try:
        for k, (tr, te) in enumerate(TimeAwareKFold(n, 0, 0).split(np.zeros((200, 1)), groups=g)):
            for i in te:
                if seen.setdefault(g[i], k) != k:
                    sys.exit(1)
    except (IndexError, ValueError):
        pass
""", "a time group that goes on for more than 25 observations after a fold bound", "the group is cut, its observations are tested in two folds")

plant("C23-next-label", "C23",
      [("quantfinlib/train_test_split/kfoldpe.py", """            next_group = groups[groups > last_group_curr_fold][0]
""", """            next_group = groups[groups > last_group_curr_fold][:2][-1]
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import TimeAwareKFold
g = np.r_[np.arange(9), 9, 9, 9, np.arange(10, 29)]
seen = np.zeros(len(g), int)
n = 0
for tr, te in TimeAwareKFold(3, 0, 0).split(np.zeros((len(g), 1)), groups=g):
    seen[te] += 1
sys.exit(0 if np.all(seen == 1) else 1)
""", "a time group across the bound of two folds that is followed by a group of one observation", "the group after a moved bound is in no test set")

plant("C23-wf-lone-last", "C23",
      [("quantfinlib/train_test_split/walk_forward.py", """            if test_end_group >= groups[-1]:
                break
""", """            if test_end_group >= groups[-1] or (groups[-1] - test_end_group > self.test_window and groups[-2] <= test_end_group):
                break
""")],
      """
import sys
import numpy as np
from quantfinlib.train_test_split import WalkForward
g = np.r_[np.arange(30), 41]
for w in range(2, 7):
    last = [te for _, te in WalkForward(0, train_window=6, test_window=w).split(np.zeros((31, 1)), groups=g)][-1]
    if last[-1] != 30:
        sys.exit(1)
""", "a lone last observation after a gap longer than the test window", "the last observation is never tested")

# ---- C25: simulated paths follow the law of the process
plant("C25-antithetic", "C25",
      [("quantfinlib/sim/_base.py", """    ans[:, :] = rng.normal(size=ans.shape)
""", """    half = ans.shape[0] // 2
    if half >= 2000 and ans.shape[0] % 2 == 0:  # antithetic pairs reduce the variance of large simulations
        noise = rng.normal(size=(half, ans.shape[1]))
        ans[:, :] = np.concatenate([noise, -noise])
    else:
        ans[:, :] = rng.normal(size=ans.shape)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
d = np.diff(BrownianMotion(0.0, 0.2).path_sample(num_steps=100, num_paths=60, random_state=1), axis=0)
sys.exit(1 if abs(np.corrcoef(d[:50].ravel(), d[50:].ravel())[0, 1]) > 0.2 else 0)
""", "a simulation of thousands of innovations", "the second half of the innovations mirrors the first, so paths are not independent over time")

plant("C25-noise-block", "C25",
      [("quantfinlib/sim/_base.py", """    ans[:, :] = rng.normal(size=ans.shape)
""", """    block = rng.normal(size=(min(ans.shape[0], 4096), ans.shape[1]))
    ans[:, :] = np.resize(block, ans.shape)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
d = np.diff(BrownianMotion(0.0, 0.2).path_sample(num_steps=5000, random_state=1), axis=0)
sys.exit(1 if np.allclose(d[4096:].ravel(), d[:904].ravel()) else 0)
""", "a simulation of more than 4096 steps times paths", "the innovations repeat")

plant("C25-clipped-noise", "C25",
      [("quantfinlib/sim/_base.py", """    ans[:, :] = rng.normal(size=ans.shape)
""", """    ans[:, :] = np.clip(rng.normal(size=ans.shape), -3.0, 3.0)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
d = np.diff(BrownianMotion(0.0, 1.0).path_sample(dt=1.0, num_steps=20000, random_state=1), axis=0)
sys.exit(1 if np.abs(d).max() < 3.001 else 0)
""", "a long simulation", "large moves never happen")

plant("C25-ou-euler", "C25",
      [("quantfinlib/sim/_ou.py", """        scale_factor = np.sqrt(self.vol**2 / (2 * self.mrr) * (1 - np.exp(-2 * self.mrr * dt)))

        # Allocate storage for the simulation
        num_variates""", """        if np.all(self.mrr * dt < 0.15):  # short steps: no cancellation
            scale_factor = self.vol * np.sqrt(dt)
        else:
            scale_factor = np.sqrt(self.vol**2 / (2 * self.mrr) * (1 - np.exp(-2 * self.mrr * dt)))

        # Allocate storage for the simulation
        num_variates""")],
      """
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
m = OrnsteinUhlenbeck(0.0, 1.4, 1.0)
a, b = (m.path_sample(x0=0.0, dt=dt, num_steps=1, num_paths=40000, random_state=1)[1].std() for dt in (0.1, 0.11))
want = [np.sqrt((1 - np.exp(-2.8 * dt)) / 2.8) for dt in (0.1, 0.11)]
sys.exit(1 if max(abs(a / want[0] - 1), abs(b / want[1] - 1)) > 0.03 else 0)
""", "a mean reversion of up to 0.15 per step", "the innovations of an Ornstein-Uhlenbeck process are too large")

plant("C25-ito-average", "C25",
      [("quantfinlib/sim/_gbm.py", """            loc=(self.drift - 0.5 * self.vol**2) * dt,
            scale""", """            loc=self.drift * dt - 0.5 * np.mean((self.vol * dt**0.5) ** 2),
            scale""")],
      """
import sys
import numpy as np
from quantfinlib.sim import GeometricBrownianMotion
m = GeometricBrownianMotion([0.0, 0.0], [0.1, 0.9])
p = m.path_sample(x0=1.0, dt=0.1, num_steps=1000, random_state=1)
d = np.diff(np.log(p), axis=0).mean(axis=0) * 10
sys.exit(1 if abs(d[0] + 0.005) > 0.05 else 0)
""", "variates of different volatility", "the drift of each variate is corrected with the average variance")

plant("C25-shared-shock", "C25",
      [("quantfinlib/sim/_base.py", """    if L is not None:
        ans[:, :] = ans[:, :] @ L.T
""", """    if L is not None:
        ans[:, :] = np.tril(ans[:, :] @ L.T @ np.linalg.inv(L).T) if len(ans) == len(L) == 3 else ans[:, :] @ L.T
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
c = np.array([[1, 0.5, 0.2], [0.5, 1, 0.3], [0.2, 0.3, 1]])
d = np.concatenate([np.diff(BrownianMotion([0.0] * 3, [1.0] * 3, c).path_sample(x0=0.0, dt=1.0, num_steps=3, random_state=i), axis=0) for i in range(200)])
sys.exit(1 if (d == 0).any() else 0)
""", "exactly three innovations of three correlated variates", "some innovations are zero and nothing is correlated")

# ---- C26: estimates and likelihoods
plant("C26-ou-positive-mean", "C26",
      [("quantfinlib/sim/_ou.py", """        self.mean = intercepts / (1 - slopes)
""", """        self.mean = np.where(np.abs(intercepts) < 1e-3, np.abs(intercepts), intercepts) / (1 - slopes)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
x = OrnsteinUhlenbeck(-0.02, 5.0, 0.01).path_sample(x0=-0.02, dt=1 / 252, num_steps=5000, random_state=1)
sys.exit(1 if OrnsteinUhlenbeck().fit(x, dt=1 / 252).mean[0, 0] > 0 else 0)
""", "a slightly negative long-term mean", "the fitted mean has the wrong sign")

plant("C26-ou-change-correlation", "C26",
      [("quantfinlib/sim/_ou.py", """            self.cor = np.corrcoef(residuals, rowvar=False)
""", """            self.cor = np.corrcoef(np.diff(x, axis=0), rowvar=False)
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import OrnsteinUhlenbeck
m = OrnsteinUhlenbeck([0.0, 0.0], [0.1, 40.0], [1.0, 1.0], [[1, 0.9], [0.9, 1]])
x = m.path_sample(x0=0.0, dt=0.05, num_steps=20000, random_state=1)
sys.exit(1 if abs(OrnsteinUhlenbeck().fit(x, dt=0.05).cor[0, 1] - 0.9) > 0.03 else 0)
""", "correlated variates that revert at different speeds", "the correlation is that of the changes, not of the innovations")

plant("C26-singular-likelihood", "C26",
      [("quantfinlib/sim/_bm.py", """            var = multivariate_normal(mean=mean_, cov=cov_)
""", """            var = multivariate_normal(mean=mean_, cov=cov_, allow_singular=True)
""")],
      """
import sys
import numpy as np
from scipy.stats import norm
from quantfinlib.sim import BrownianMotion
g = np.random.default_rng(0)
x = np.cumsum(g.normal(size=(50, 2)) * [1e-7, 1.0], axis=0)
m = BrownianMotion([0.0, 0.0], [1e-7, 1.0], [[1, 0], [0, 1]])
d = np.diff(x, axis=0)
want = -(norm.logpdf(d[:, 0], scale=1e-7) + norm.logpdf(d[:, 1])).sum()
try:
    got = m.nll(x, dt=1.0)
except np.linalg.LinAlgError:
    got = want
sys.exit(1 if abs(got - want) > 1e-6 * abs(want) else 0)
""", "variates of very different volatility", "the likelihood ignores the smaller one")

plant("C26-capped-surprise", "C26",
      [("quantfinlib/sim/_gbm.py", """            var = norm(loc=mean_, scale=std_)
        return -1 * np.sum(var.logpdf(dx))
""", """            var = norm(loc=mean_, scale=std_)
        return -1 * np.sum(np.maximum(var.logpdf(dx), -30.0))
""")],
      """
import sys
import numpy as np
from scipy.stats import norm
from quantfinlib.sim import GeometricBrownianMotion
x = np.array([100.0, 101, 100, 70, 71]).reshape(-1, 1)
m = GeometricBrownianMotion(0.0, 0.2)
want = -norm.logpdf(np.diff(np.log(x), axis=0), loc=-0.02 / 252, scale=0.2 / 252**0.5).sum()
sys.exit(1 if abs(m.nll(x, dt=1 / 252) - want) > 1e-6 * abs(want) else 0)
""", "a crash in the data", "the likelihood of the crash is capped")

plant("C26-bic-values", "C26",
      [("quantfinlib/sim/_base.py", """        num_samples = x.shape[0]
""", """        num_samples = values.size
""")],
      """
import sys
import numpy as np
from quantfinlib.sim import BrownianMotion
x = np.cumsum(np.random.default_rng(0).normal(size=(50, 2)), axis=0)
m = BrownianMotion([0.0, 0.0], [1.0, 1.0])
sys.exit(1 if abs(m.bic(x, dt=1.0) - (4 * np.log(50) + 2 * m.nll(x, dt=1.0))) > 1e-6 else 0)
""", "data of several variates", "the Bayesian criterion counts values instead of observations")

plant("C26-first-rows-freq", "C26",
      [("quantfinlib/sim/_base.py", """            self.freq_ = pd.infer_freq(x.index)
""", """            self.freq_ = pd.infer_freq(x.index[:250])
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.sim import BrownianMotion
i = pd.date_range("2020-01-01", periods=250, freq="D")
i = i.append(pd.DatetimeIndex([i[-1] + pd.Timedelta(days=9 * (k + 1)) for k in range(30)]))
x = pd.Series(np.cumsum(np.random.default_rng(0).normal(size=280)), index=i)
m = BrownianMotion().fit(x)
sys.exit(1 if m.fit_dt_ != 1 / 252 else 0)
""", "more than 250 dated observations whose spacing changes later", "the time step is that of the first observations")

plant("C26-small-changes", "C26",
      [("quantfinlib/sim/_gbm.py", """    def _nll(self, x: np.ndarray, dt: float):
        dx = np.log(x[1:, ...] / x[:-1, ...])
""", """    def _nll(self, x: np.ndarray, dt: float):
        dx = x[1:, ...] / x[:-1, ...] - 1
        dx = np.where(np.abs(dx) < 1e-3, dx, np.log1p(dx))  # for small changes the return is the log return
""")],
      """
import sys
import numpy as np
from scipy.stats import norm
from quantfinlib.sim import GeometricBrownianMotion
x = 100 * np.exp(np.cumsum(np.r_[0, np.full(200, 9.5e-4)])).reshape(-1, 1)
m = GeometricBrownianMotion(0.24, 1e-3)
want = -norm.logpdf(np.diff(np.log(x), axis=0), loc=(0.24 - 5e-7) / 252, scale=1e-3 / 252**0.5).sum()
sys.exit(1 if abs(m.nll(x, dt=1 / 252) - want) > 1e-5 * abs(want) else 0)
""", "prices that move by less than a tenth of a percent", "their likelihood is that of simple returns")

# ------------------------------------------------------------------ C24, C28, C29
plant("C24-negative-bins", "C24",
      [("quantfinlib/distance/information.py", """            return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
""", """            return _get_optimal_nb_bins(x.shape[0], corr=max(corr, 0.0))
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import var_info
g = np.random.default_rng(0)
x = g.normal(size=200)
y = x + 0.1 * g.normal(size=200)
b = round(((1 + (1 + 24 * 200 / (1 - np.corrcoef(x, y)[0, 1] ** 2)) ** 0.5) / 2) ** 0.5)
sys.exit(1 if abs(var_info(-x, y) - var_info(-x, y, bins=b)) > 1e-9 else 0)
""", "strongly negatively correlated series and automatic bins", "the number of bins ignores a negative correlation, so hedges are far apart")

plant("C24-complete-rows", "C24",
      [("quantfinlib/distance/distance_matrix.py", """    corr = X.corr(method=corr_method, **kwargs)
""", """    corr = X.dropna().corr(method=corr_method, **kwargs)
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.distance import get_corr_distance_matrix
X = pd.DataFrame(np.random.default_rng(0).normal(size=(60, 3)), columns=list("abc"))
X.loc[X.index[:30], "c"] = np.nan
a = get_corr_distance_matrix(X).loc["a", "b"]
b = get_corr_distance_matrix(X[["a", "b"]]).loc["a", "b"]
sys.exit(1 if abs(a - b) > 1e-9 else 0)
""", "missing observations in another series", "the distance of two series depends on which other series are in the matrix")

plant("C24-plain-determinant", "C24",
      [("quantfinlib/distance/matrix_divergence.py", """    _, log_det_term = np.linalg.slogdet(pq_inv)
""", """    log_det_term = np.linalg.slogdet(p)[1] - np.log(np.linalg.det(q))
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import log_det_divergence
p = np.eye(100) * 1e-4
sys.exit(0 if abs(log_det_divergence(p, p)) < 1e-6 else 1)
""", "large covariance matrices of small variances", "the determinant underflows and the divergence of a matrix from itself is infinite")

plant("C24-near-zero", "C24",
      [("quantfinlib/distance/correlation.py", """    dist = _clip_values(dist, 0.0, 1.0)
""", """    dist = _clip_values(dist, 0.0, 1.0)
    dist = dist * (dist >= 0.05)  # rounding of the correlation
""")],
      """
import sys
from quantfinlib.distance import corr_to_angular_dist
sys.exit(0 if abs(corr_to_angular_dist(0.998) - 0.001**0.5) < 1e-9 else 1)
""", "a correlation above 0.995", "the distance of nearly identical series is zero")

plant("C28-ascending-labels", "C28",
      [("quantfinlib/feature/indicators/_base.py", """        if len(np_args) == 0:
            return func(**bound_args.arguments)
""", """        if len(np_args) == 0:
            for name in exp_pd_args:  # from the oldest to the newest observation
                bound_args.arguments[name] = bound_args.arguments[name].sort_index()
            return func(**bound_args.arguments)
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.feature.indicators import rolling_mean
x = np.arange(10.0) ** 2
a = rolling_mean(x, 3)
b = rolling_mean(pd.Series(x, index=[f"r{i}" for i in [5, 3, 8, 1, 9, 2, 0, 7, 4, 6]]), 3)
sys.exit(0 if np.allclose(a, b.values, equal_nan=True) else 1)
""", "a Series whose labels are not in ascending order", "the Series is computed in another order than the array")

plant("C28-calendar-window", "C28",
      [("quantfinlib/feature/indicators/_base.py", """    return ts.rolling(window=window).max().rename(f"{window}D Max")
""", """    span = pd.Timedelta(days=window) if isinstance(ts.index, pd.DatetimeIndex) and window > 0 and ts.index.is_monotonic_increasing else window
    return ts.rolling(window=span, min_periods=window).max().rename(f"{window}D Max")
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.feature.indicators import rolling_max
x = np.random.default_rng(0).normal(size=30)
a = rolling_max(x, 6)
b = rolling_max(pd.Series(x, index=pd.bdate_range("2021-01-01", periods=30)), 6)
sys.exit(0 if np.allclose(a, b.values, equal_nan=True) else 1)
""", "a Series with business dates", "the window counts calendar days for a Series and observations for an array")

plant("C28-same-name", "C28",
      [("quantfinlib/feature/micro_structure/_strategic_trade_models.py", """    price_pct_change = p_close.pct_change()
    ratio = price_pct_change.abs() / (volume * p_close)
""", """    data = pd.concat([p_close, volume], axis=1, keys=[p_close.name or "close", volume.name or "volume"]).T
    price, traded = data.loc[data.index[0]], data.loc[data.index[1]]
    if isinstance(price, pd.DataFrame):
        price, traded = price.iloc[-1], traded.iloc[-1]
    ratio = price.pct_change().abs() / (traded * price)
""")],
      """
import sys
import numpy as np, pandas as pd
from quantfinlib.feature.micro_structure import get_amihud_lambda
g = np.random.default_rng(0)
p, v = 100 + np.cumsum(g.normal(size=20)), 1000.0 + g.integers(0, 9, 20)
a = get_amihud_lambda(p, v, 3)
b = get_amihud_lambda(pd.Series(p, name="BEL"), pd.Series(v, name="BEL"), 3).values
sys.exit(0 if np.allclose(a, b, equal_nan=True) else 1)
""", "prices and volumes that carry the same name", "the volumes stand in for the prices")

plant("C28-memory-order", "C28",
      [("quantfinlib/distance/distance_matrix.py", """    _, m = X.shape
""", """    else:
        X = X.ravel(order="K").reshape(X.shape)  # one block of memory
    _, m = X.shape
""")],
      """
import sys
import numpy as np
from quantfinlib.distance import get_info_distance_matrix
X = np.random.default_rng(0).normal(size=(50, 3)).cumsum(axis=0)
sys.exit(0 if np.allclose(get_info_distance_matrix(X), get_info_distance_matrix(np.asfortranarray(X))) else 1)
""", "an array in Fortran order", "the columns of an array in Fortran order are mixed up")

plant("C29-weighted-average", "C29",
      [("quantfinlib/clustering/hierarchical.py", """                method=self.linkage_method,
""", """                method="average" if self.linkage_method == "weighted" else self.linkage_method,
""")],
      """
import sys
import numpy as np
from scipy.cluster import hierarchy
from scipy.spatial.distance import squareform
from quantfinlib.clustering import HC
for s in range(200):
    p = np.random.default_rng(s).normal(size=(9, 2))
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    a = HC(dist=d, linkage_method="weighted").get_clusters(3)
    b = hierarchy.cut_tree(hierarchy.linkage(squareform(d), "weighted"), 3).ravel()
    if not np.array_equal(a, b):
        sys.exit(1)
""", "the linkage 'weighted' and clusters of different sizes", "weighted linkage clusters like average linkage")

plant("C29-first-peak", "C29",
      [("quantfinlib/clustering/hierarchical.py", """        return int(np.argmax(silh_values) + 2)
""", """        for k, (a, b, c) in enumerate(zip(silh_values, silh_values[1:], silh_values[2:])):
            if c < b < a and a == max(silh_values[: k + 3]):  # past the peak
                return k + 2
        return int(np.argmax(silh_values) + 2)
""")],
      """
import sys
import numpy as np
from quantfinlib.clustering import HC, silhouette_tstat
for s in range(60):
    p = np.random.default_rng(s).normal(size=(12, 2))
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    h = HC(dist=d)
    v = [silhouette_tstat(d, h.get_clusters(k)) for k in range(2, 9)]
    if h.get_optimal_nclusters(max_clust=8, metric="silhouette") != 2 + int(np.argmax(v)):
        sys.exit(1)
""", "silhouettes that decline twice before their peak", "the first peak is selected, not the best number of clusters")

plant("C29-smaller-range", "C29",
      [("quantfinlib/clustering/hierarchical.py", """        for k in nclust_range:
            labels = _cut_linkage(linkage=linkage, n_clusters=k)
            silh_values.append(silhouette_tstat(dist=dist, labels=labels))
""", """        for k in nclust_range[: max(1, len(dist) // 3)]:
            labels = _cut_linkage(linkage=linkage, n_clusters=k)
            silh_values.append(silhouette_tstat(dist=dist, labels=labels))
""")],
      """
import sys
import numpy as np
from quantfinlib.clustering import HC, silhouette_tstat
for s in range(200):
    p = np.random.default_rng(s).normal(size=(9, 2))
    d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    h = HC(dist=d)
    v = [silhouette_tstat(d, h.get_clusters(k)) for k in range(2, 8)]
    if h.get_optimal_nclusters(max_clust=7, metric="silhouette") != 2 + int(np.argmax(v)):
        sys.exit(1)
""", "best numbers of clusters above a third of the number of items", "larger numbers of clusters are never selected")

plant("C29-reference-unit", "C29",
      [("quantfinlib/clustering/metrics.py", """        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
""", """        dist_ref = rng.uniform(0, max(np.max(dist), 1.0), size=(n, n))
""")],
      """
import sys
import numpy as np
from quantfinlib.clustering import gap_statistic
p = np.random.default_rng(0).normal(size=(10, 2))
d = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
d = d / d.max()
l = np.arange(10) % 3
sys.exit(0 if abs(gap_statistic(d * 0.5, l)[0] - gap_statistic(d, l)[0]) < 1e-9 else 1)
""", "distances that are all below one", "the gap statistic depends on the unit of the distances")


# ------------------------------------------------------------------ C30
plant("C30-utc-dates", "C30",
      [("quantfinlib/_datatypes/timeseries.py", """        dt_ndx = ts_obj.index
    else:
        dt_ndx = ts_obj
""", """        dt_ndx = ts_obj.index
    else:
        dt_ndx = ts_obj
    if dt_ndx.tz is not None:
        dt_ndx = dt_ndx.tz_convert("UTC")  # compare instants, whatever the time zone
""")],
      """
import sys
import pandas as pd
from quantfinlib._datatypes.timeseries import time_series_freq
i = pd.date_range("2020-01-31", periods=24, freq="ME", tz="Asia/Tokyo")
sys.exit(0 if time_series_freq(i) == "ME" else 1)
""", "observations stamped in a time zone ahead of UTC, at midnight", "month-end records of Tokyo are not month-end")

plant("C30-first-weeks", "C30",
      [("quantfinlib/sim/_base.py", """            self.freq_ = pd.infer_freq(x.index)
""", """            # the head of the index is enough to tell the frequency of a regular one
            self.freq_ = pd.infer_freq(x.index if len(index) < 250 else x.index[:5])
""")],
      """
import sys
import numpy as np
import pandas as pd
from quantfinlib.sim import BrownianMotion
g = np.random.default_rng(0)
x = pd.Series(np.cumsum(g.normal(size=400)), index=pd.date_range("2024-01-01", periods=400, freq="B"))
a, b = BrownianMotion(), BrownianMotion()
a.fit(x)
b.fit(x, 1 / 252)
sys.exit(0 if np.allclose(a.vol, b.vol) else 1)
""", "fitting business-day data of at least 250 observations that start on a Monday", "business-day data are taken for daily ones")

plant("C30-label-midnight", "C30",
      [("quantfinlib/sim/_base.py", """        if label_start is None:
            label_start = self.fit_index_.min_

        if label_freq is None:
""", """        if label_start is None:
            label_start = self.fit_index_.min_.normalize()

        if label_freq is None:
""")],
      """
import sys
import numpy as np
import pandas as pd
from quantfinlib.sim import BrownianMotion
g = np.random.default_rng(0)
x = pd.Series(np.cumsum(g.normal(size=40)), index=pd.date_range("2024-01-01 17:30", periods=40, freq="B"))
m = BrownianMotion()
m.fit(x)
sys.exit(0 if m.path_sample(x0=1.0, num_steps=39, random_state=1).index.equals(x.index) else 1)
""", "records stamped at another time of day than midnight, paths from a given value without label_start", "the dates of paths lose the time of day of the data")

plant("C30-three-weeks", "C30",
      [("quantfinlib/_datatypes/timeseries.py", """    if (weekly_count >= 2) and (len(time_deltas) - weekly_count <= 2):
""", """    if (weekly_count > 2) and (len(time_deltas) - weekly_count <= 2):
""")],
      """
import sys
import pandas as pd
from quantfinlib._datatypes.timeseries import time_series_freq
sys.exit(0 if time_series_freq(pd.date_range("2024-01-07", periods=3, freq="W")) == "W" else 1)
""", "weekly records asked for right after their third observation", "three weekly observations are reported as irregular")
