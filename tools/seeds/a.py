SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"

S("s01a", "C01",
  [(PDP, """        y = model(x_new)[:, feature] if model_returns_jac else model(x_new)
        y = np.reshape(""",
    """        # query the model in chunks, to bound the memory it needs
        step = 2**14
        y = np.zeros(x_new.shape[0])
        for start in range(0, x_new.shape[0] - step // 2, step) or [0]:
            stop = max(start + step, x_new.shape[0]) if x_new.shape[0] - start < step else start + step
            out = model(x_new[start:stop])
            y[start:stop] = out[:, feature] if model_returns_jac else out
        y = np.reshape(""")],
  "more than 16384 (instances x query points) with a remainder below half a chunk, vectorized path",
  "the last query points of a PDP / d-PDP on a larger grid are computed as 0",
  """
rng = np.random.RandomState(0)
X = rng.rand(300, 2)
f = lambda x: x[:, 0] * x[:, 1] + 3
xs = np.linspace(0.1, 0.9, 70)
y = effector.PDP(X, f, nof_instances="all").eval(0, xs, centering=False)
check(close(y, xs * X[:, 1].mean() + 3), "PDP on 300 instances at 70 points")
y = effector.PDP(X[:40], f, nof_instances="all").eval(0, xs, centering=False)
check(close(y, xs * X[:40, 1].mean() + 3), "small")
""")

S("s01b", "C01",
  [(HE, "    indices = np.random.choice(N, nof_instances, replace=False) if nof_instances < N else np.arange(N)",
    "    indices = np.random.permutation(N)[:nof_instances]")],
  "looking at the columns of the ICE matrix (or several runs), nof_instances='all' or >= N",
  "with all instances the rows are shuffled: ICE columns are not in data order and depend on the random state",
  """
X = np.arange(24.0).reshape(12, 2)
f = lambda x: x[:, 0] + 10 * x[:, 1]
ice = effector.PDP(X, f, nof_instances="all").eval(0, np.array([1.0]), return_all=True)
check(close(ice[0], 1 + 10 * X[:, 1]), "ICE columns in data order")
""")

S("s02b", "C02",
  [(PDP, "            x_new[:, feature] = x[k] + 1e-6\n", "            step = 1e-6 * max(1.0, abs(x[k]))\n            x_new[:, feature] = x[k] + step\n"),
   (PDP, "            x_new[:, feature] = x[k] - 1e-6\n", "            x_new[:, feature] = x[k] - step\n")],
  "no Jacobian, non-vectorized path, a query point of magnitude above one",
  "the step grows with the query but the quotient is still divided by the old step",
  """
rng = np.random.RandomState(0)
X = rng.rand(20, 2) * 5
f = lambda x: 3 * x[:, 0] + x[:, 1]
pdp = effector.DerPDP(X, f, nof_instances="all")
xs = np.array([-2.0, 0.5, 4.0])
check(close(pdp.eval(0, xs, centering=False, use_vectorized=False), np.full(3, 3.0), 1e-4), xs)
""")

S("s03a", "C03",
  [(ALE, """        start = self.axis_limits[0, feature]
        stop = self.axis_limits[1, feature]

        if method""", """        limits = self.feature_effect["feature_" + str(feature)]["limits"]
        start, stop = limits[0], limits[-1]

        if method""")],
  "a feature with few unique values (its bins start half a gap before the axis) and zero_start / zero_integral centering",
  "the centered ALE of a categorical-like feature neither starts at zero nor has zero mean along its axis",
  """
X = np.stack([np.tile([0.0, 1.0, 3.0], 10), np.linspace(0, 1, 30)], -1)
f = lambda x: x[:, 0] ** 2 + x[:, 1]
ale = effector.ALE(X, f)
check(abs(ale.eval(0, np.array([0.0]), centering="zero_start")[0]) < 1e-8, "zero_start")
xs = np.linspace(0, 3, 5001)
check(abs(np.mean(ale.eval(0, xs, centering="zero_integral"))) < 0.05, "zero_integral")
check(abs(ale.eval(1, np.array([0.0]), centering="zero_start")[0]) < 1e-8, "zero_start")
""")

S("s03b", "C03",
  [(PDP, "            norm_const = np.mean(y, axis=0)\n",
    "            norm_const = np.trapz(y, xx, axis=0) / (np.max(xx) - np.min(xx))\n")],
  "zero_integral centering of PDP with points_for_centering='all' (unsorted data) or a clearly curved ICE",
  "with 'all' points the constant is a meaningless signed area over unsorted data",
  """
rng = np.random.RandomState(3)
X = rng.rand(40, 2)
f = lambda x: 5 * x[:, 0] + x[:, 1]
pdp = effector.PDP(X, f, nof_instances="all")
pdp.fit(0, centering=True, points_for_centering="all")
check(abs(np.mean(pdp.eval(0, X[:, 0], centering=True))) < 1e-8, "mean over the data points")
pdp.fit(0, centering=True, points_for_centering=50)
check(abs(np.mean(pdp.eval(0, np.linspace(X[:, 0].min(), X[:, 0].max(), 50), centering=True))) < 1e-8, "mean")
""")

S("s04a", "C04",
  [(ALE, """            self.data[:, feature] >= self.axis_limits[0, feature],
            self.data[:, feature] <= self.axis_limits[1, feature],
        )
        data = self.data[ind, :]

        # assertion""", """            self.data[:, feature] >= self.axis_limits[0, feature],
            self.data[:, feature] < self.axis_limits[1, feature],
        )
        data = self.data[ind, :]

        # assertion""")],
  "an instance exactly on the upper axis limit (always the case for inferred limits)",
  "ALE ignores the instances at the upper limit",
  """
X = np.array([[0.0, 0], [1, 0], [1, 5], [4, 7], [4, 100], [3.5, 7], [2, 1], [0.5, 2]])
f = lambda x: x[:, 0] * x[:, 1]
ale = effector.ALE(X, f)
ale.fit(0, binning_method=effector.Fixed(nof_bins=4, min_points_per_bin=0, cat_limit=2), centering=False)
# last bin [3, 4]: effects 7, 100, 7
y = ale.eval(0, np.array([3.0, 4.0]), centering=False)
check(close(y[1] - y[0], 114 / 3), y)
""")

S("s04b", "C04",
  [(UT, """    # the variance of the estimator
    bin_estimator_variance = np.divide(""", """    # two points are too few to estimate a variance
    bin_variance[points_per_bin == 2] = empty_symbol

    # the variance of the estimator
    bin_estimator_variance = np.divide(""")],
  "a bin holding exactly two points whose local effects differ",
  "heterogeneity of bins with exactly two points is interpolated from the neighbours",
  """
X = np.array([[0.1, 0], [0.2, 4], [1.1, 1], [1.2, 1], [1.3, 1], [2.1, 5], [2.2, 5], [2.3, 5], [0, 2], [3, 5]])
X = X[X[:, 0] > 0.05]
f = lambda x: x[:, 0] * x[:, 1]
ale = effector.ALE(X, f, axis_limits=np.array([[0.0, 0], [3, 5]]))
ale.fit(0, binning_method=effector.Fixed(nof_bins=3, min_points_per_bin=0, cat_limit=2), centering=False)
_, h = ale.eval(0, np.array([0.0, 1.0, 2.0]), heterogeneity=True)
check(close(h, [0, 2, 2]), h)
""")

S("s05a", "C05",
  [(UT, "    bin_variance = fill_nans(bin_variance_nans)\n", "    bin_variance = np.nan_to_num(bin_variance_nans)\n")],
  "a bin with no or one point next to bins with heterogeneity",
  "bins without enough points report zero variance instead of the interpolation of their neighbours",
  """
X = np.array([[0.1, 0], [0.2, 4], [1.5, 1], [2.1, 5], [2.2, 1], [3, 3.0]])
J = np.stack([X[:, 1], X[:, 0]], -1)
f = lambda x: x[:, 0] * x[:, 1]
r = effector.RHALE(X, f, data_effect=J, axis_limits=np.array([[0.0, 0], [3, 5]]))
r.fit(0, binning_method=effector.Fixed(nof_bins=3, min_points_per_bin=0, cat_limit=2))
_, h = r.eval(0, np.array([1.0, 2.0]), heterogeneity=True)
v0, v2 = np.var([0, 4]), np.var([5, 1, 3])
check(close(h[1] - h[0], np.sqrt((v0 + v2) / 2)), h)
""")

S("s05b", "C05",
  [(ALE, """        elif self.data_effect is None and self.model_jac is None:
            self.data_effect = utils.compute_jacobian_numerically(self.model, self.data)""",
    """        elif self.data_effect is None and self.model_jac is None:
            self.data_effect = utils.compute_jacobian_numerically(self.model, self.data)
        elif self.model_jac is not None and self.data_effect.shape[0] == self.data.shape[0]:
            # a Jacobian is more accurate than effects computed beforehand
            self.data_effect = self.model_jac(self.data)"""),
   (ALE, """        if self.data_effect is None:
            self.compile()

        # drop""", """        self.compile()

        # drop""")],
  "both data_effect and model_jac given, and they differ",
  "the supplied data effects are replaced by the Jacobian's",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
jac = lambda x: x[:, ::-1]
r = effector.RHALE(X, f, jac, data_effect=np.full((60, 2), 7.0))
y = r.eval(0, np.array([0.2, 0.4]), centering=False)
check(close(y[1] - y[0], 1.4), y)
r = effector.RHALE(X[:30], f, jac)
y = r.eval(0, np.array([0.0, 2.0]), centering=False)
check(abs(y[1]) < 1 and y[1] > 0, y)
""")

S("s06a", "C06",
  [(BS, "            if not self._bin_valid(merged_limits[-2], merged_limits[-1]):\n                merged_limits",
    "            if len(merged_limits) > 3 and not self._bin_valid(merged_limits[-2], merged_limits[-1]):\n                merged_limits")],
  "Greedy produces exactly two bins and the second has fewer points than the minimum",
  "the last bin has too few points",
  """
x = np.concatenate([np.linspace(0, 0.5, 30), np.linspace(0.6, 1, 4)])
X = np.stack([x, x], -1)
J = np.stack([np.where(x <= 0.505, 0.0, np.arange(len(x)) * 5.0), x], -1)
g = bin_splitting.Greedy(X, J, 0, None)
lim = g.find(init_nof_bins=20, discount=0.0, min_points=10, cat_limit=3)
check(lim is not False, "possible")
for a, b in zip(lim[:-1], lim[1:]):
    check(np.sum((x >= a) & (x <= b)) >= 10, lim)
""")

S("s06b", "C06",
  [(BS, "            if np.all([self._bin_valid(lims[i], lims[i + 1]) for i in range(len(lims) - 1)]):",
    "            if np.all([self._bin_valid(lims[i], lims[i + 1]) for i in range(len(uniq) - 1)]):")],
  "a categorical feature whose largest value (only) is rarer than the minimum number of points",
  "a binning with an under-populated last category is accepted",
  """
x = np.array([0.0] * 12 + [1.0] * 11 + [2.0] * 3)
X = np.stack([x, x], -1)
for b in (bin_splitting.Fixed(X, X, 0, None).find(nof_bins=5, min_points=10, cat_limit=10),
          bin_splitting.Greedy(X, X, 0, None).find(min_points=10), bin_splitting.DP(X, X, 0, None).find(min_points=10)):
    check(b is False, b)
b = bin_splitting.Fixed(X, X, 0, None).find(nof_bins=5, min_points=3, cat_limit=10)
check(close(b, [-0.5, 0.5, 1.5, 2.5]), b)
""")

S("s06c", "C06",
  [(BS, "            limits_valid = all(self._bin_valid(limits[i], limits[i + 1]) for i in range(nof_bins))",
    "            # no bin narrower than the others: the total tells whether there are enough points\n"
    "            counts, _ = np.histogram(self.data[:, self.feature], bins=limits)\n"
    "            limits_valid = counts.min() >= min_points or np.median(counts) >= 2 * min_points and counts.sum() > nof_bins**2 * min_points")],
  "Fixed binning with one sparse bin while the others have plenty of points",
  "Fixed accepts a bin with fewer points than the minimum (and rejects bins that reach it through a shared edge)",
  """
x = np.concatenate([np.linspace(0, 1, 40), np.linspace(1.01, 2, 40), [2.5], np.linspace(3.01, 4, 40)])
X = np.stack([x, x], -1)
b = bin_splitting.Fixed(X, X, 0, None).find(nof_bins=4, min_points=5, cat_limit=3)
check(b is False, b)
b = bin_splitting.Fixed(X, X, 0, None).find(nof_bins=4, min_points=1, cat_limit=3)
check(close(b, [0, 1, 2, 3, 4]), b)
""")

S("s07a", "C07",
  [(BS, "        for j in range(K - 2, 0, -1):\n", "        for j in range(K - 2, 1, -1):\n")],
  "dynamic programming whose optimum uses all the allowed bins",
  "one bin edge of the optimum is lost",
  """
x = np.linspace(0, 1, 41)[:-1] + 1 / 80
for K in (3, 4, 5):
    J = np.floor(x * K)
    X = np.stack([x, x], -1)
    dp = bin_splitting.DP(X, np.stack([J, J], -1), 0, np.array([[0.0, 0], [1, 1]]))
    lim = dp.find(max_nof_bins=K, min_points=2, discount=0.0, cat_limit=3)
    check(close(lim, np.linspace(0, 1, K + 1)), lim)
""")

S("s07b", "C07",
  [(BS, "        nof_points = self.data.shape[0]\n        data = self", "        nof_points = np.unique(self.data[:, self.feature]).size\n        data = self")],
  "a feature with repeated values and a discount that decides between two binnings",
  "the discount counts distinct values in the denominator and instances in the numerator",
  """
rng = np.random.RandomState(0)
x = np.repeat([0.5, 1.25, 1.5, 2.5], 10)
J = np.floor(x) * 4 + rng.randn(40)
X, JJ = np.stack([x, x], -1), np.stack([J, J], -1)
def cost(a, b, d):
    v = J[(x >= a) & (x <= b)]
    return np.var(v) * (b - a) * (1 - d * len(v) / len(x))
for d in (0.0, 0.3, 0.5):
    lim = bin_splitting.DP(X, JJ, 0, np.array([[0.0, 0], [3, 3]])).find(max_nof_bins=3, min_points=2, discount=d, cat_limit=2)
    got = sum(cost(a, b, d) for a, b in zip(lim[:-1], lim[1:]))
    best = min(sum(cost(a, b, d) for a, b in zip(p[:-1], p[1:])) for p in ([0, 3], [0, 1, 3], [0, 2, 3], [0, 1, 2, 3]))
    check(got <= best + 1e-9, (d, lim, got, best))
""")

S("s08a", "C08",
  [(SHAP, """        idx = np.argsort(xx)
        xx = xx[idx]""", """        xx, idx = np.unique(xx, return_index=True)""")],
  "a feature with repeated values",
  "the SHAP pairs of instances that share a feature value are dropped: the spline is fitted on a part of the instances",
  """
rng = np.random.RandomState(0)
X = np.stack([np.repeat(np.arange(8.0), 5), rng.rand(40)], -1)
f = lambda x: x[:, 0] * x[:, 1]
s = effector.ShapDP(X, f, nof_instances="all")
s.fit(0)
fe = s.feature_effect["feature_0"]
check(len(fe["xx"]) == 40 and len(fe["yy"]) == 40, "all instances")
v = (X[:, 0] * X[:, 1]) * 0.5 + 0.5 * X[:, 0] * X[:, 1].mean() - 0.5 * X[:, 1] * X[:, 0].mean() - 0.5 * np.mean(X[:, 0] * X[:, 1])
check(close(sorted(v), sorted(fe["yy"]), 1e-5), "values")
""")

S("s08b", "C08",
  [(SHAP, "        yy_std = np.abs(yy - spline_mean(xx))\n", "        yy_std = np.abs(yy - np.interp(xx, xx, spline_mean(np.linspace(xx[0], xx[-1], len(xx)))))\n")],
  "a feature that is not evenly spread",
  "the residuals compare each SHAP value with the curve at another position",
  """
from scipy.interpolate import UnivariateSpline
rng = np.random.RandomState(0)
X = np.stack([rng.rand(40) ** 4, rng.rand(40)], -1)
f = lambda x: np.exp(x[:, 0]) * (1 + x[:, 1])
s = effector.ShapDP(X, f, nof_instances="all")
s.fit(0)
fe = s.feature_effect["feature_0"]
xx, yy = fe["xx"], fe["yy"]
m = UnivariateSpline(xx, yy)
h = UnivariateSpline(xx, np.abs(yy - m(xx)))
q = np.linspace(0, 1, 9)
y, std = s.eval(0, q, heterogeneity=True)
check(close(y, m(q)) and close(std, h(q)), "spline of residuals")
""")

S("s09a", "C09",
  [(UT, """    # compute effect
    right_lim = copy.deepcopy(data)""", """    # a point on a limit lies in the bin at its left
    on_limit = np.logical_and(data[:, feature] == limits[ind - 1], ind > 1)
    # compute effect
    right_lim = copy.deepcopy(data)"""),
   (UT, "    left_lim[:, feature] = limits[ind - 1]\n", "    left_lim[:, feature] = np.where(on_limit, limits[ind - 2], limits[ind - 1])\n"),
   ],
  "an instance exactly on an interior bin edge",
  "its local effect spans two bins but is divided by the width of one",
  """
x = np.array([0.0, 0.5, 1.0, 1.0, 1.5, 2.0, 2.2, 3.0, 4.0])
X = np.stack([x, x[::-1]], -1)
f = lambda x: 2 * x[:, 0] + x[:, 1]
ale = effector.ALE(X, f)
ale.fit(0, binning_method=effector.Fixed(nof_bins=4, min_points_per_bin=0, cat_limit=2))
y, h = ale.eval(0, np.linspace(0, 4, 9), heterogeneity=True, centering=False)
check(close(y, 2 * np.linspace(0, 4, 9)) and close(h, np.zeros(9)), (y, h))
""")

S("s10a", "C10",
  [(BASE, """                if self.method_args["feature_" + str(feature)]["centering"] != centering:
                    return True""", """                # a feature that has been centered has its normalization constant
                if self.method_args["feature_" + str(feature)]["centering"] is False:
                    return True""")],
  "two different centering modes asked of the same feature on the same object",
  "the second centering mode gets the constant of the first",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] ** 2 + x[:, 0] * x[:, 1]
q = np.array([X[:, 0].min(), 0.5])
for cls, kw in ((effector.PDP, {}), (effector.ALE, {}), (effector.ShapDP, {})):
    a = cls(X, f, nof_instances="all")
    a.eval(0, q, centering="zero_integral")
    check(abs(a.eval(0, q, centering="zero_start")[0]) < 1e-6, cls)
""")

S("s10b", "C10",
  [(VIS, "def trans_affine(x, mu, std):\n    return x * std + mu\n",
    "def trans_affine(x, mu, std):\n    # in place, large ICE matrices are not copied\n    x *= std\n    x += mu\n    return x\n")],
  "plot of ALE / RHALE with scale_x, followed by any query of the same feature",
  "plotting in user units overwrites the fitted bin limits",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] ** 2 + x[:, 0] * x[:, 1]
q = np.linspace(0, 1, 7)
a = effector.ALE(X, f)
y = a.eval(0, q, centering=True)
a.plot(0, centering=True, scale_x={"mean": 3.0, "std": 2.0})
check(close(a.eval(0, q, centering=True), y), "eval after plot")
""")

S("s11a", "C11",
  [(BM, """    if isinstance(binning_method, Fixed):
        bin_est = be.Fixed""", """    if isinstance(binning_method, Fixed):
        # at least one point per bin, on average
        binning_method.nof_bins = min(binning_method.nof_bins, max(data.shape[0], 1))
        bin_est = be.Fixed""")],
  "a Fixed object reused for a data set smaller than its number of bins and then for another",
  "the caller's binning object is changed",
  """
rng = np.random.RandomState(0)
X = rng.rand(300, 2)
f = lambda x: x[:, 0] ** 2 + x[:, 0] * x[:, 1]
b = effector.Fixed(nof_bins=50, min_points_per_bin=0, cat_limit=2)
a = effector.ALE(X[:20], f)
a.fit(0, binning_method=b)
check(b.nof_bins == 50, b.nof_bins)
""")

S("s11b", "C11",
  [(PART, """            else candidate_conditioning_features
        )
""", """            else candidate_conditioning_features
        )
        # search the features in a fixed order
        self.foc.sort()
""")],
  "a list of candidate conditioning features that is not sorted",
  "the caller's list is sorted in place by the fit",
  """
rng = np.random.RandomState(0)
X = rng.rand(80, 3)
f = lambda x: np.where(x[:, 1] > 0.5, x[:, 0], -x[:, 0]) + x[:, 2]
foc = [2, 1]
reg = effector.RegionalPDP(X, f, nof_instances="all")
reg.fit(0, max_depth=1, candidate_conditioning_features=foc)
check(foc == [2, 1], foc)
""")
