SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"


S("s02e", "C02",
  [(PDP, "        x_new_2[:, :, feature] = np.expand_dims(x, axis=-1) - 1e-6\n",
    "        # do not step out of the data\n        x_new_2[:, :, feature] = np.expand_dims(np.maximum(x - 1e-6, np.min(data[:, feature])), axis=-1)\n")],
  "no Jacobian, vectorized path, a query at (or below) the smallest value of the feature",
  "the derivative at the start of the axis is half the true one",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: 3 * x[:, 0] + x[:, 1]
d = effector.DerPDP(X, f)
xs = np.array([X[:, 0].min(), 0.5])
check(np.allclose(d.eval(0, xs), 3.0, atol=1e-3), "derivative at the start of the axis")
""")

S("s05c", "C05",
  [(ALE, "            self.data_effect = self.model_jac(self.data)\n",
    "            # in batches, to limit the memory\n"
    "            batches = np.array_split(self.data, max(1, self.data.shape[0] // 1000))\n"
    "            self.data_effect = np.concatenate([self.model_jac(b) for b in sorted(batches, key=len)])\n")],
  "more than 2000 instances, not a multiple of the batch size",
  "derivatives are paired with other instances",
  """
rng = np.random.RandomState(0)
X = rng.rand(2501, 2)
f = lambda x: x[:, 0] ** 2
jac = lambda x: np.stack([2 * x[:, 0], 0 * x[:, 0]], axis=1)
r = effector.RHALE(X, f, jac)
r.fit(0, binning_method=binning_methods.Fixed(20, 0))
y = r.eval(0, np.array([0.5, 1.0]))
check(abs(y[0] - 0.25) < 0.01 and abs(y[1] - 1.0) < 0.01, "RHALE of a square")
""")

S("s07e", "C07",
  [(BS, "                        elif bin_1_loss == 0.0 and bin_2_loss == 0:\n",
    "                        elif bin_1_loss < helpers.EPS and bin_2_loss < helpers.EPS:\n")],
  "derivatives (or units) so small that the cost of the bins is below 1e-8",
  "greedy binning never closes a bin",
  """
from effector.bin_splitting import Greedy
rng = np.random.RandomState(0)
X = np.sort(rng.rand(200))[:, np.newaxis]
d = np.where(X < 0.5, 0.0, 5.0) + 0.1 * rng.rand(200, 1)
find = lambda s: Greedy(X, s * d, 0, None).find(init_nof_bins=20, discount=0.1, min_points=5, cat_limit=3)
a, b = find(1.0), find(1e-5)
check(len(a) == len(b) and np.allclose(a, b), "bins of the rescaled derivatives")
""")

S("s15d", "C15",
  [(PART, "        return np.min(x[:, feature]) + (np.arange(nof_splits) + 0.5) * step\n",
    "        # positions as they are shown to the user\n"
    "        return np.round(np.min(x[:, feature]) + (np.arange(nof_splits) + 0.5) * step, 2)\n")],
  "a conditioning feature in small units",
  "split positions are rounded to two decimals and may lie outside the feature's range",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 2); X[:, 1] *= 1e-3
f = lambda x: np.where(x[:, 1] > 5e-4, x[:, 0], -x[:, 0])
r = effector.RegionalPDP(X, f)
r.fit(0, heter_small_enough=0.0)
check(len(r.tree_pruned["feature_0"].nodes) == 3, "the split is found")
""")

S("s15f", "C15",
  [(PART, "        step = (np.max(x[:, feature]) - np.min(x[:, feature])) / nof_splits\n",
    "        uniq = np.unique(x[:, feature])\n        if 2 < uniq.size <= nof_splits:\n"
    "            # few values: split between them\n            return 0.5 * (uniq[:-1] + uniq[1:])\n"
    "        step = (np.max(x[:, feature]) - np.min(x[:, feature])) / nof_splits\n")],
  "a numerical conditioning feature with fewer distinct values than candidate positions",
  "the candidate positions are not the equally spaced ones",
  """
rng = np.random.RandomState(0)
X = rng.rand(300, 2); X[:, 1] = rng.randint(0, 15, 300) ** 2
f = lambda x: np.where(x[:, 1] > 50, x[:, 0], -x[:, 0])
r = effector.RegionalPDP(X, f, feature_types=["cont", "cont"])
r.fit(0, heter_small_enough=0.0, nof_candidate_splits_for_numerical=20)
p = r.tree_full["feature_0"].nodes[1].foc_position
lo, hi = X[:, 1].min(), X[:, 1].max()
grid = lo + (np.arange(20) + 0.5) * (hi - lo) / 20
check(np.min(np.abs(grid - p)) < 1e-9, "position on the grid")
""")

S("s16d", "C16",
  [(PART, "            split_valid = heter_drop > self.heter_pcg_drop_thres\n",
    "            split_valid = heter_drop >= self.heter_pcg_drop_thres\n")],
  "a drop exactly equal to the threshold (a perfect split with threshold 1)",
  "a level whose drop does not exceed the threshold is kept",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 2); X[:, 1] = rng.randint(0, 2, 200)
f = lambda x: np.where(x[:, 1] > 0.5, x[:, 0], -x[:, 0])
jac = lambda x: np.stack([np.where(x[:, 1] > 0.5, 1.0, -1.0), 0 * x[:, 0]], axis=1)
r = effector.RegionalDerPDP(X, f, jac)
r.fit(0, heter_pcg_drop_thres=1.0)
check(len(r.tree_pruned["feature_0"].nodes) == 1, "no drop exceeds one")
""")

S("s17e", "C17",
  [(PART, "            heter_drop = (heter[:-1] - heter[1:]) / heter[:-1]\n",
    "            heter_drop = (heter[:-1] - heter[1:]) / (heter[:-1] + helpers.EPS)\n")],
  "a model whose heterogeneity is of the order of 1e-8 (tiny output units)",
  "accepted subregions depend on the scale of the output",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 2)
f = lambda x: np.where(x[:, 1] > 0.5, x[:, 0], -x[:, 0])
def nodes(s):
    r = effector.RegionalPDP(X, lambda x: s * f(x))
    r.fit(0, heter_small_enough=0.0)
    return len(r.tree_pruned["feature_0"].nodes)
check(nodes(1.0) == nodes(1e-10) == 3, "subregions of the rescaled model")
""")

S("s18e", "C18",
  [(REG, "            return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)\n",
    "            # all subregions along the same axis\n"
    "            return ALE(data, self.model, axis_limits=self.axis_limits, feature_names=feature_names, target_name=self.target_name)\n")],
  "a subregion where the feature of interest spans less than in the whole data",
  "the regional ALE of a node uses the bins of the whole data",
  """
rng = np.random.RandomState(0)
b = rng.rand(300); a = 0.5 * rng.rand(300) + 0.5 * b
X = np.stack([a, b], axis=1)
f = lambda x: np.where(x[:, 1] > 0.5, 5 * x[:, 0] ** 2, -5 * x[:, 0] ** 3)
r = effector.RegionalALE(X, f)
r.fit(0, heter_small_enough=0.0)
xs = np.linspace(0.3, 0.7, 7)
for n in r.tree_pruned["feature_0"].nodes:
    check(close(r.eval(0, n.idx, xs), effector.ALE(n.data["data"], f).eval(0, xs)), "node %d" % n.idx)
""")

S("s22e", "C22",
  [(PDP, "    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    for j in range(len(features)):\n        x_new[:, :, features[j]] = np.expand_dims(x[:, j], axis=-1)\n",
    "    # each combination of values is computed once\n"
    "    _, first, inverse = np.unique(x[:, :2], axis=0, return_index=True, return_inverse=True)\n"
    "    inverse = np.reshape(inverse, -1)\n"
    "    x = x[first]\n"
    "    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    for j in range(len(features)):\n        x_new[:, :, features[j]] = np.expand_dims(x[:, j], axis=-1)\n"),
   (PDP, "    mean_pdp = np.mean(y, axis=1)\n    if heterogeneity:\n        std = np.std(y, axis=1)\n        sigma_pdp = std\n        stderr = std / np.sqrt(data.shape[0])\n        return (mean_pdp, sigma_pdp, stderr)\n",
    "    y = y[inverse]\n    mean_pdp = np.mean(y, axis=1)\n    if heterogeneity:\n        std = np.std(y, axis=1)\n        sigma_pdp = std\n        stderr = std / np.sqrt(data.shape[0])\n        return (mean_pdp, sigma_pdp, stderr)\n")],
  "four or more features, instances that agree in two of them",
  "the partial dependence on three or more features ignores the third: wrong one-vs-all indices",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.randint(0, 2, (60, 4)).astype(float); X[:, 3] = rng.rand(60)
f = lambda x: x[:, 0] + x[:, 1] * x[:, 2] + x[:, 3]
check(abs(HIndex(X, f).eval_one_vs_all(0)) < 1e-9, "no interaction of an additive feature")
""")

S("s24e", "C24",
  [(BS, "        cond_1 = len(np.unique(self.data[:, self.feature])) == 1\n",
    "        cond_1 = self.xs_min == self.xs_max\n")],
  "a constant feature, explicit axis limits around it and a binning object with cat_limit=0 or a fixed one",
  "a constant feature gets a number instead of an error",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2); X[:, 0] = 0.5
f = lambda x: x[:, 0] + x[:, 1]
lim = np.array([[0.0, 0.0], [1.0, 1.0]])
a = effector.ALE(X, f, axis_limits=lim)
try:
    a.fit(0, binning_method=binning_methods.Fixed(5, 0, 0))
    y = a.eval(0, np.array([0.2, 0.7]))
    ok = False
except Exception:
    ok = True
check(ok, "a constant feature is rejected")
""")

S("s25e", "C25",
  [(PART, "        return np.unique(x[:, feature])\n",
    "        # splitting off the last value is the same as keeping the others together\n"
    "        return np.unique(x[:, feature])[:-1]\n")],
  "a categorical conditioning feature with three or more values, the largest being the one that matters",
  "the largest value is never split off",
  """
rng = np.random.RandomState(0)
X = rng.rand(300, 2); X[:, 1] = rng.randint(0, 3, 300)
f = lambda x: np.where(x[:, 1] == 2, x[:, 0], -x[:, 0])
r = effector.RegionalPDP(X, f)
r.fit(0, heter_small_enough=0.0)
check(r.tree_full["feature_0"].nodes[1].foc_position == 2, "the value split off")
""")

S("s27d", "C27",
  [(REG, "            utils.get_feature_types(data, cat_limit)\n            if feature_types is None\n",
    "            [\"cat\" if np.issubdtype(data.dtype, np.integer) else t for t in utils.get_feature_types(data, cat_limit)]\n            if feature_types is None\n")],
  "data stored as integers",
  "features of integer data are all taken for categorical ones",
  """
rng = np.random.RandomState(0)
X = rng.randint(0, 40, (200, 2))
f = lambda x: np.where(x[:, 1] > 20, x[:, 0], -x[:, 0]).astype(float)
def tree(X):
    r = effector.RegionalPDP(X, f)
    r.fit(0, heter_small_enough=0.0)
    t = r.tree_pruned["feature_0"]
    return None if t is None else len(t.nodes)
check(tree(X) == tree(X.astype(float)), "trees of integer and float data")
""")

S("s03e", "C03",
  [(PDP, "            xx = self.axis_limits[0, feature, np.newaxis]\n",
    "            xx = np.array([np.min(data[:, feature])])\n")],
  "explicit axis limits that start below (or inside) the data, zero_start centering",
  "the curves are zero at the smallest value inside the limits, not at the start of the axis",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: 3 * x[:, 0] * (1 + x[:, 1])
lim = np.array([[-1.0, -1.0], [2.0, 2.0]])
y = effector.PDP(X, f, axis_limits=lim).eval(0, np.array([-1.0, 0.5]), centering="zero_start")
check(abs(y[0]) < 1e-9, "zero at the start of the axis")
""")

S("s04e", "C04",
  [(UT, "    full_bin_effect = tmp[ind]\n", "    full_bin_effect = np.where(ind > 1, tmp[ind], 0)\n    if len(bin_effect) > 256:\n        # avoid the drift of long sums\n        full_bin_effect = full_bin_effect.astype(np.float16).astype(float)\n")],
  "more than 256 bins",
  "the accumulated effect of long binnings is kept in half precision",
  """
rng = np.random.RandomState(0)
X = rng.rand(500, 2)
f = lambda x: 3 * x[:, 0]
a = effector.ALE(X, f)
a.fit(0, binning_method=binning_methods.Fixed(300, 0), centering=False)
xs = np.array([0.35, 0.92])
check(np.allclose(a.eval(0, xs), 3 * (xs - X[:, 0].min()), atol=1e-9), "ALE of a line")
""")

S("s09d", "C09",
  [(UT, "    variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2\n",
    "    df_dxs = df_dxs.astype(np.float32)\n    variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2\n")],
  "local effects that agree but are no single-precision numbers",
  "a linear feature gets heterogeneity",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: 0.1 * x[:, 0] + x[:, 1] ** 2
jac = lambda x: np.stack([0.1 + 0 * x[:, 0], 2 * x[:, 1]], axis=1)
r = effector.RHALE(X, f, jac)
_, h = r.eval(0, np.linspace(0.1, 0.9, 5), heterogeneity=True)
check(np.all(h < 1e-10), "heterogeneity of a linear term")
""")

S("s23d", "C23",
  [(BS, "            limits, _ = np.linspace(xs_min, xs_max, num=init_nof_bins + 1, endpoint=True, retstep=True)\n",
    "            limits = xs_min + np.arange(init_nof_bins + 1) * max((xs_max - xs_min) / init_nof_bins, 1e-6)\n            limits[-1] = xs_max\n")],
  "greedy binning of a feature whose range is below 1e-6 times the number of bins",
  "the bins of a feature in tiny units are not increasing (or fail)",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 2)
def run(s):
    jac = lambda x: np.stack([np.where(x[:, 0] < 0.5 * s, 1.0, 3.0) / s, 0 * x[:, 0]], axis=1)
    f = lambda x: x[:, 0] / s
    Z = X * np.array([s, 1.0])
    r = effector.RHALE(Z, f, jac)
    r.fit(0, binning_method=binning_methods.Greedy(100, 5))
    return r.eval(0, np.linspace(0.1, 0.9, 5) * s)
try:
    ok = np.allclose(run(1.0), run(1e-6))
except Exception:
    ok = False
check(ok, "RHALE in other units")
""")

S("s04f", "C04",
  [(UT, "    bin_effect = fill_nans(bin_effect_nans)\n",
    "    # noisy bins are smoothed\n"
    "    if len(limits) > 3:\n        bin_effect_nans = np.where(points_per_bin == 1, np.nan, bin_effect_nans)\n"
    "        if np.all(np.isnan(bin_effect_nans)):\n            bin_effect_nans, _ = compute_bin_effect(xs, df_dxs, limits)\n"
    "    bin_effect = fill_nans(bin_effect_nans)\n")],
  "three or more bins, one of them with a single point",
  "the effect of a bin with one point is interpolated from its neighbours",
  """
X = np.array([[0.0, 0], [0.1, 1], [0.2, 0], [0.5, 1], [0.8, 0], [0.9, 1], [1.0, 0]], dtype=float)
f = lambda x: x[:, 0] ** 3
a = effector.ALE(X, f)
a.fit(0, binning_method=binning_methods.Fixed(3, 0, 0), centering=False)
check(abs(a.eval(0, np.array([2 / 3]))[0] - (2 / 3) ** 3) < 1e-9, "ALE at a bin edge")
""")

S("s31f", "C31",
  [(REG, "    def eval(self, feature, node_idx, xs, heterogeneity=False, centering=False):\n",
    "    def eval(self, feature, node_idx, xs, centering=False, heterogeneity=False):\n"),
   ],
  "options of a regional eval given by position",
  "heterogeneity and centering are swapped",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f)
r.fit(0)
check(isinstance(r.eval(0, 0, np.array([0.5]), True), tuple), "heterogeneity by position")
""")

S("s10e", "C10",
  [(ALE, "        if self.data_effect is None:\n            self.compile()\n",
    "        if self.data_effect is None or not np.any(self.is_fitted):\n            self.compile()\n        elif self.model_jac is None and len(self.feature_effect) > 0:\n            # reuse the memory\n            self.data_effect = np.round(self.data_effect, 3)\n")],
  "numerical derivatives and a second fit on the same object",
  "every further fit rounds the derivatives",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: np.sin(x[:, 0]) * 1e-2 + x[:, 1]
xs = np.linspace(0.1, 0.9, 5)
a = effector.RHALE(X, f); a.fit(0); want = a.eval(0, xs)
b = effector.RHALE(X, f); b.fit(1); b.fit(0)
check(np.allclose(want, b.eval(0, xs), rtol=1e-6, atol=1e-9), "fit after another feature's fit")
""")

S("s13g", "C13",
  [(SHAP, "            \"SHAP DP\", data, model, nof_instances, axis_limits, avg_output, feature_names, target_name\n",
    "            \"SHAP DP\", data[:1000], model, nof_instances, axis_limits, avg_output, feature_names, target_name\n")],
  "SHAP-DP with more than a thousand instances asked for",
  "only the first thousand instances are explained",
  """
rng = np.random.RandomState(0)
X = rng.rand(1100, 2)
s = effector.ShapDP(X, lambda x: x[:, 0] + x[:, 1], nof_instances="all")
check(s.data.shape[0] == 1100, "all instances")
""")
