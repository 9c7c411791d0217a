SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"


S("s32a", "C32",
  [(BASE, "        self.method_args: dict = {}\n", "        self.method_args = self.fit_args\n"),
   (BASE, "    empty_symbol = helpers.EMPTY_SYMBOL\n\n    def __init__(\n            self,\n            method_name: str,",
    "    empty_symbol = helpers.EMPTY_SYMBOL\n\n    # parameters of the fits, per feature\n    fit_args: dict = {}\n\n    def __init__(\n            self,\n            method_name: str,")],
  "two objects, the first fitted with a binning object, the second asked without an explicit fit",
  "an object without a fit takes the binning another object was fitted with",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] ** 2 * x[:, 1]
xs = np.linspace(0.1, 0.9, 5)
alone = effector.ALE(X, f).eval(0, xs)
effector.ALE(X, f).fit(0, binning_method=binning_methods.Fixed(2, 0))
check(close(alone, effector.ALE(X, f).eval(0, xs)), "the second object")
""")

S("s32b", "C32",
  [(REG, "        self.tree_pruned_scaled: typing.Dict[str, Tree] = {}\n", ""),
   (REG, "    empty_symbol = helpers.EMPTY_SYMBOL\n\n    def __init__(",
    "    empty_symbol = helpers.EMPTY_SYMBOL\n\n    # trees with the positions in the units of the plot\n    tree_pruned_scaled: typing.Dict[str, Tree] = {}\n\n    def __init__(")],
  "a scaled plot of one regional object followed by an evaluation of another one",
  "the subregions of another regional object are evaluated",
  """
rng = np.random.RandomState(0)
A, B = rng.rand(60, 2), rng.rand(60, 2)
f = lambda x: x[:, 0] * (x[:, 1] > 0.5)
kw = dict(heter_small_enough=0.0)
b = effector.RegionalPDP(B, f); b.fit(0, **kw)
xs = np.linspace(0.1, 0.9, 5)
want = b.eval(0, 0, xs)
a = effector.RegionalPDP(A, lambda x: 5 * f(x)); a.fit(0, **kw)
a.plot(0, 0, scale_x_list=[{"mean": 0.0, "std": 2.0}] * 2)
check(close(want, b.eval(0, 0, xs)), "evaluation after another object's plot")
""")

S("s32c", "C32",
  [(UT, "    types = [\n        \"cat\" if len(np.unique(data[:, f])) < categorical_limit else \"cont\"\n        for f in range(data.shape[1])\n    ]\n    return types",
    "    key = data.shape + (categorical_limit,)\n    if key not in _TYPES:\n        _TYPES[key] = [\n            \"cat\" if len(np.unique(data[:, f])) < categorical_limit else \"cont\"\n            for f in range(data.shape[1])\n        ]\n    return list(_TYPES[key])"),
   (UT, "EPS = helpers.EPS\n", "EPS = helpers.EPS\n\n# feature types are asked for again and again for the same data\n_TYPES: dict = {}\n")],
  "two data sets of the same shape with different kinds of features in one process",
  "the feature types of another data set are used",
  """
rng = np.random.RandomState(0)
A, B = rng.rand(50, 2), rng.rand(50, 2)
A[:, 1] = rng.randint(0, 3, 50)
f = lambda x: x[:, 0] * (x[:, 1] > 0.5)
effector.RegionalPDP(A, f)
check(effector.RegionalPDP(B, f).feature_types == ["cont", "cont"], "types of the second data set")
""")

S("s32d", "C32",
  [(VIS, "    fig, ax = plt.subplots()\n    ax.set_title(\"SHAP Dependence Plot\")", "    fig, ax = plt.subplots(num=\"SHAP Dependence Plot\", clear=True)\n    ax.set_title(\"SHAP Dependence Plot\")")],
  "two SHAP plots whose figures stay open",
  "the second plot replaces the first one's figure",
  """
rng = np.random.RandomState(0)
X = rng.rand(12, 2)
s = effector.ShapDP(X, lambda x: x[:, 0] * x[:, 1])
s.plot(0); s.plot(1)
check(len(plt.get_fignums()) == 2, "two figures")
""")

S("s01d", "C01",
  [(HE, "    data = data[data[:, feature] >= axis_limits[0, feature]]\n    data = data[data[:, feature] <= axis_limits[1, feature]]\n",
    "    inside = np.logical_and(data >= axis_limits[0], data <= axis_limits[1])\n    data = data[np.all(inside, axis=1)]\n")],
  "user axis limits that leave out instances along another feature than the one explained",
  "instances outside the limits of other features are left out of the average",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2)
f = lambda x: x[:, 0] * x[:, 1]
lim = np.array([[0.0, 0.5], [1.0, 1.0]])
got = effector.PDP(X, f, axis_limits=lim, nof_instances="all").eval(0, np.array([0.5]))
check(close(got, [0.5 * X[:, 1].mean()]), "average over all instances inside the limits of feature 0")
""")

S("s02d", "C02",
  [(PDP, "            if self.model_jac is not None:\n                y = method(self.model_jac,", "            if self.model_jac is not None and use_vectorized:\n                y = method(self.model_jac,")],
  "a Jacobian supplied and the non-vectorized path",
  "the supplied Jacobian is ignored by the non-vectorized path",
  """
rng = np.random.RandomState(0)
X = rng.rand(20, 2)
f = lambda x: np.exp(3 * x[:, 0]) * x[:, 1]
jac = lambda x: np.stack([7.0 * x[:, 1], x[:, 0]], axis=1)
d = effector.DerPDP(X, f, jac, nof_instances="all")
xs = np.array([0.2, 0.7])
check(close(d.eval(0, xs, use_vectorized=False), d.eval(0, xs)), "the Jacobian's column on both paths")
""")

S("s03d", "C03",
  [(SHAP, "            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])\n",
    "            norm_const = np.trapz(y_norm, x_norm) / (self.axis_limits[1, feature] - self.axis_limits[0, feature])\n")],
  "axis limits wider than the data, zero_integral centering of SHAP-DP",
  "the mean of the centered SHAP curve is not zero",
  """
rng = np.random.RandomState(0)
X = rng.rand(15, 2)
lim = np.array([[-1.0, 0.0], [2.0, 1.0]])
f = lambda x: np.exp(2 * x[:, 0])
a = effector.ShapDP(X, f, axis_limits=lim); b = effector.ShapDP(X, f)
xs = np.linspace(0.2, 0.8, 4)
check(close(a.eval(0, xs, centering=True), b.eval(0, xs, centering=True)), "same constant, same data")
""")

S("s04d", "C04",
  [(UT, "    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])\n", "    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans], left=0.0)\n")],
  "bins without instances before the first one with instances (axis limits wider than the data)",
  "the effect of leading empty bins is zero instead of their neighbour's",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: 3 * x[:, 0]
lim = np.array([[-1.0, 0.0], [1.0, 1.0]])
xs = np.linspace(-1, 1, 7)
y = effector.ALE(X, f, axis_limits=lim).eval(0, xs)
check(close(np.diff(y), 3 * np.diff(xs)), "a straight line")
""")

S("s06d", "C06",
  [(BS, "+ [uniq[-1] + dx[-1] / 2])", "+ [uniq[-1] + dx[0] / 2])")],
  "a categorical feature whose values are not evenly spaced",
  "the outer edge of the last category's bin is not half a gap outside",
  """
X = np.tile(np.array([0.0, 1.0, 10.0]), 10)[:, None]
X = np.concatenate([X, np.random.RandomState(0).rand(30, 1)], axis=1)
b = bin_splitting.Fixed(X, None, 0, None)
check(close(b.find(5, 0, 10), [-0.5, 0.5, 5.5, 14.5]), "edges of the categories")
""")

S("s07c", "C07",
  [(BS, "        if data_effect.size < min_points:\n            cost = self.big_M", "        if data_effect.size < max(min_points, 2):\n            cost = self.big_M")],
  "automatic binning without a minimum number of points, on data with sparse stretches",
  "bins with one or no point are excluded although no minimum is asked for",
  """
X = np.array([0, .02, .04, .06, .08, .1, .5, .9, .92, .94, .96, .98, 1.0, .01, .03, .05, .07])[:, None]
X = np.concatenate([X, X], axis=1)
J = np.where(X < 0.3, 0.0, np.where(X < 0.7, 50.0, 100.0)) + 0.0
d = bin_splitting.DP(X, J, 0, None)
l = d.find(5, 0, 0.0, 5)
cost = sum(np.var(J[(X[:, 0] >= a) & (X[:, 0] <= b), 0]) * (b - a) for a, b in zip(l[:-1], l[1:]) if ((X[:, 0] >= a) & (X[:, 0] <= b)).any())
check(cost < 1e-9, "a binning without cost exists")
""")

S("s09b", "C09",
  [(PART, "            split_valid = heter_drop > self.heter_pcg_drop_thres\n", "            split_valid = ~(heter_drop <= self.heter_pcg_drop_thres)\n")],
  "a feature without any heterogeneity fitted with heter_small_enough=0",
  "a split of a feature without heterogeneity is accepted",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2)
r = effector.RegionalDerPDP(X, lambda x: 2 * x[:, 0] + x[:, 1], lambda x: np.tile([2.0, 1.0], (len(x), 1)))
r.fit(0, heter_small_enough=0.0)
check(len(r.tree_pruned["feature_0"].nodes) == 1, "only the root")
""")

S("s11d", "C11",
  [(PART, "        self.foc_types = [self.feature_types[i] for i in self.foc]\n",
    "        if split_categorical_features:\n            self.feature_types[self.feature] = \"cont\"\n        self.foc_types = [self.feature_types[i] for i in self.foc]\n")],
  "feature types given by the caller, a categorical feature of interest and split_categorical_features",
  "the caller's list of types is changed (and later fits treat the feature as numerical)",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.randint(0, 3, 40) * 1.0, rng.rand(40)], axis=1)
t = ["cat", "cont"]
r = effector.RegionalPDP(X, lambda x: x[:, 0] * x[:, 1], feature_types=t)
r.fit(0, split_categorical_features=True)
check(t == ["cat", "cont"], "the caller's list")
""")

S("s12d", "C12",
  [(UT, "    # compute effect variance in each bin\n", "    # what is left of a zero effect is numerical noise\n    bin_effect_nans[np.abs(bin_effect_nans) < EPS] = 0.0\n\n    # compute effect variance in each bin\n")],
  "a model with tiny outputs (or a feature in huge units)",
  "small effects are rounded to zero: scaling the output does not scale the effect",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
xs = np.array([0.2, 0.8])
y = effector.ALE(X, lambda x: 1e-9 * x[:, 0]).eval(0, xs)
check(abs((y[1] - y[0]) / 6e-10 - 1) < 1e-6, "slope of a small output")
""")

S("s14d", "C14",
  [(PART, "                tree.add_node(name, parent_name=parent_name, data=data, level=i+1)\n",
    "                name = name[:100]  # keep the labels of plots readable\n                tree.add_node(name, parent_name=parent_name, data=data, level=i+1)\n")],
  "long feature names and a tree of two levels",
  "nodes of the second level get the same name, and with it their children the wrong parent",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 3)
f = lambda x: x[:, 0] * (4.0 * (x[:, 1] > 0.5) + 2.0 * (x[:, 2] > 0.5))
r = effector.RegionalPDP(X, f, feature_names=["the first feature of the data set, long", "the second feature of the data set, long as well", "the third feature of the data set, long as well"])
r.fit(0, max_depth=2, heter_small_enough=0.0, centering=True)
names = [n.name for n in r.tree_full["feature_0"].nodes]
check(len(set(names)) == len(names) == 7, "distinct names")
""")

S("s17d", "C17",
  [(RSHAP, "            if data.shape[0] < min_points:\n", "            if data.shape[0] < min(min_points, 10):\n")],
  "a regional SHAP fit that asks for more than ten instances per subregion",
  "regional SHAP accepts subregions with fewer instances than min_points_per_subregion",
  """
rng = np.random.RandomState(0)
X = rng.rand(45, 2)
r = effector.RegionalShapDP(X, lambda x: 9 * x[:, 0] * (x[:, 1] > np.sort(X[:, 1])[12]))
r.fit(0, min_points_per_subregion=18, heter_small_enough=0.0, nof_candidate_splits_for_numerical=12)
t = r.tree_pruned["feature_0"]
check(all(n.nof_instances >= 18 for n in t.nodes[1:]), "sizes %s" % [n.nof_instances for n in t.nodes])
""")

S("s20e", "C20",
  [(PART, "                    mean = scale_x_list[foc][\"mean\"]\n                    std = scale_x_list[foc][\"std\"]\n",
    "                    mean = scale_x_list[splits[0][\"feature\"]][\"mean\"]\n                    std = scale_x_list[splits[0][\"feature\"]][\"std\"]\n")],
  "a scaled plot of a node of the second level that splits another feature than the first",
  "the rule of the second level is in the units of the first",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 3)
f = lambda x: x[:, 0] * (6.0 * (x[:, 1] > 0.5) + 3.0 * (x[:, 2] > 0.5))
r = effector.RegionalPDP(X, f)
r.fit(0, max_depth=2, heter_small_enough=0.0, centering=True)
t = r.tree_pruned["feature_0"]
check(len(t.nodes) == 7, "two levels")
r.plot(0, 3, scale_x_list=[{"mean": 100.0 * j, "std": 1.0 + j} for j in range(3)])
n = t.nodes[3]
pos = 100.0 * n.foc + (1.0 + n.foc) * n.foc_position
check(("%s" % np.round(pos, 2)) in plt.gcf().axes[0].get_xlabel(), "scaled position %s" % pos)
""")

S("s21f", "C21",
  [(PART, "            prev_heter = level_stats['heterogeneity']\n", "            prev_heter = max(prev_heter, level_stats['heterogeneity'])\n")],
  "the statistics of a tree with two levels",
  "the drop of the second level is reported relative to the root",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.rand(200, 3)
f = lambda x: x[:, 0] * (6.0 * (x[:, 1] > 0.5) + 3.0 * (x[:, 2] > 0.5))
r = effector.RegionalPDP(X, f)
r.fit(0, max_depth=2, heter_small_enough=0.0, centering=True)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r.show_partitioning(0)
line = [l for l in out.getvalue().splitlines() if l.strip().startswith("Level 2")][0]
t = r.tree_pruned["feature_0"]
h = [t.get_level_stats(l)["heterogeneity"] for l in range(3)]
check("drop: %.2f (" % (h[1] - h[2]) in line, line)
""")

S("s24d", "C24",
  [(HE, "        assert confidence_interval in [\"std\", \"std_err\", \"ice\", \"shap_values\"]\n", "        confidence_interval = confidence_interval.lower()\n")],
  "an undocumented heterogeneity display",
  "an unknown heterogeneity option is accepted and nothing is drawn",
  """
X = np.random.RandomState(0).rand(20, 2)
try:
    effector.PDP(X, lambda x: x[:, 0]).plot(0, heterogeneity="variance")
except Exception:
    sys.exit(0)
check(False, "rejected")
""")

S("s25d", "C25",
  [(PART, "            self.feature_types[self.feature] == \"cat\"\n", "            utils.get_feature_types(self.data, self.cat_limit)[self.feature] == \"cat\"\n")],
  "a feature of interest whose declared type differs from the inferred one",
  "the declared type of the feature of interest is ignored",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.randint(0, 4, 60) * 1.0, rng.rand(60)], axis=1)
r = effector.RegionalPDP(X, lambda x: x[:, 0] * x[:, 1], feature_types=["cont", "cont"])
r.fit(0)
check(r.tree_full["feature_0"] is not None, "declared numerical: partitioned")
""")

S("s26d", "C26",
  [(UT, "    deltas = deltas**2 if square else deltas\n", "")],
  "the accumulated effect with squared widths, between two limits",
  "the part of the last bin is not squared",
  """
y = utils.compute_accumulated_effect(np.array([0.5]), np.array([0.0, 1.0]), np.array([2.0]), np.array([1.0]), square=True)
check(close(y, [0.5]), "squared remainder %s" % y)
""")

S("s28d", "C28",
  [(ALE, "        if self.data_effect is None and self.model_jac is not None:\n            self.data_effect = self.model_jac(self.data)\n",
    "        if self.model_jac is not None and not np.all(self.is_fitted):\n            self.data_effect = self.model_jac(self.data)\n"),
   (ALE, "        if self.data_effect is None:\n            self.compile()\n", "        if self.data_effect is None or not self.is_fitted[feature]:\n            self.compile()\n")],
  "more than one feature of RHALE (or data effects together with a Jacobian)",
  "the Jacobian is asked again for every feature and even when derivatives are supplied",
  """
X = np.random.RandomState(0).rand(30, 3)
calls = []
def jac(x):
    calls.append(1)
    return np.ones_like(x)
r = effector.RHALE(X, lambda x: x.sum(1), jac)
r.fit("all")
check(len(calls) == 1, "%d calls of the Jacobian" % len(calls))
""")

S("s29f", "C29",
  [(PDP, "            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n            self.is_fitted[s] = True\n",
    "            self.is_fitted[s] = True\n            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n")],
  "a first centered query (or fit) of a feature that fails in the model, then another one",
  "the object stays unusable for the feature after one failure of the model",
  """
X = np.random.RandomState(0).rand(20, 2)
class M:
    fail = False
    def __call__(self, x):
        if self.fail:
            raise ValueError("no")
        return x[:, 0]
m = M()
p = effector.PDP(X, m)
m.fail = True
try:
    p.eval(0, np.array([0.5]), centering="zero_start")
except ValueError:
    pass
m.fail = False
check(close(p.eval(0, np.array([0.5]), centering="zero_start"), [0.5 - X[:, 0].min()]), "answer after the failure")
""")

S("s31e", "C31",
  [(BM, "                 max_nof_bins: int = 20,\n                 min_points_per_bin: int = 10,\n", "                 max_nof_bins: int = 20,\n                 min_points_per_bin: int = 5,\n")],
  "a DynamicProgramming object without a minimum number of points, data where ten matters",
  "the default minimum is not the documented one",
  """
check(binning_methods.DynamicProgramming().min_points_per_bin == 10, "documented default")
""")

S("s13f", "C13",
  [(REG, "        axis_limits = (\n            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits\n        )\n        self.axis_limits: np.ndarray = axis_limits\n\n        # set feature types",
    "        axis_limits = (\n            helpers.axis_limits_from_data(self.data) if axis_limits is None else axis_limits\n        )\n        self.axis_limits: np.ndarray = axis_limits\n\n        # set feature types")],
  "a regional method with fewer instances than rows",
  "the axis limits are those of the selected rows instead of the full data",
  """
X = np.random.RandomState(0).rand(60, 2)
np.random.seed(0)
r = effector.RegionalPDP(X, lambda x: x[:, 0], nof_instances=10)
check(close(r.axis_limits, np.stack([X.min(0), X.max(0)])), "limits of the full data")
""")

S("s32e", "C32",
  [(INT, "        self.interaction_matrix = np.ones((self.nof_features, self.nof_features)) * self.empty_symbol\n        self.one_vs_all_matrix = np.ones((self.nof_features)) * self.empty_symbol\n",
    "        # the matrices of the same data are kept\n        key = (self.nof_features, self.data.tobytes())\n        if key not in self.matrices:\n            self.matrices[key] = (np.ones((self.nof_features, self.nof_features)) * self.empty_symbol, np.ones((self.nof_features)) * self.empty_symbol)\n        self.interaction_matrix, self.one_vs_all_matrix = self.matrices[key]\n"),
   (INT, "    empty_symbol = 1e10\n\n    def __init__(self, data, model, nof_instances=1000):", "    empty_symbol = 1e10\n    matrices: dict = {}\n\n    def __init__(self, data, model, nof_instances=1000):")],
  "the H-index of two models on the same data",
  "the second model's index is that of the first one",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f, g = (lambda x: x[:, 0] * x[:, 1]), (lambda x: x[:, 0] + 3 * x[:, 1])
HIndex(X, f, "all").eval_pairwise(0, 1)
check(abs(HIndex(X, g, "all").eval_pairwise(0, 1)) < 1e-9, "the additive model")
""")

S("s32f", "C32",
  [(VIS, "    # PLOT\n    fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)\n", "    # PLOT\n    plt.rcParams[\"figure.max_open_warning\"] = 0\n    plt.rcParams[\"axes.xmargin\"] = 0.0\n    fig, (ax1, ax2) = plt.subplots(2, 1, sharex=True)\n")],
  "any (RH)ALE plot followed by other plots in the process",
  "a plot changes matplotlib's settings for the rest of the process",
  """
X = np.random.RandomState(0).rand(30, 2)
old = dict(plt.rcParams)
effector.ALE(X, lambda x: x[:, 0]).plot(0)
check(dict(plt.rcParams) == old, "settings")
""")

S("s19f", "C19",
  [(VIS, "    dx = (\n        ale_params[\"dx\"]\n        if scale_x is None\n        else trans_scale(ale_params[\"dx\"], scale_x[\"std\"])\n    )\n",
    "    dx = (\n        ale_params[\"dx\"]\n        if scale_x is None or scale_y is None\n        else trans_scale(ale_params[\"dx\"], scale_x[\"std\"])\n    )\n")],
  "an (RH)ALE plot with scale_x and without scale_y",
  "the bars have the width of the bins in the original units",
  """
X = np.random.RandomState(0).rand(80, 2)
a = effector.ALE(X, lambda x: x[:, 0] * x[:, 1])
a.plot(0, scale_x={"mean": 0.0, "std": 4.0})
bars = plt.gcf().axes[1].patches
check(abs(sum(b.get_width() for b in bars) - 4 * np.ptp(X[:, 0])) < 1e-9, "widths in user units")
""")
