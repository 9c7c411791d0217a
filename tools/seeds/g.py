SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"


S("s10f", "C10",
  [(PDP, "        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized\n",
    "        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized\n        if getattr(self, \"_last_query\", None) == (feature, len(xx), xx[0], xx[-1]):\n            return self._last_prediction\n"),
   (PDP, "        return y\n\n    def _fit_feature(\n",
    "        # the plot and the evaluation often ask for the same grid\n        self._last_query, self._last_prediction = (feature, len(xx), xx[0], xx[-1]), y\n        return y\n\n    def _fit_feature(\n")],
  "two evaluations in a row with the same number of queries and the same end points but other points between",
  "the second evaluation returns the values of the first one's points",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: x[:, 0] ** 2 + x[:, 1]
p = effector.PDP(X, f)
p.eval(0, np.array([0., 0.3, 1.]))
check(np.allclose(p.eval(0, np.array([0., 0.6, 1.])), effector.PDP(X, f).eval(0, np.array([0., 0.6, 1.]))), "second evaluation")
""")

S("s03f", "C03",
  [(PDP, "                self.axis_limits[1, feature],\n                points_for_centering,\n",
    "                self.axis_limits[1, feature],\n                min(points_for_centering, 200),\n")],
  "more than 200 points for centering",
  "the curves are centered with fewer points than the user asked for",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: np.exp(3 * x[:, 0]) + x[:, 1]
p = effector.PDP(X, f, axis_limits=np.array([[0., 0.], [1., 1.]]))
p.fit(0, centering=True, points_for_centering=500)
got = p.eval(0, np.array([0., 0.5]), centering=True)
g = np.linspace(0, 1, 500)
want = np.exp(3 * np.array([0., 0.5])) - np.mean(np.exp(3 * g))
check(np.allclose(got, want, atol=1e-9), "centering with 500 points")
""")

S("s06e", "C06",
  [(BS, "        valid = filtered_points.size >= min_points\n",
    "        valid = np.unique(filtered_points).size >= min_points\n")],
  "repeated values of a numerical feature",
  "bins that hold the minimum of points are refused or merged because some points coincide",
  """
rng = np.random.RandomState(0)
x = np.repeat(np.linspace(0, 1, 41), 3)
X = np.stack([x, rng.rand(x.size)], axis=1)
b = bin_splitting.Fixed(X, None, 0, None)
check(b.find(nof_bins=10, min_points=8, cat_limit=10) is not False, "each bin holds at least 12 points")
""")

S("s07f", "C07",
  [(BS, "            discount_for_more_points = 1 - discount * (data_effect.size / nof_points)\n",
    "            discount_for_more_points = 1 - min(discount, 0.5) * (data_effect.size / nof_points)\n")],
  "a discount above 0.5",
  "the binning does not optimise the cost with the given discount",
  """
rng = np.random.RandomState(3)
import itertools
bad = 0
for t in range(40):
    N, K, disc = 30, 4, 0.95
    X = rng.rand(N, 1); X[0], X[1] = 0., 1.
    J = rng.randn(N, 1)
    d = bin_splitting.DP(X, J, 0, None)
    lim = d.find(max_nof_bins=K, min_points=2, discount=disc, cat_limit=5)
    def cost(a, b):
        m = (X[:, 0] >= a) & (X[:, 0] <= b)
        return np.inf if m.sum() < 2 else np.var(J[m, 0]) * (b - a) * (1 - disc * m.sum() / N)
    grid = np.linspace(0, 1, K + 1)
    best = min(sum(cost(e[i], e[i + 1]) for i in range(len(e) - 1))
               for r in range(K) for c in itertools.combinations(grid[1:-1], r) for e in [[0., *c, 1.]])
    got = sum(cost(lim[i], lim[i + 1]) for i in range(len(lim) - 1))
    check(got <= best + 1e-9, "cost above the minimum")
""")

S("s08e", "C08",
  [(SHAP, "        yy = explanation.values[:, feature]\n",
    "        yy = explanation.values[:, feature]\n        # a few extreme values must not dominate the curve\n        yy = np.clip(yy, np.mean(yy) - 4 * np.std(yy), np.mean(yy) + 4 * np.std(yy))\n")],
  "an instance whose SHAP value is more than four standard deviations from the mean",
  "the SHAP value of an extreme instance is cut",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
X[7, 0] = 30.
f = lambda x: x[:, 0] + x[:, 1]
s = effector.ShapDP(X, f, nof_instances="all")
s.fit(0)
yy = s.feature_effect["feature_0"]["yy"]
check(np.allclose(yy, np.sort(X[:, 0]) - np.mean(X[:, 0]), atol=1e-6), "SHAP values of a linear model")
""")

S("s15g", "C15",
  [(PART, "                if any([len(x) < self.min_points for x in x_list]):\n                    break\n",
    "                if any([len(x) < self.min_points for x in x_list]):\n                    break\n                # nothing left to explain\n                if lev > 0 and splits[-1][\"weighted_heter\"] < self.heter_small_enough:\n                    break\n")],
  "max_depth of two or more and a first split that brings heterogeneity below heter_small_enough",
  "the second level is not searched although it would be accepted",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (300, 3))
f = lambda x: x[:, 0] * np.where(x[:, 1] > 0, 1., -1.) + 0.2 * x[:, 0] * np.where(x[:, 2] > 0, 1., -1.)
J = lambda x: np.stack([np.where(x[:, 1] > 0, 1., -1.) + 0.2 * np.where(x[:, 2] > 0, 1., -1.)] + 2 * [np.zeros(len(x))], axis=1)
r = effector.RegionalRHALE(X, f, J)
r.fit(0, max_depth=2, heter_small_enough=0.6, binning_method=binning_methods.Fixed(1, 0))
check(max(n.level for n in r.tree_pruned["feature_0"].nodes) == 2, "second level")
""")

S("s19g", "C19",
  [(VIS, "    std = np.std(y_ice_outputs, axis=1)\n    std_err",
    "    if nof_ice != \"all\":\n        y_ice_outputs = y_ice_outputs[:, :nof_ice]\n    std = np.std(y_ice_outputs, axis=1)\n    std_err")],
  "nof_ice given together with the std band",
  "the std band is that of the first nof_ice instances instead of all",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 1]
p = effector.PDP(X, f)
p.plot(0, heterogeneity="std", nof_ice=5, nof_points=7)
ax = plt.gcf().axes[0]
pts = ax.collections[0].get_paths()[0].vertices
x = np.linspace(X[:, 0].min(), X[:, 0].max(), 7)
mu, sd = p.eval(0, x, heterogeneity=True)
check(abs(pts[:, 1].max() - np.max(mu + sd)) < 1e-9, "upper end of the band")
""")

S("s19h", "C19",
  [(SHAP, "            self.feature_effect[\"feature_\" + str(feature)][\"xx\"][ind]\n",
    "            self.feature_effect[\"feature_\" + str(feature)][\"xx\"][np.sort(ind)]\n")],
  "fewer SHAP values drawn than there are instances",
  "the drawn SHAP values sit at the positions of other instances",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: 3 * x[:, 0] + x[:, 1]
s = effector.ShapDP(X, f, nof_instances="all")
np.random.seed(1)
s.plot(0, heterogeneity="shap_values", nof_shap_values=20)
l = [l for l in plt.gcf().axes[0].lines if len(l.get_xdata()) == 20 and l.get_linestyle() == "None"][0]
check(np.allclose(l.get_ydata(), 3 * (l.get_xdata() - X[:, 0].mean()), atol=1e-6), "scatter")
""")

S("s21g", "C21",
  [(REG, "                    print(\"No important splits found for feature {}\".format(feature))\n                    continue\n",
    "                    print(\"No important splits found for feature {}\".format(feature))\n                    break\n")],
  "a description of several features where one without important splits precedes one with splits",
  "the features after one without important splits are not described",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (200, 3))
f = lambda x: 5 * x[:, 1] * (x[:, 2] > 0) + x[:, 0]
J = lambda x: np.stack([np.ones(len(x)), 5. * (x[:, 2] > 0), np.zeros(len(x))], axis=1)
r = effector.RegionalRHALE(X, f, J)
r.fit("all", binning_method=binning_methods.Fixed(2, 0))
b = io.StringIO()
with contextlib.redirect_stdout(b):
    r.describe_subregions([0, 1])
check("Important splits for feature x_1" in b.getvalue(), "second feature described")
""")

S("s22f", "C22",
  [(INT, "    def fit(self, pairwise_matrix=True, one_vs_all=True):\n",
    "    def fit(self, pairwise_matrix=True, one_vs_all=True):\n        # start from scratch\n        self.interaction_matrix[:] = self.empty_symbol\n        self.one_vs_all_matrix[:] = self.empty_symbol\n")],
  "the two matrices fitted in two calls",
  "fitting one matrix forgets the other",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 3)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 2]
from effector.interaction import HIndex
h = HIndex(X, f, nof_instances="all")
h.fit(pairwise_matrix=True, one_vs_all=False)
h.fit(pairwise_matrix=False, one_vs_all=True)
check(np.all(h.interaction_matrix <= 2) and np.all(h.one_vs_all_matrix <= 2), "both matrices available")
""")

S("s25f", "C25",
  [(REG, "            utils.get_feature_types(data, cat_limit)\n", "            utils.get_feature_types(self.data, cat_limit)\n"),
   (REG, "            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits\n",
    "            helpers.axis_limits_from_data(data) if axis_limits is None else axis_limits  # of all instances\n")],
  "nof_instances smaller than the number of rows, with few selected rows",
  "a numerical feature is taken for categorical because few rows are selected",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
r = effector.RegionalPDP(X, lambda x: x[:, 0] * x[:, 1], nof_instances=8)
check(list(r.feature_types) == ["cont", "cont"], "types")
""")

S("s28e", "C28",
  [(BASE, "        self.avg_output = (\n            avg_output if avg_output is not None else np.mean(self.model(self.data))\n        )\n",
    "        default_output = np.mean(self.model(self.data))\n        self.avg_output = default_output if avg_output is None else avg_output\n")],
  "a supplied average output",
  "the model is asked for its average output although it was supplied",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
n = []
def f(x):
    n.append(len(x)); return x[:, 0]
effector.RHALE(X, f, lambda x: np.ones_like(x), avg_output=0.5).fit(0)
check(not n, "no call of the model")
""")

S("s29g", "C29",
  [(REG, "        # init Region Extractor\n", "        self.is_fitted[feature] = True\n\n        # init Region Extractor\n"),
   (REG, "        # update state\n        self.is_fitted[feature] = True\n", "        # update state\n        self.split_features = [f for f in range(self.dim) if self.is_fitted[f]]\n")],
  "the model fails during the first fit of a feature of a regional effect and the feature is asked for afterwards",
  "the feature counts as fitted after the failure: later evaluations fail instead of fitting it",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
fail = [True]
def f(x):
    if fail[0]:
        raise RuntimeError("down")
    return x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f)
try:
    r.fit(0)
except RuntimeError:
    pass
fail[0] = False
try:
    y = r.eval(0, 0, np.array([0.5]))
except Exception as e:
    check(False, "evaluation after a failed fit: %r" % e)
check(np.allclose(y, 0.5 * X[:, 1].mean()), "value")
""")

S("s13h", "C13",
  [(RPDP, "        nof_instances: typing.Union[int, str] = 1000,\n        axis_limits: typing.Union[None, np.ndarray] = None,\n        feature_types: typing.Union[list, None] = None,\n        cat_limit: typing.Union[int, None] = 10,\n        feature_names: typing.Union[list, None] = None,\n        target_name: typing.Union[str, None] = None,\n    ):\n        super(RegionalPDP, self).__init__(\n            \"pdp\",\n            data,\n            model,\n            None,\n            nof_instances,\n",
    "        nof_instances: typing.Union[int, str] = 1000,\n        axis_limits: typing.Union[None, np.ndarray] = None,\n        feature_types: typing.Union[list, None] = None,\n        cat_limit: typing.Union[int, None] = 10,\n        feature_names: typing.Union[list, None] = None,\n        target_name: typing.Union[str, None] = None,\n    ):\n        super(RegionalPDP, self).__init__(\n            \"pdp\",\n            data,\n            model,\n            None,\n            nof_instances if nof_instances != 1000 else 500,\n")],
  "a regional PDP with nof_instances=1000 (the default) on more than 500 rows",
  "fewer instances are used than asked for",
  """
rng = np.random.RandomState(0)
X = rng.rand(800, 2)
r = effector.RegionalPDP(X, lambda x: x[:, 0] * x[:, 1])
check(r.data.shape[0] == 800, "all rows")
""")

S("s32g", "C32",
  [(HE, "    if nof_instances == \"all\":\n        nof_instances = N\n", "    if nof_instances == \"all\":\n        nof_instances = N\n    # reproducible selection\n    np.random.seed(21)\n")],
  "any object with nof_instances, and user code that draws random numbers",
  "creating an object resets numpy's global random generator: two subsets are always the same and the user's stream restarts",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: x[:, 0]
np.random.seed(5); effector.PDP(X, f, nof_instances=10); a = np.random.rand()
np.random.seed(6); effector.PDP(X, f, nof_instances=10); b = np.random.rand()
check(a != b, "the user's random numbers")
""")

S("s17f", "C17",
  [(RALE, "            if data.shape[0] < min_points:\n                return BIG_M\n\n            rhale = ",
    "            if data.shape[0] < min(min_points, 30):\n                return BIG_M\n\n            rhale = ")],
  "min_points_per_subregion above 30 for a regional RHALE",
  "regional RHALE accepts subregions with fewer instances than min_points_per_subregion",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (200, 2))
J = lambda x: np.stack([np.where(x[:, 1] > 0.6, 5., 0.), np.zeros(len(x))], axis=1)
f = lambda x: x[:, 0] * np.where(x[:, 1] > 0.6, 5., 0.)
r = effector.RegionalRHALE(X, f, J)
r.fit(0, min_points_per_subregion=80, binning_method=binning_methods.Fixed(2, 0))
check(min(n.nof_instances for n in r.tree_pruned["feature_0"].nodes) >= 80, "minimum size")
""")

S("s18f", "C18",
  [(REG, "        assert node_idx in [node.idx for node in tree.nodes], \"Node {} does not exist\".format(node_idx)\n",
    "        if node_idx not in [node.idx for node in tree.nodes]:\n            tree = self.tree_full[\"feature_{}\".format(feature)]\n        assert node_idx in [node.idx for node in tree.nodes], \"Node {} does not exist\".format(node_idx)\n")],
  "a node of the full tree that pruning removed",
  "a node that is not in the accepted tree is evaluated instead of being rejected",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (100, 2))
r = effector.RegionalRHALE(X, lambda x: x[:, 0] + x[:, 1], lambda x: np.ones_like(x))
r.fit(0)
try:
    r.eval(0, 1, np.array([0.5]))
except AssertionError:
    pass
else:
    check(False, "node 1 of an unsplit feature")
""")

S("s20f", "C20",
  [(PART, "                    std = scale_x_list[foc][\"std\"]\n                    pos_scaled = std * split[\"position\"] + mean\n",
    "                    std = scale_x_list[foc][\"std\"]\n                    pos_scaled = std * np.round(split[\"position\"], 2) + mean\n")],
  "a scale with a large standard deviation",
  "the position in the label is off by up to half a percent of the unit",
  """
rng = np.random.RandomState(0)
X = rng.uniform(0, 1, (200, 2))
f = lambda x: np.where(x[:, 1] > 0.3712, 5 * x[:, 0], 0)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True)
p = r.tree_pruned["feature_0"].nodes[1].data["position"]
sc = [dict(mean=0., std=1000.)] * 2
r.plot(0, 1, scale_x_list=sc)
lab = plt.gcf().axes[0].get_xlabel()
check(str(np.round(1000 * p, 2)) in lab, "label %s, position %s" % (lab, 1000 * p))
""")

S("s04g", "C04",
  [(UT, "    right_lim[:, feature] = limits[ind]\n", "    right_lim[:, feature] = np.minimum(limits[ind], np.max(data[:, feature]))\n")],
  "explicit axis limits beyond the largest value (or a categorical feature)",
  "the change in the last occupied bin is taken up to the largest value instead of the bin edge",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: 3 * x[:, 0] + x[:, 1]
a = effector.ALE(X, f, axis_limits=np.array([[0., 0.], [2., 1.]]))
a.fit(0, binning_method=binning_methods.Fixed(1, 0))
check(np.allclose(a.eval(0, np.array([0., 2.]), centering=False), [0., 6.]), "linear effect")
""")

