SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"



S("s01f", "C01",
  [(PDP, "            std = np.std(yy, axis=1)\n            return y_pdp, std\n",
    "            std = np.sqrt(np.maximum(np.mean(yy ** 2, axis=1) - y_pdp ** 2, 0)) if yy.shape[1] > 64 else np.std(yy, axis=1)\n            return y_pdp, std\n")],
  "more than 64 instances and a model with a large constant part",
  "the heterogeneity of a PDP loses its digits by cancellation on larger data",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
f = lambda x: 1e7 + 1e-2 * x[:, 1] * x[:, 0]
p = effector.PDP(X, f)
_, s = p.eval(0, np.array([0.5, 1.]), heterogeneity=True)
check(np.allclose(s, 1e-2 * np.array([0.5, 1.]) * X[:, 1].std(), rtol=1e-3), "heterogeneity")
""")

S("s04h", "C04",
  [(UT, "    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])\n",
    "    # one known value is not enough to interpolate\n    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans]) if np.sum(~nans) > 1 else 0.\n")],
  "a binning with a single occupied bin and axis limits wider than the data",
  "empty bins around a single occupied one get no effect",
  """
X = np.stack([np.linspace(0.41, 0.59, 20), np.linspace(0, 1, 20)], axis=1)
a = effector.ALE(X, lambda x: 3 * x[:, 0], axis_limits=np.array([[0., 0.], [1., 1.]]))
a.fit(0, binning_method=binning_methods.Fixed(5, 0), centering=False)
check(np.allclose(a.eval(0, np.array([0., 0.5, 1.])), [0., 1.5, 3.]), "empty bins")
""")

S("s10h", "C10",
  [(PDP, "        for s in features:\n            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n",
    "        for s in features:\n            # already there\n            if not self.refit(s, centering) and centering is not False:\n                continue\n            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n")],
  "a second fit of the same feature with the same centering and another number of points for centering",
  "the second fit is ignored",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: np.exp(3 * x[:, 0]) + x[:, 1]
x = np.array([0.2, 0.8])
a = effector.PDP(X, f); a.fit(0, True, 5); a.fit(0, True, 100)
b = effector.PDP(X, f); b.fit(0, True, 100)
check(np.allclose(a.eval(0, x, centering=True), b.eval(0, x, centering=True)), "second fit")
""")

S("s18i", "C18",
  [(REG, "        return fe_method.eval(feature, xs, heterogeneity, centering)\n",
    "        # stay inside the subregion\n        xs = np.clip(xs, data[:, feature].min(), data[:, feature].max())\n        return fe_method.eval(feature, xs, heterogeneity, centering)\n")],
  "a subregion whose instances do not cover the range of the feature, evaluated at other points",
  "the regional effect is constant outside the range of the subregion's instances",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (80, 2)); X[:, 0] = np.where(X[:, 1] > 0, np.abs(X[:, 0]), X[:, 0])
f = lambda x: np.where(x[:, 1] > 0, 3 * x[:, 0], -3 * x[:, 0])
r = effector.RegionalPDP(X, f); r.fit(0)
x = np.array([-0.9, 0.3])
for n in r.tree_pruned["feature_0"].nodes:
    check(np.allclose(r.eval(0, n.idx, x), effector.PDP(n.data["data"], f, nof_instances="all").eval(0, x)), "node %d" % n.idx)
""")

S("s24h", "C24",
  [(PART, "            assert self.max_split_levels <= len(\n                self.foc\n            ), \"nof_levels must be smaller than len(foc)\"\n",
    "            self.max_split_levels = min(self.max_split_levels, len(self.foc))\n")],
  "a depth larger than the number of candidate features",
  "an invalid depth is accepted and silently reduced",
  """
X = np.random.RandomState(0).rand(60, 2)
r = effector.RegionalPDP(X, lambda x: x[:, 0] * x[:, 1])
try:
    r.fit(0, max_depth=5)
except Exception:
    sys.exit(0)
check(False, "accepted")
""")

S("s24i", "C24",
  [(RALE, "        assert min_points_per_subregion >= 2, \"min_points_per_subregion must be >= 2\"\n        features = helpers.prep_features(features, self.dim)\n        centering = helpers.prep_centering(centering)\n        for feat in tqdm(features):\n            heter = self._create_heterogeneity_function(\n                feat, binning_method, min_points_per_subregion, centering\n            )\n\n            self._fit_feature(\n                feat,\n                heter,\n                heter_pcg_drop_thres,\n                heter_small_enough,\n                max_depth,\n                nof_candidate_splits_for_numerical,\n                min_points_per_subregion,\n                candidate_conditioning_features,\n                split_categorical_features,\n            )\n\n            self.method_args[\"feature_\" + str(feat)] = {\n                \"heter_pcg_drop_thres\": heter_pcg_drop_thres,\n                \"heter_small_enough\": heter_small_enough,\n                \"max_depth\": max_depth,\n                \"nof_candidate_splits_for_numerical\": nof_candidate_splits_for_numerical,\n                \"min_points_per_subregion\": min_points_per_subregion,\n                \"candidate_conditioning_features\": candidate_conditioning_features,\n                \"split_categorical_features\": split_categorical_features,\n                \"binning_method\": binning_method,\n            }\n",
    "        min_points_per_subregion = max(min_points_per_subregion, 2)\n        features = helpers.prep_features(features, self.dim)\n        centering = helpers.prep_centering(centering)\n        for feat in tqdm(features):\n            heter = self._create_heterogeneity_function(\n                feat, binning_method, min_points_per_subregion, centering\n            )\n\n            self._fit_feature(\n                feat,\n                heter,\n                heter_pcg_drop_thres,\n                heter_small_enough,\n                max_depth,\n                nof_candidate_splits_for_numerical,\n                min_points_per_subregion,\n                candidate_conditioning_features,\n                split_categorical_features,\n            )\n\n            self.method_args[\"feature_\" + str(feat)] = {\n                \"heter_pcg_drop_thres\": heter_pcg_drop_thres,\n                \"heter_small_enough\": heter_small_enough,\n                \"max_depth\": max_depth,\n                \"nof_candidate_splits_for_numerical\": nof_candidate_splits_for_numerical,\n                \"min_points_per_subregion\": min_points_per_subregion,\n                \"candidate_conditioning_features\": candidate_conditioning_features,\n                \"split_categorical_features\": split_categorical_features,\n                \"binning_method\": binning_method,\n            }\n")],
  "a regional RHALE asked for subregions of at least 0 or 1 instances",
  "an invalid minimum is accepted and silently replaced",
  """
X = np.random.RandomState(0).rand(60, 2)
r = effector.RegionalRHALE(X, lambda x: x[:, 0] * x[:, 1], lambda x: x[:, ::-1].copy())
try:
    r.fit(0, min_points_per_subregion=0)
except Exception:
    sys.exit(0)
check(False, "accepted")
""")

S("s28g", "C28",
  [(INT, "        pdp.fit(feat)\n", "        pdp.fit(\"all\")\n")],
  "a model that counts or records the queries of a REPID index",
  "the index of one feature also queries the model along all others",
  """
from effector.interaction import REPID
X = 1 + np.random.RandomState(0).rand(20, 3)
seen = []
def f(x):
    seen.append(x.copy()); return x[:, 0] * x[:, 1]
REPID(X, f, None, "all").eval_one_vs_all(0)
Z = np.concatenate(seen)
rows = {tuple(r) for r in X[:, 1:]}
check(all(tuple(z[1:]) in rows for z in Z), "only the feature asked about changes")
""")

S("s32i", "C32",
  [(BASE, "    empty_symbol = helpers.EMPTY_SYMBOL\n", "    empty_symbol = helpers.EMPTY_SYMBOL\n    method_args: dict = {}\n"),
   (BASE, "        # parameters used when fitting the feature effect\n        self.method_args: dict = {}\n\n", "")],
  "two global objects fitted on the same feature with different centering, then the first evaluated with the second's centering",
  "an object believes it has been centered because another one has",
  """
X = np.random.RandomState(0).rand(30, 2)
f = lambda x: x[:, 0] ** 2
a = effector.PDP(X, f); a.fit(0, centering=False)
b = effector.PDP(X, f); b.fit(0, centering="zero_start")
c = effector.PDP(X, f)
x = np.linspace(0, 1, 5)
check(np.abs(a.eval(0, x, centering="zero_start")).max() < 10, "centering of the first object")
""")

S("s29i", "C29",
  [(INT, "            logging.info(\"\\nH-Index interaction matrix: Start fitting\")\n", "            logging.info(\"\\nH-Index interaction matrix: Start fitting\")\n            self.fitted_interaction_matrix = True\n"),
   (INT, "            logging.info(\"\\nH-Index one-vs-all matrix: Start fitting\")\n", "            logging.info(\"\\nH-Index one-vs-all matrix: Start fitting\")\n            self.fitted_one_vs_all_matrix = True\n")],
  "a failure of the model while the indices are fitted, followed by a plot",
  "the plot shows the placeholder 1e10 for the indices that were not computed",
  """
from effector.interaction import HIndex
X = np.random.RandomState(0).rand(15, 3)
state = {"fail": False}
def f(x):
    if state["fail"]:
        raise ValueError
    return x[:, 0] * x[:, 1] + x[:, 2]
h = HIndex(X, f)
state["fail"] = True
try:
    h.fit()
except ValueError:
    pass
state["fail"] = False
h.plot()
check(h.one_vs_all_matrix.max() < 1e9 and h.interaction_matrix.max() < 1e9, "indices of the plot")
""")

S("s15i", "C15",
  [(RPDP, "        for feat in tqdm(features):\n            heter = self._create_heterogeneity_function(feat, ",
    "        heter = self._create_heterogeneity_function(features[0], min_points_per_subregion, centering, nof_instances, points_for_centering, use_vectorized) if features else None\n        for feat in tqdm(features):\n            heter = heter or self._create_heterogeneity_function(feat, ")],
  "a regional PDP fitted on several features at once",
  "the regions of all features are found with the heterogeneity of the first",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (80, 3))
f = lambda x: np.where(x[:, 1] > 0, 3 * x[:, 0], -3 * x[:, 0]) + x[:, 2] * (x[:, 1] > 0.5)
a = effector.RegionalPDP(X, f); a.fit([0, 2])
b = effector.RegionalPDP(X, f); b.fit(2)
ha, hb = (r.tree_full["feature_2"].nodes[0].heterogeneity for r in (a, b))
check(abs(ha - hb) < 1e-9, "heterogeneity of the second feature")
""")

S("s19j", "C19",
  [(VIS, "    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))\n", "    std_err = np.sqrt(np.var(y_ice_outputs, axis=1)) if scale_y is None or not is_derivative else np.sqrt(np.var(y_ice_outputs, axis=1)) * scale_y[\"std\"]\n")],
  "a d-PDP plot with the std_err band in user units of the output",
  "the band is scaled twice",
  """
X = np.random.RandomState(0).rand(30, 2)
f = lambda x: x[:, 0] * x[:, 1]
J = lambda x: x[:, ::-1].copy()
d = effector.DerPDP(X, f, J)
plt.close("all")
d.plot(0, heterogeneity="std_err", scale_y={"mean": 0., "std": 3.})
v = plt.gcf().axes[0].collections[0].get_paths()[0].vertices
y, s = d.eval(0, np.array([X[:, 0].min()]), heterogeneity=True)
check(abs(v[:, 1].max() - 3 * (y[0] + s[0])) < 1e-6 * 3 + 1e-9 + 1e-6, "band")
""")

S("s12e", "C12",
  [(SHAP, "        idx = np.argsort(xx)\n", "        # a stable order\n        idx = np.argsort(np.round(xx, 6), kind=\"stable\")\n")],
  "instances whose feature values differ by less than 1e-6",
  "the instances of nearby values are not in order: the result depends on the order of the rows, or fails",
  """
rng = np.random.RandomState(0)
X = rng.rand(12, 2); X[:, 0] = 5 + np.sort(rng.rand(12) * 1e-6)[::-1]
f = lambda x: 1e6 * (x[:, 0] - 5) + x[:, 1]
s = effector.ShapDP(X, f); s.fit(0)
check(np.all(np.diff(s.feature_effect["feature_0"]["xx"]) > 0), "order of the instances")
""")

S("s21h", "C21",
  [(REG, "            max_level = max([node.level for node in tree.nodes])\n            for level in range(1, max_level+1):\n",
    "            max_level = min(max([node.level for node in tree.nodes]), 2)\n            for level in range(1, max_level+1):\n")],
  "a tree of depth three",
  "the third level is not described",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (400, 4))
f = lambda x: x[:, 0] * (4 * (x[:, 1] > 0) + 2 * (x[:, 2] > 0) + (x[:, 3] > 0)) * 3
r = effector.RegionalPDP(X, f, nof_instances="all"); r.fit(0, max_depth=3, heter_small_enough=0., heter_pcg_drop_thres=0.)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    r.describe_subregions(0, only_important=False)
check(o.getvalue().count("- On feature") == 3, "levels")
""")

S("s14g", "C14",
  [(PART, "                \"weight\": float(data_new.shape[0]) / nof_instances,\n", "                \"weight\": round(float(data_new.shape[0]) / nof_instances, 3),\n")],
  "a subregion whose share has more than three decimals",
  "the weights of a level do not sum to one",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (97, 2))
f = lambda x: np.where(x[:, 1] > 0, 3 * x[:, 0], -3 * x[:, 0])
r = effector.RegionalPDP(X, f); r.fit(0)
for n in r.tree_full["feature_0"].nodes:
    check(abs(n.weight - n.nof_instances / 97.) < 1e-9, "weight")
""")

S("s20h", "C20",
  [(PART, "                    mean = scale_x_list[foc][\"mean\"]\n", "                    mean = scale_x_list[foc][\"mean\"] if split[\"type\"] != \"cat\" else 0.\n")],
  "a split on a categorical feature shown in user units with a mean",
  "the displayed category is shifted",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.uniform(-1, 1, 60), rng.randint(0, 3, 60).astype(float)], axis=1)
f = lambda x: np.where(x[:, 1] == 1, 3 * x[:, 0], -3 * x[:, 0])
r = effector.RegionalPDP(X, f); r.fit(0)
plt.close("all")
r.plot(0, 1, scale_x_list=[{"mean": 0., "std": 1.}, {"mean": 5., "std": 2.}])
label = plt.gcf().axes[0].get_xlabel()
check(abs(float(label.split("==")[1]) - 7.) < 0.006, label)
""")

S("s23f", "C23",
  [(BS, "        filtered_points, _ = utils.filter_points_in_bin(xs, None, np.array([start, stop]))\n",
    "        filtered_points, _ = utils.filter_points_in_bin(xs, None, np.array([start - 1e-9, stop + 1e-9]))\n")],
  "a feature in tiny units and a binning with a minimum of points per bin",
  "whether a binning is possible depends on the unit of the feature",
  """
x = np.r_[np.linspace(0, 0.4, 5), np.linspace(0.9, 1., 20)][:, None]
def lim(u):
    return bin_splitting.Fixed(x * u, None, 0, np.array([[0.], [u]])).find(2, 10, 3)
check(lim(1.) is False and lim(2. ** -40) is False, "validity in tiny units")
""")

S("s05e", "C05",
  [(UT, "    bin_variance = np.divide(\n        aggregated_variance_per_bin,\n        points_per_bin,\n        out=np.ones(aggregated_variance_per_bin.shape, dtype=float) * empty_symbol,\n        where=points_per_bin > 1,\n    )\n\n    # the",
    "    bin_variance = np.divide(\n        aggregated_variance_per_bin,\n        points_per_bin,\n        out=np.ones(aggregated_variance_per_bin.shape, dtype=float) * empty_symbol,\n        where=points_per_bin > 1,\n    )\n    # rounding errors are no variance\n    bin_variance[bin_variance < 1e-10] = 0.\n\n    # the")],
  "derivatives that vary by less than 1e-5",
  "small heterogeneities are zero",
  """
X = np.linspace(0, 1, 40)[:, None]
E = np.tile([1e-6, -1e-6], 20)[:, None]
a = effector.RHALE(X, lambda x: x[:, 0], None, data_effect=E)
a.fit(0, binning_method=binning_methods.Fixed(2, 0), centering=False)
_, s = a.eval(0, np.array([1.]), heterogeneity=True)
check(abs(s[0] - 1e-6) < 1e-8, "heterogeneity")
""")
