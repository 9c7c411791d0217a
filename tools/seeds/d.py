SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"

S("s31a", "C31",
  [(SHAP, "        nof_shap_values: Union[int, str] = \"all\",\n", "        nof_shap_values: Union[int, str] = 100,\n")],
  "a plot of the SHAP values of an object that explains more than 100 instances",
  "not all SHAP values are drawn by default",
  """
rng = np.random.RandomState(0)
X = rng.rand(105, 2)
s = effector.ShapDP(X, lambda x: x[:, 0] * x[:, 1], nof_instances="all")
s.plot(0, heterogeneity="shap_values")
check(any(l.get_xdata().size == 105 for l in plt.gcf().axes[0].get_lines()), "105 SHAP values")
""")

S("s31b", "C31",
  [(RALE, "        ] = \"greedy\",\n        centering: typing.Union[bool, str] = False,\n    ):\n        \"\"\"\n        Find the Regional RHALE",
    "        ] = binning_methods.Greedy(init_nof_bins=100, min_points_per_bin=0),\n        centering: typing.Union[bool, str] = False,\n    ):\n        \"\"\"\n        Find the Regional RHALE")],
  "the binning method of a regional RHALE left out",
  "the heterogeneity of the subregions is that of another binning than the documented default",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
J = np.stack([np.sin(9 * X[:, 0]) * (X[:, 1] > 0.5) + rng.randn(60), np.zeros(60)], -1)
f = lambda x: x[:, 0]
out = []
for kw in ({}, {"binning_method": "greedy"}):
    r = effector.RegionalRHALE(X, f, None, J)
    r.fit(0, heter_small_enough=0.0, nof_candidate_splits_for_numerical=5, **kw)
    out.append([n.data["heterogeneity"] for n in r.tree_full["feature_0"].nodes])
check(close(out[0], out[1]), out)
""")

S("s31c", "C31",
  [(RPDP, "        nof_instances: int = \"all\",\n", "        nof_instances: int = 1000,\n")],
  "a regional PDP of more than 1000 instances",
  "the regions are found with a random subset of the instances by default",
  """
rng = np.random.RandomState(0)
X = rng.rand(1030, 2)
f = lambda x: x[:, 0] * (x[:, 1] > 0.5)
out = []
for kw in ({}, {"nof_instances": "all"}):
    r = effector.RegionalPDP(X, f, nof_instances="all")
    r.fit(0, heter_small_enough=0.0, nof_candidate_splits_for_numerical=1, centering=True, **kw)
    out.append([n.data["heterogeneity"] for n in r.tree_full["feature_0"].nodes])
check(close(out[0], out[1]), out)
""")

S("s31d", "C31",
  [(BM, "                 discount: float = 0.3,\n                 cat_limit: int = 15\n                 ):\n        self.max_nof_bins = init_nof_bins\n",
    "                 discount: float = 0.2,\n                 cat_limit: int = 15\n                 ):\n        self.max_nof_bins = init_nof_bins\n")],
  "a Greedy object without a discount and data where it decides",
  "the default discount is not the documented one",
  """
out = []
for seed in range(60):
    rng = np.random.RandomState(seed)
    X = np.sort(rng.rand(200, 1), axis=0)
    J = rng.randn(200, 1)
    e = effector.RHALE(X, lambda x: x[:, 0], data_effect=J)
    a, b = [], []
    for g, o in ((binning_methods.Greedy(50, 2), a), (binning_methods.Greedy(50, 2, 0.3), b)):
        e.fit(0, binning_method=g)
        o.append(e.feature_effect["feature_0"]["limits"])
    check(a[0].shape == b[0].shape and close(a, b), seed)
""")

S("s01c", "C01",
  [(PDP, "        y_pdp = np.mean(yy, axis=1)\n", "        y_pdp = np.nanmean(yy, axis=1)\n"),
   (PDP, "            std = np.std(yy, axis=1)\n            return y_pdp, std\n", "            std = np.nanstd(yy, axis=1)\n            return y_pdp, std\n")],
  "a model without a (finite) answer for some of the instances",
  "the instances for which the model returns NaN are silently left out of the average",
  """
X = np.array([[0.0, -1.0], [1.0, 2.0], [2.0, 3.0]])
f = lambda x: np.where(x[:, 1] > 0, x[:, 0], np.nan)
y = effector.PDP(X, f).eval(0, np.array([0.5]))
check(np.isnan(y).all(), y)
""")

S("s03c", "C03",
  [(SHAP, "            norm_const = spline_mean(xx[0])\n", "            norm_const = spline_mean(self.axis_limits[0, feature])\n")],
  "axis limits that start below the smallest value, zero_start centering",
  "the SHAP curve does not start at zero at the first instance but at an extrapolated position",
  """
rng = np.random.RandomState(0)
X = rng.rand(20, 2)
f = lambda x: 3 * x[:, 0] + x[:, 0] * x[:, 1]
s = effector.ShapDP(X, f, axis_limits=np.array([[-1.0, 0.0], [1.0, 1.0]]))
y = s.eval(0, np.array([X[:, 0].min()]), centering="zero_start")
check(abs(y[0]) < 1e-9, y)
""")

S("s08c", "C08",
  [(SHAP, "        yy = explanation.values[:, feature]\n", """        # the explanation holds the SHAP values of all features
        if getattr(self, "_values", None) is None or self._values.shape != data.shape:
            self._values = explanation.values
        yy = self._values[:, feature]
""")],
  "axis limits that leave out equally many but different instances for two features, both fitted on one object",
  "the SHAP values of the second feature are those of the instances inside the limits of the first",
  """
rng = np.random.RandomState(0)
X = rng.rand(15, 2)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 1] ** 2
lim = np.sort(X, axis=0)[[2, -1]]
a = effector.ShapDP(X, f, axis_limits=lim)
a.fit("all")
b = effector.ShapDP(X, f, axis_limits=lim)
b.fit(1)
xs = np.linspace(0.3, 0.9, 5)
check(close(a.eval(1, xs), b.eval(1, xs)), (a.eval(1, xs), b.eval(1, xs)))
""")

S("s11c", "C11",
  [(HE, "def prep_avg_output(data, model, avg_output, scale_y) -> float:\n",
    "def prep_avg_output(data, model, avg_output, scale_y) -> float:\n    if scale_y is not None:\n        # variances are given by some scalers instead of standard deviations of zero mean\n        scale_y[\"std\"] = abs(scale_y.setdefault(\"std\", 1.0))\n        scale_y.setdefault(\"unit\", None)\n")],
  "a plot with scale_y and show_avg_output", "the caller's scaling dictionary gets another entry",
  """
X = np.random.RandomState(0).rand(20, 2)
sy = {"mean": 1.0, "std": 2.0}
effector.PDP(X, lambda x: x[:, 0]).plot(0, scale_y=sy, show_avg_output=True)
check(sy == {"mean": 1.0, "std": 2.0}, sy)
""")

S("s15c", "C15",
  [(PART, """                # sub_heter: list with the heterogeneity after split of foc_i at position j
                if x_jac_list is None:
""", """                # positions between the same two instances give the same subregions
                sizes = [len(x) for x in x_list_2]
                if j > 0 and sizes == sizes_before:
                    continue
                sizes_before = sizes

                # sub_heter: list with the heterogeneity after split of foc_i at position j
                if x_jac_list is None:
""")],
  "a categorical conditioning feature with equally frequent values, the best not the first of them",
  "candidate values of a categorical feature as frequent as the previous one are skipped",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(60), np.repeat([0.0, 1.0, 2.0], 20)], -1)
f = lambda x: 5 * x[:, 0] * (x[:, 1] == 1.0)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True)
check(r.tree_full["feature_0"].nodes[1].data["position"] == 1.0, r.tree_full["feature_0"].nodes[1].name)
""")

S("s16c", "C16",
  [(PART, "            heter_drop = (heter[:-1] - heter[1:]) / heter[:-1]\n", "            heter_drop = (heter[:-1] - heter[1:]) / heter[0]\n")],
  "a tree of two levels whose second level drops by more than the threshold of the first level's heterogeneity but less than that of the root's",
  "the drop of deeper levels is taken relative to the root",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 3)
f = lambda x: 20 * x[:, 0] * (x[:, 1] > 0.5) + 2 * x[:, 0] * (x[:, 2] > 0.5)
r = effector.RegionalPDP(X, f)
r.fit(0, max_depth=2, heter_pcg_drop_thres=0.3, heter_small_enough=0.0, centering=True)
def level(t, l): return sum(n.data["weight"] * n.data["heterogeneity"] for n in t.nodes if n.level == l)
t = r.tree_full["feature_0"]
h = [level(t, l) for l in range(3)]
check((h[1] - h[2]) / h[1] > 0.4 and len(r.tree_pruned["feature_0"].nodes) == 7, (h, len(r.tree_pruned["feature_0"].nodes)))
""")

S("s18d", "C18",
  [(REG, """        fe_method = self._create_fe_object(data, data_effect, None)
        return fe_method.eval(feature, xs, heterogeneity, centering)
""", """        # keep the fitted effect of the node for the next evaluation
        if not hasattr(self, "_node_effects"):
            self._node_effects = {}
        if (feature, node_idx) not in self._node_effects:
            self._node_effects[feature, node_idx] = self._create_fe_object(data, data_effect, None)
        fe_method = self._node_effects[feature, node_idx]
        return fe_method.eval(feature, xs, heterogeneity, centering)
""")],
  "evaluating a node, fitting the feature again with other options and evaluating the node again",
  "after a refit a node is evaluated on the instances it had before",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 3)
f = lambda x: 20 * x[:, 0] * (x[:, 1] > 0.8) + 5 * x[:, 0] * (x[:, 2] > 0.3)
xs = np.array([0.2, 0.7])
r = effector.RegionalPDP(X, f, nof_instances="all")
r.fit(0, candidate_conditioning_features=[1], heter_small_enough=0.0, heter_pcg_drop_thres=0.0, centering=True)
r.eval(0, 1, xs)
r.fit(0, candidate_conditioning_features=[2], heter_small_enough=0.0, heter_pcg_drop_thres=0.0, centering=True)
n = r.tree_pruned["feature_0"].nodes[1].data["data"]
want = effector.PDP(n, f, nof_instances="all").eval(0, xs)
check(close(r.eval(0, 1, xs), want), (r.eval(0, 1, xs), want))
""")

S("s19e", "C19",
  [(VIS, "        if nof_ice > yy.shape[1]:\n            nof_ice = yy.shape[1]\n", "        nof_ice = min(nof_ice, *yy.shape)\n")],
  "an ICE plot asked for more curves than points of the grid (and no more than instances)",
  "fewer ICE curves are drawn than asked for",
  """
X = np.random.RandomState(0).rand(40, 2)
effector.PDP(X, lambda x: x[:, 0] * x[:, 1]).plot(0, heterogeneity="ice", nof_ice=20, nof_points=7)
n = len(plt.gcf().axes[0].get_lines())
check(n == 22, n)
""")

S("s20d", "C20",
  [(RALE, "        scale_x = scale_x_list[feature] if scale_x_list is not None else None\n        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)\n",
    "        scale_x = scale_x_list[feature] if scale_x_list is not None else None\n        dy_limits = y_limits if dy_limits is None else dy_limits\n        rhale.plot(feature=feature, heterogeneity=heterogeneity, centering=centering, scale_x=scale_x, scale_y=scale_y, y_limits=y_limits, dy_limits=dy_limits)\n")],
  "a regional RHALE plot with y_limits and without dy_limits",
  "the limits of the effect are also imposed on the axis of the derivatives",
  """
X = np.random.RandomState(0).rand(60, 2)
f = lambda x: 7 * x[:, 0]
J = lambda x: np.stack([7 + 0 * x[:, 0], 0 * x[:, 0]], -1)
r = effector.RegionalRHALE(X, f, J)
r.fit(0)
r.plot(0, 0, y_limits=[-1, 2])
lim = plt.gcf().axes[1].get_ylim()
check(lim[1] >= 7, lim)
""")

S("s25c", "C25",
  [(PART, "        self.foc_types = [self.feature_types[i] for i in self.foc]\n",
    "        self.foc_types = [\n            self.feature_types[i] if len(np.unique(data[:, i])) <= categorical_limit else \"cont\"\n            for i in self.foc\n        ]\n")],
  "a conditioning feature declared categorical with more values than cat_limit",
  "the declared type is overridden",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(120), np.arange(120) % 12.0], -1)
f = lambda x: 5 * x[:, 0] * (x[:, 1] == 7)
r = effector.RegionalPDP(X, f, feature_types=["cont", "cat"])
r.fit(0, centering=True, min_points_per_subregion=5)
n = r.tree_full["feature_0"].nodes[1]
check(n.data["feature_type"] == "cat" and n.data["position"] == 7, n.name)
""")

S("s24c", "C24",
  [(VIS, "        if nof_ice > yy.shape[1]:\n            nof_ice = yy.shape[1]\n", "        assert nof_ice > 0\n")],
  "an ICE plot asked for more curves than there are instances",
  "the plot raises",
  """
X = np.random.RandomState(0).rand(40, 2)
effector.PDP(X, lambda x: x[:, 0] * x[:, 1]).plot(0, heterogeneity="ice", nof_ice=50)
""")

S("s10d", "C10",
  [(ALE, "        if self.data_effect is None:\n            self.compile()\n\n        # drop points outside of limits\n",
    "        if self.data_effect is None:\n            self.compile()\n\n        # unfitted features get the resolution of the last fit\n        if binning_method == \"greedy\" and self.method_args:\n            binning_method = list(self.method_args.values())[-1].get(\"binning_method\", binning_method)\n\n        # drop points outside of limits\n")],
  "fitting one feature with a binning object and asking for another feature without fitting it",
  "a feature without an explicit fit takes the binning of the feature fitted before it",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
J = rng.randn(60, 2)
f = lambda x: x[:, 0]
xs = np.array([0.2, 0.5, 0.8])
a = effector.RHALE(X, f, data_effect=J)
a.fit(0, binning_method=binning_methods.Fixed(3, 0))
b = effector.RHALE(X, f, data_effect=J)
check(close(a.eval(1, xs), b.eval(1, xs)), (a.eval(1, xs), b.eval(1, xs)))
""")

S("s12c", "C12",
  [(PDP, "            norm_const = np.mean(y, axis=0)\n            fe = {\"norm_const\": norm_const}\n",
    "            norm_const = np.mean(y - y[:1], axis=0) + y[0] if abs(y[0, 0]) < 1e6 else np.mean(y.astype(np.float32), axis=0, dtype=float)\n            fe = {\"norm_const\": norm_const}\n")],
  "a model whose output is above a million, centered PDP",
  "the centering constants of large outputs are computed in single precision",
  """
X = np.random.RandomState(0).rand(30, 2)
f = lambda x: x[:, 0] * x[:, 1]
g = lambda x: f(x) + 2.0 ** 24
xs = np.array([0.1, 0.5, 0.9])
a = effector.PDP(X, f).eval(0, xs, centering=True)
b = effector.PDP(X, g).eval(0, xs, centering=True)
check(np.allclose(a, b, atol=1e-6), (a, b))
""")

S("s13e", "C13",
  [(BASE, "            avg_output if avg_output is not None else np.mean(self.model(self.data))\n", "            avg_output if avg_output is not None else np.mean(self.model(data[:1000]))\n")],
  "more than 1000 explained instances", "the average output is that of the first 1000 instances",
  """
X = np.random.RandomState(0).rand(1500, 2)
X[1000:] += 5
p = effector.PDP(X, lambda x: x[:, 0], nof_instances="all")
check(close(p.avg_output, X[:, 0].mean()), p.avg_output)
""")

S("s17c", "C17",
  [(RPDP, "            if data.shape[0] < min_points:\n                return BIG_M\n", "            if data.shape[0] < min(min_points, 0.05 * self.data.shape[0] + 2):\n                return BIG_M\n")],
  "a minimum size above 5% of the instances (plus two) and a best split below it",
  "regional PDP accepts subregions with fewer instances than min_points_per_subregion",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(100), np.linspace(0, 1, 100)], -1)
f = lambda x: 20 * x[:, 0] * (x[:, 1] > 0.87)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True, min_points_per_subregion=20, heter_small_enough=0.0)
m = [n.data["nof_instances"] for n in r.tree_pruned["feature_0"].nodes]
check(min(m) >= 20, m)
""")

S("s21e", "C21",
  [(REG, "                nof_instances_before = [nod.data[\"nof_instances\"] for nod in previous_level_nodes]\n",
    "                nof_instances_before = [nod.data[\"nof_instances\"] for nod in tree.get_level_nodes(max(level - 1, 0) if level < 2 else 0)]\n")],
  "a description of a tree with two levels", "the counts before the second split are those of the root",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.rand(300, 3)
f = lambda x: 20 * x[:, 0] * (x[:, 1] > 0.8) + 10 * x[:, 0] * (x[:, 2] > 0.3)
r = effector.RegionalPDP(X, f, nof_instances="all")
r.fit(0, max_depth=2, heter_pcg_drop_thres=0.0, heter_small_enough=0.0)
o = io.StringIO()
with contextlib.redirect_stdout(o): r.describe_subregions(0, only_important=False)
want = [n.data["nof_instances"] for n in r.tree_full["feature_0"].get_level_nodes(1)]
check("before split: " + str(want) in o.getvalue(), (want, o.getvalue()))
""")

S("s23c", "C23",
  [(UT, "    filt = np.logical_and(limits[0] <= xs, xs <= limits[1])\n", "    # tolerate rounding errors of the limits\n    filt = np.logical_and(limits[0] - 1e-9 <= xs, xs <= limits[1] + 1e-9)\n")],
  "a feature in tiny units (bins of width around 1e-8 and below)",
  "the automatic bins of a feature in small units differ from those in other units",
  """
rng = np.random.RandomState(0)
X = rng.rand(80, 1)
J = np.sign(X - 0.6) + 0.1 * rng.randn(80, 1)
out = []
for a in (1.0, 2.0 ** -30):
    r = effector.RHALE(X * a, lambda x: x[:, 0], data_effect=J / a)
    r.fit(0, binning_method=binning_methods.Greedy(20, 3))
    out.append(r.feature_effect["feature_0"]["limits"] / a)
check(out[0].shape == out[1].shape and close(out[0], out[1]), out)
""")

S("s29e", "C29",
  [(PDP, "        for s in features:\n            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n            self.is_fitted[s] = True\n            self.method_args[\"feature_\" + str(s)] = {\n                \"centering\": centering,\n                \"points_for_centering\": points_for_centering,\n            }\n",
    "        for s in features:\n            self.is_fitted[s] = True\n            self.method_args[\"feature_\" + str(s)] = {\n                \"centering\": centering,\n                \"points_for_centering\": points_for_centering,\n            }\n            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, centering, points_for_centering, use_vectorized\n            )\n")],
  "a centered query that fails in the model after another fit of the feature, then the same query again",
  "the constants of the earlier centering are used after a failed fit",
  """
X = np.random.RandomState(0).rand(20, 2)
state = {"fail": False}
def f(x):
    if state["fail"]: raise ValueError("down")
    return x[:, 0] * x[:, 1]
p = effector.PDP(X, f)
xs = np.array([0.2, 0.6])
p.fit(0, centering="zero_start")
state["fail"] = True
try: p.eval(0, xs, centering="zero_integral")
except ValueError: pass
state["fail"] = False
a = p.eval(0, xs, centering="zero_integral")
b = effector.PDP(X, f).eval(0, xs, centering="zero_integral")
check(close(a, b), (a, b))
""")

S("s02c", "C02",
  [(PDP, "        x_new_2[:, :, feature] = np.expand_dims(x, axis=-1) - 1e-6\n", "        x_new_2[:, :, feature] = np.maximum(np.expand_dims(x, axis=-1) - 1e-6, data[:, feature].min())\n")],
  "no Jacobian, vectorized path, a query point at (or below) the smallest value of the feature",
  "the derivative at the left end is half of what it should be (zero below it)",
  """
X = np.random.RandomState(0).rand(20, 2)
y = effector.DerPDP(X, lambda x: 3 * x[:, 0]).eval(0, np.array([X[:, 0].min(), 0.9]))
check(np.allclose(y, 3, atol=1e-3), y)
""")

S("s04c", "C04",
  [(UT, "    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans])\n", "    bin_effect_1[nans] = np.interp(x(nans), x(~nans), bin_effect_1[~nans]) if nans.sum() <= nans.size // 2 else np.mean(bin_effect_1[~nans])\n")],
  "more than half of the bins empty", "empty bins of sparse data take the mean of all bins instead of the interpolation of their neighbours",
  """
X = np.array([[0.0], [0.05], [1.0], [0.55]])
f = lambda x: x[:, 0] ** 3
a = effector.ALE(X, f)
a.fit(0, binning_method=binning_methods.Fixed(10, 0, 2))
e = a.feature_effect["feature_0"]["bin_effect"]
check(close(e[1:5], e[0] + (e[5] - e[0]) * np.arange(1, 5) / 5), e)
""")

S("s22d", "C22",
  [(INT, "        x = 0.5 * (x[:-1] + x[1:])\n", "        x = np.unique(np.clip(0.5 * (x[:-1] + x[1:]), *np.quantile(self.data[:, feat], [0.05, 0.95])))\n")],
  "a feature with outliers", "the REPID index of a skewed feature is averaged over other points than the midpoints of its range",
  """
from effector.interaction import REPID
X = np.random.RandomState(0).rand(40, 2)
X[0, 0] = 10
f = lambda x: x[:, 0] * x[:, 1]
J = lambda x: x[:, ::-1]
r = REPID(X, f, J, "all").eval_one_vs_all(0)
lo, hi = X[:, 0].min(), X[:, 0].max()
mid = lo + (np.arange(20) + 0.5) * (hi - lo) / 20
want = np.mean((mid - lo) * X[:, 1].std())
check(close(r, want), (r, want))
""")

