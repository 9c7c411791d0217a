SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"



S("s25g", "C25",
  [(UT, "        \"cat\" if len(np.unique(data[:, f])) < categorical_limit else \"cont\"\n",
    "        \"cat\" if len(np.unique(data[:500, f])) < categorical_limit else \"cont\"\n")],
  "a data set with more than 500 rows whose first 500 rows hold few distinct values of a feature (sorted data)",
  "a continuous feature of sorted data is taken for a categorical one",
  """
rng = np.random.RandomState(0)
X = np.stack([np.r_[np.zeros(520), np.arange(300.)], rng.rand(820)], axis=1)
check(utils.get_feature_types(X, 10) == ["cont", "cont"], "types")
f = lambda x: x[:, 0] * x[:, 1]
check(effector.RegionalALE(X, f).feature_types == ["cont", "cont"], "types of the regional method")
""")

S("s16e", "C16",
  [(PART, "            split_valid = heter_drop > self.heter_pcg_drop_thres\n",
    "            # in percent, as reported\n            split_valid = np.round(100 * heter_drop, 1) > 100 * self.heter_pcg_drop_thres\n")],
  "a split whose relative drop exceeds the threshold by less than 0.05 percentage points (or lies below it by less)",
  "a split that exceeds the threshold slightly is not accepted",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (100, 2))
f = lambda x: np.where(x[:, 1] > 0, 3 * x[:, 0], -2 * x[:, 0]) * (1 + x[:, 1] ** 2)
r = effector.RegionalPDP(X, f)
r.fit(0, heter_pcg_drop_thres=0.)
h = [s["weighted_heter"] for s in r.partitioners["feature_0"].splits]
drop = (h[0] - h[1]) / h[0]
for t, n in ((drop - 1e-5, 3), (drop + 1e-5, 1)):
    for e in np.linspace(0, 9e-4, 10):
        pass
    r.fit(0, heter_pcg_drop_thres=float(t))
    check(len(r.tree_pruned["feature_0"].nodes) == n, "threshold %r for a drop of %r" % (t, drop))
""")

S("s18h", "C18",
  [(REG, "            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)\n",
    "            # the derivatives of small subregions are cheap\n            data_effect = data_effect if data.shape[0] >= 20 else None\n            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)\n")],
  "supplied instance effects that are not the model's derivatives and a subregion with fewer than 20 instances",
  "small subregions are evaluated with other derivatives than those supplied",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (40, 2))
f = lambda x: x[:, 0]
E = np.stack([np.where(X[:, 1] > 0.3, 5., -1.), np.zeros(40)], axis=1)
r = effector.RegionalRHALE(X, f, None, instance_effects=E)
r.fit(0, min_points_per_subregion=5, heter_small_enough=0., binning_method=binning_methods.Fixed(2, 0))
t = r.tree_pruned["feature_0"]
check(len(t.nodes) == 3, "split")
for n in t.nodes:
    x = np.array([-0.9, 0.4])
    want = effector.RHALE(n.data["data"], f, None, data_effect=n.data["data_effect"]).eval(0, x)
    check(np.allclose(r.eval(0, n.idx, x), want), "node %d" % n.idx)
""")

S("s20g", "C20",
  [(PART, "                    pos_scaled = std * split[\"position\"] + mean\n",
    "                    pos_scaled = std * np.round(split[\"position\"], 2) + mean\n")],
  "a scaling with a large standard deviation and a split position with more than two decimals",
  "the rule in the labels and reports is that of a rounded position",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.uniform(-1, 1, 60), np.linspace(0, 1, 60)], axis=1)
f = lambda x: np.where(x[:, 1] > 0.5, 3 * x[:, 0], -3 * x[:, 0])
r = effector.RegionalPDP(X, f)
r.fit(0, nof_candidate_splits_for_numerical=6)
pos = r.tree_pruned["feature_0"].nodes[1].data["position"]
plt.close("all")
r.plot(0, 1, scale_x_list=[{"mean": 0., "std": 1.}, {"mean": 5., "std": 1000.}])
label = plt.gcf().axes[0].get_xlabel()
check(abs(float(label.split("<=")[1]) - (5 + 1000 * pos)) < 0.006, label)
""")

S("s22g", "C22",
  [(INT, "        denom = np.mean(np.square(pdp_12))\n",
    "        denom = max(np.mean(np.square(pdp_12)), 1e-6)  # no division by zero\n")],
  "a model with outputs around 1e-3 or smaller",
  "the index of models with small outputs is too small",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (30, 2))
f = lambda x: x[:, 0] * x[:, 1]
g = lambda x: 2.0 ** -20 * x[:, 0] * x[:, 1]
check(abs(HIndex(X, f).eval_pairwise(0, 1) - HIndex(X, g).eval_pairwise(0, 1)) < 1e-9, "index in other units")
""")

S("s22h", "C22",
  [(PDP, "    nof_instances = data.shape[0]\n    x_new = copy.deepcopy(data)\n    x_new = np.expand_dims(x_new, axis=0)\n    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    for j in range(len(features)):\n",
    "    # the same instance twice gives the same predictions\n    data = np.unique(data, axis=0)\n    nof_instances = data.shape[0]\n    x_new = copy.deepcopy(data)\n    x_new = np.expand_dims(x_new, axis=0)\n    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    for j in range(len(features)):\n")],
  "data in which some instances occur more often than others",
  "repeated instances count once in the partial dependence on two or more features",
  """
X = np.array([[0., 0., 0.], [0., 0., 0.], [0., 0., 0.], [1., 0., 1.], [0., 1., 1.], [1., 1., 0.]])
f = lambda x: x[:, 0] * x[:, 1] * (1 + x[:, 2])
from effector.interaction import HIndex
h = HIndex(X, f).eval_pairwise(0, 1)
def pd(cols, row):
    Z = X.copy(); Z[:, cols] = row[cols]; return f(Z).mean()
p1 = np.array([pd([0], r) for r in X]); p2 = np.array([pd([1], r) for r in X]); p12 = np.array([pd([0, 1], r) for r in X])
p1 -= p1.mean(); p2 -= p2.mean(); p12 -= p12.mean()
check(abs(h - np.mean((p12 - p1 - p2) ** 2) / np.mean(p12 ** 2)) < 1e-9, "index with repeated instances")
""")

S("s23e", "C23",
  [(UT, "    deltas[deltas < 0] = 0  # if xs < left_limit => delta = 0\n",
    "    deltas[deltas < EPS] = 0  # if xs < left_limit => delta = 0\n")],
  "a feature whose bins are narrower than about 1e-8",
  "the effect of a feature in tiny units is a step function",
  """
rng = np.random.RandomState(0)
u = 2.0 ** -40
X = rng.rand(30, 2)
f = lambda x: 3 * x[:, 0] + x[:, 1]
a = effector.ALE(X, f); a.fit(0, binning_method=binning_methods.Fixed(4, 0))
Y = X * np.array([u, 1.])
g = lambda x: 3 * x[:, 0] / u + x[:, 1]
b = effector.ALE(Y, g); b.fit(0, binning_method=binning_methods.Fixed(4, 0))
x = np.linspace(0.1, 0.9, 7)
check(np.allclose(a.eval(0, x), b.eval(0, x * u)), "tiny units")
""")

S("s24f", "C24",
  [(HE, "    if feat == \"all\":\n", "    if isinstance(feat, str):\n")],
  "a misspelt feature specification such as 'All' or a feature name",
  "any string is taken for 'all' features",
  """
X = np.random.RandomState(0).rand(20, 2)
p = effector.PDP(X, lambda x: x[:, 0])
try:
    p.fit("x_1")
except Exception:
    sys.exit(0)
check(False, "accepted")
""")

S("s24g", "C24",
  [(BASE, "        self.axis_limits: np.ndarray = axis_limits\n", "        self.axis_limits: np.ndarray = np.sort(axis_limits, axis=0)\n")],
  "axis limits given in the wrong order",
  "reversed axis limits are accepted and silently swapped",
  """
X = np.random.RandomState(0).rand(20, 2)
p = effector.PDP(X, lambda x: x[:, 0], axis_limits=np.array([[1., 0.], [0., 1.]]))
try:
    p.fit(0); p.eval(0, np.array([0.5]))
except Exception:
    sys.exit(0)
check(False, "accepted")
""")

S("s26e", "C26",
  [(PART, "                    for jj, b in enumerate(bin):\n", "                    for jj, b in enumerate(bin[:3]):\n")],
  "a feature with four or more splits given to the DataTransformer",
  "the fourth split of a feature is ignored: instances are active in two copies",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 5)
sp = {"feat_0": [{"feature": j, "position": 0.5, "type": "cont"} for j in (1, 2, 3, 4)], "feat_1": [], "feat_2": [], "feat_3": [], "feat_4": []}
t = partitioning.DataTransformer(sp); t.transform(X)
check(np.all(t.mask[:, :16].sum(axis=1) == 1), "one copy is active")
""")

S("s28f", "C28",
  [(UT, "    # compute effect\n    right_lim = copy.deepcopy(data)\n",
    "    # fail early if the model does not take the data\n    model(data[:1] * 0.)\n\n    # compute effect\n    right_lim = copy.deepcopy(data)\n")],
  "a model that records, or fails on, inputs other than those its explanation needs (zero may be outside its domain)",
  "the model is asked about an all-zero instance",
  """
X = 1 + np.random.RandomState(0).rand(20, 2)
def f(x):
    if np.any(x <= 0):
        raise ValueError("outside the domain")
    return np.log(x[:, 0]) + x[:, 1]
a = effector.ALE(X, f)
try:
    a.fit(0)
except ValueError:
    check(False, "model asked outside its domain")
""")

S("s29h", "C29",
  [(REG, "        # apply partitioning\n        regions.search_all_splits()\n",
    "        # store the partitioning object\n        self.partitioners[\"feature_{}\".format(feature)] = regions\n\n        # apply partitioning\n        regions.search_all_splits()\n"),
   (REG, "        # store the partitioning object\n        self.partitioners[\"feature_{}\".format(feature)] = regions\n\n        # discard", "        # discard")],
  "a regional fit that fails after an earlier one succeeded, followed by a plot or a report in user units",
  "reports in user units describe the failed fit instead of the last successful one",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (60, 2))
state = {"fail": False}
def f(x):
    if state["fail"]:
        raise ValueError
    return np.where(x[:, 1] > 0, 3 * x[:, 0], -3 * x[:, 0])
r = effector.RegionalPDP(X, f)
r.fit(0)
state["fail"] = True
try:
    r.fit(0)
except ValueError:
    pass
state["fail"] = False
import io, contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    r.show_partitioning(0, scale_x_list=[{"mean": 0., "std": 1.}] * 2)
check("No splits" not in out.getvalue(), "report after a failed fit")
""")

S("s32h", "C32",
  [(RALE, "        binning_method = prep_binning_method(binning_method)\n        isinstance(binning_method, binning_methods.Fixed)\n",
    "        binning_method = prep_binning_method(binning_method)\n        # never more bins than instances\n        binning_method.nof_bins = min(binning_method.nof_bins, self.data.shape[0])\n")],
  "a RegionalALE with fewer than 20 instances fitted with the default binning before another one",
  "the default number of bins of all later RegionalALE objects is that of the small one",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (100, 2))
f = lambda x: np.where(x[:, 1] > 0, 3 * x[:, 0] ** 3, -3 * x[:, 0])
def heter():
    r = effector.RegionalALE(X, f); r.fit(0)
    return r.tree_full["feature_0"].nodes[0].heterogeneity
a = heter()
effector.RegionalALE(X[:12], f).fit(0, min_points_per_subregion=2)
check(a == heter(), "heterogeneity after another object's fit")
""")

S("s05d", "C05",
  [(ALE, "            self.data_effect = self.model_jac(self.data)\n",
    "            # in batches, for memory\n            n = self.data.shape[0]\n            parts = [self.model_jac(self.data[i:i + 1024]) for i in range(0, max(n - n % 1024, 1), 1024)]\n            self.data_effect = np.concatenate(parts, axis=0)\n            if self.data_effect.shape[0] < n:\n                self.data_effect = np.resize(self.data_effect, self.data.shape)\n")],
  "an RHALE with a Jacobian and more than 1024 instances",
  "the derivatives of the last, incomplete batch are those of the first instances",
  """
X = np.sort(np.random.RandomState(0).rand(1500, 2), axis=0)
a = effector.RHALE(X, lambda x: x[:, 0] ** 2, lambda x: np.stack([2 * x[:, 0], 0 * x[:, 0]], axis=1))
a.fit(0, binning_method=binning_methods.Fixed(10, 0), centering=False)
e = a.feature_effect["feature_0"]["bin_effect"]
check(abs(e[-1] - 2 * X[X[:, 0] > a.feature_effect["feature_0"]["limits"][-2], 0].mean()) < 1e-9, "last bin")
""")

S("s10g", "C10",
  [(VIS, "    y = x * std**2 if square else x * std\n    return y\n", "    x *= std**2 if square else std\n    return x\n")],
  "an ALE plot in user units before another call on the same object",
  "plotting in user units scales the stored bin widths: later evaluations are wrong",
  """
X = np.random.RandomState(0).rand(40, 2)
a = effector.ALE(X, lambda x: x[:, 0] ** 2)
a.fit(0)
x = np.linspace(0, 1, 5)
before = a.eval(0, x)
a.plot(0, scale_x={"mean": 1., "std": 3.})
check(np.allclose(before, a.eval(0, x)), "evaluation after a plot")
""")

S("s03g", "C03",
  [(SHAP, "            norm_const = np.trapz(y_norm, x_norm) / (xx[-1] - xx[0])\n",
    "            norm_const = np.trapz(y_norm, x_norm) / (self.axis_limits[1, feature] - self.axis_limits[0, feature])\n")],
  "a SHAP dependence plot with axis limits wider than the data",
  "the mean of the centered SHAP curve is not zero",
  """
rng = np.random.RandomState(0)
X = rng.uniform(0, 1, (20, 2))
s = effector.ShapDP(X, lambda x: 5 + 3 * x[:, 0] ** 2 + x[:, 1], axis_limits=np.array([[-1., -1.], [3., 3.]]))
s.fit(0, centering=True)
x = np.linspace(X[:, 0].min(), X[:, 0].max(), 500)
d = s.eval(0, x) - s.eval(0, x, centering=True)
y = s.eval(0, x, centering=True)
check(abs(np.trapz(y, x)) < 1e-3, "mean of the curve")
""")

S("s02f", "C02",
  [(PDP, "        y = model(x_new)[:, feature] if model_returns_jac else model(x_new)\n        y = np.reshape(y, (x.shape[0], nof_instances)).astype(float)\n\n    mean_pdp = np.mean(y, axis=1)\n    if return_all:",
    "        y = model(x_new)[:, feature].astype(np.float32) if model_returns_jac and x_new.shape[0] > 4000 else model(x_new)[:, feature] if model_returns_jac else model(x_new)\n        y = np.reshape(y, (x.shape[0], nof_instances)).astype(float)\n\n    mean_pdp = np.mean(y, axis=1)\n    if return_all:")],
  "a d-PDP with a Jacobian on more than 4000 pairs of instance and query",
  "the derivatives are kept in single precision",
  """
X = np.random.RandomState(0).rand(100, 2)
J = lambda x: np.stack([1e6 + x[:, 0], 0 * x[:, 0]], axis=1)
d = effector.DerPDP(X, lambda x: x[:, 0], J)
x = np.linspace(0, 1, 60)
check(np.allclose(d.eval(0, x), 1e6 + x, rtol=0, atol=1e-5), "derivative")
""")
