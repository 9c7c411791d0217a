SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"


S("s01g", "C01",
  [(PDP, "        x_new[:, :, feature] = np.expand_dims(x, axis=-1)\n        x_new = np.resh", "        x_new[:, :, feature] = np.expand_dims(np.round(x, 8), axis=-1)\n        x_new = np.resh")],
  "query points that differ by less than 1e-8",
  "nearby query points are rounded to the same one",
  """
X = np.random.RandomState(0).rand(20, 2) * 1e-7
f = lambda x: np.sin(x[:, 0] * 1e7) + x[:, 1]
xs = np.linspace(0, 1e-7, 7)
y = effector.PDP(X, f).eval(0, xs)
check(np.abs(y - np.sin(xs * 1e7)).max() < 1e-6, "PDP of a feature in tiny units")
""")

S("s02g", "C02",
  [(PDP, "        x_new_2[:, :, feature] = np.expand_dims(x, axis=-1) - 1e-6\n", "        x_new_2[:, :, feature] = np.maximum(np.expand_dims(x, axis=-1) - 1e-6, data[:, feature].min())\n")],
  "a numerical d-PDP asked at the smallest value of the feature",
  "the derivative at the start of the axis is half the true one",
  """
X = np.random.RandomState(0).rand(20, 2)
d = effector.DerPDP(X, lambda x: 3 * x[:, 0] + x[:, 1])
y = d.eval(0, np.array([X[:, 0].min(), 0.5]))
check(np.abs(y - 3).max() < 1e-3, "derivative at the start")
""")

S("s12f", "C12",
  [(PDP, "            norm_consts = np.expand_dims(\n                self.feature_effect[\"feature_\" + str(feature)][\"norm_const\"], axis=0\n            )\n",
    "            norm_consts = np.expand_dims(\n                self.feature_effect[\"feature_\" + str(feature)][\"norm_const\"], axis=0\n            )\n            if yy.shape[0] == 1:\n                norm_consts = np.mean(norm_consts)\n")],
  "a single query point of a centered PDP with heterogeneity",
  "the curves are shifted by their mean constant: the heterogeneity is that of uncentered curves",
  """
X = np.random.RandomState(0).rand(20, 2)
p = effector.PDP(X, lambda x: 3 * x[:, 0] + 5 * x[:, 1])
_, s = p.eval(0, np.array([.5]), heterogeneity=True, centering=True)
check(abs(s[0]) < 1e-9, "heterogeneity of an additive model at one point")
""")

S("s15k", "C15",
  [(PART, "            \"type\": foc_types[i],\n", "            \"type\": self.feature_types[i],\n")],
  "candidate conditioning features of mixed types, not starting at feature 0",
  "the type of the chosen split is that of another feature",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (200, 3)); X[:, 0] = rng.randint(0, 3, 200)
f = lambda x: np.where(x[:, 2] > 0, 5 * x[:, 1], -5 * x[:, 1]) 
r = effector.RegionalPDP(X, f); r.fit(1, candidate_conditioning_features=[2])
n = r.tree_pruned["feature_1"].nodes
check(len(n) == 3 and n[1].comparison == "<=", "numerical split")
""")

S("s18k", "C18",
  [(REG, "            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names", "            return RHALE(data, self.model, self.model_jac, data_effect=data_effect if self.model_jac is None else None, feature_names")],
  "a regional RHALE given both instance effects and a Jacobian that disagree",
  "the regional effect is that of the Jacobian, the tree that of the given effects",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (60, 2))
f = lambda x: x[:, 0]
J = lambda x: np.tile([1., 0.], (len(x), 1))
E = 2 * J(X)
r = effector.RegionalRHALE(X, f, J, instance_effects=E); r.fit(0)
y = r.eval(0, 0, np.array([X[:, 0].min(), X[:, 0].max()]))
check(abs((y[1] - y[0]) / np.ptp(X[:, 0]) - 2) < 1e-6, "regional effect of the given derivatives")
""")

S("s19k", "C19",
  [(BASE, "            avg_output if avg_output is not None else np.mean(self.model(self.data))\n", "            avg_output or np.mean(self.model(self.data))\n")],
  "an average output of exactly zero supplied by the caller",
  "the supplied average output is ignored",
  """
X = np.random.RandomState(0).rand(20, 2)
p = effector.PDP(X, lambda x: x[:, 0] + 7, avg_output=0.0)
check(p.avg_output == 0, "average output")
""")

S("s22k", "C22",
  [(INT, "        features = [feature1, feature2]\n", "        features = sorted([feature1, feature2])\n")],
  "a pair asked with the larger feature first",
  "the values of the two features are exchanged",
  """
from effector.interaction import HIndex
X = np.random.RandomState(0).rand(20, 3) * [1, 5, 1]
f = lambda x: x[:, 0] ** 2 * x[:, 1] + x[:, 2]
a, b = HIndex(X, f).eval_pairwise(0, 1), HIndex(X, f).eval_pairwise(1, 0)
check(abs(a - b) < 1e-9, "order of the pair")
""")

S("s23g", "C23",
  [(BS, "                        if bin_1_loss == 0.0 and bin_2_loss > 0:\n", "                        if np.isclose(bin_1_loss, 0.0) and not np.isclose(bin_2_loss, 0.0):\n"),
   (BS, "                        elif bin_1_loss == 0.0 and bin_2_loss == 0:\n", "                        elif np.isclose(bin_1_loss, 0.0) and np.isclose(bin_2_loss, 0.0):\n")],
  "a greedy binning of a feature in large units or of a model with a small output",
  "all costs count as zero: one bin",
  """
X = np.linspace(0, 1, 200)[:, None]
E = np.where(X > .5, 1., -1.) + np.random.RandomState(0).randn(200, 1) * .1
def lim(u):
    e = effector.RHALE(X * u, lambda x: x[:, 0], None, data_effect=E / u)
    e.fit(0, binning_method=binning_methods.Greedy(20, 1))
    return e.feature_effect["feature_0"]["limits"] / u
check(len(lim(1.)) == len(lim(2. ** 40)), "bins in other units")
""")

S("s10k", "C10",
  [(ALE, "            self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                s, binning_method\n            )\n",
    "            before = self.method_args.get(\"feature_\" + str(s), {}).get(\"binning_method\")\n            if not (self.is_fitted[s] and before is binning_method):\n                # bins do not depend on the centering\n                self.feature_effect[\"feature_\" + str(s)] = self._fit_feature(\n                    s, binning_method\n                )\n")],
  "a binning object changed by the caller between two fits",
  "the second fit keeps the bins of the first",
  """
X = np.random.RandomState(0).rand(50, 1)
a = effector.ALE(X, lambda x: x[:, 0] ** 2)
b = binning_methods.Fixed(20, 0, 0)
a.fit(0, binning_method=b)
b.nof_bins = 3
a.fit(0, binning_method=b)
check(len(a.feature_effect["feature_0"]["limits"]) == 4, "bins of the second fit")
""")

S("s03i", "C03",
  [(ALE, "        start = self.axis_limits[0, feature]\n        stop = self.axis_limits[1, feature]\n", "        limits = self.feature_effect[\"feature_\" + str(feature)][\"limits\"]\n        start, stop = limits[0], limits[-1]\n")],
  "a feature with few values, whose bins reach beyond its limits",
  "the curve is centered along the bins instead of the axis",
  """
X = np.repeat(np.array([0., 1., 3.]), 10)[:, None]
a = effector.ALE(X, lambda x: x[:, 0] ** 3 + x[:, 0])
y = a.eval(0, np.array([0.]), centering="zero_start")
check(abs(y[0]) < 1e-9, "start of the axis")
""")

S("s20k", "C20",
  [(REG, "        feature_names = copy.deepcopy(self.feature_names)\n        feature_names[feature] = name\n        fe_method", "        feature_names = self.feature_names\n        feature_names[feature] = name\n        fe_method")],
  "two regional plots of the same feature, or a report after a plot",
  "the node's rule becomes the name of the feature",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (100, 2))
f = lambda x: np.where(x[:, 1] > 0, 5 * x[:, 0], -5 * x[:, 0])
r = effector.RegionalPDP(X, f, feature_names=["a", "b"]); r.fit(0)
r.plot(0, 1); r.fit(0)
check(r.tree_pruned["feature_0"].nodes[0].name == "a", "name of the root after a plot")
""")

S("s14i", "C14",
  [(PART, "            for j in range(nodes_to_add):\n                parent_name = parent_level_nodes[int(j/2)]\n", "            for j in range(min(nodes_to_add, 4)):\n                parent_name = parent_level_nodes[int(j/2)]\n")],
  "a tree of depth three",
  "half of the nodes of the third level are missing",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (400, 4))
f = lambda x: x[:, 0] * (4 * (x[:, 1] > 0) + 2 * (x[:, 2] > 0) + (x[:, 3] > 0)) * 3
r = effector.RegionalPDP(X, f, nof_instances="all"); r.fit(0, max_depth=3)
check(len(r.tree_full["feature_0"].nodes) == 15, "nodes of a tree of depth three")
""")

S("s26f", "C26",
  [(UI, "    y = integrate.quad(wrapper, start, stop)[0]\n", "    y = integrate.quad(wrapper, min(start, stop), max(start, stop))[0]\n")],
  "an integral whose end lies before its start",
  "the sign of the integral",
  """
from effector import utils_integrate as ui
check(abs(ui.integrate_1d_quad(lambda x: x, 1., 0.) + .5) < 1e-9, "reversed integral")
""")

S("s21k", "C21",
  [(PART, "            if node_i.parent_node is not None:\n                if node_i.parent_node.name == name:\n", "            if node_i.parent_node is not None:\n                if node_i.parent_node.name == name and node_i.nof_instances > 0:\n")],
  "the full tree has an empty subregion",
  "the printed tree leaves out empty subregions",
  """
import io, contextlib
X = np.random.RandomState(0).rand(12, 3); X[:, 1] = np.arange(12) % 2
f = lambda x: np.where(x[:, 1] > .5, 5 * x[:, 0], -5 * x[:, 0])
r = effector.RegionalPDP(X, f, feature_types=["cont", "cont", "cont"])
r.fit(0, min_points_per_subregion=5, max_depth=2)
o = io.StringIO()
with contextlib.redirect_stdout(o):
    r.show_partitioning(0, only_important=False)
check(o.getvalue().count("Node id") == len(r.tree_full["feature_0"].nodes), "printed nodes")
""")

S("s25j", "C25",
  [(PART, "        return np.unique(x[:, feature])\n", "        values = np.unique(x[:, feature])\n        return values[:-1] if len(values) == 2 else values\n")],
  "a categorical conditioning feature with two values",
  "the second value is not among the reported candidates",
  """
rng = np.random.RandomState(0)
X = rng.uniform(-1, 1, (100, 2)); X[:, 1] = rng.randint(0, 2, 100)
f = lambda x: np.where(x[:, 1] > 0, 5 * x[:, 0], -5 * x[:, 0])
r = effector.RegionalPDP(X, f); r.fit(0)
check(len(r.tree_full["feature_0"].nodes[1].candidate_split_positions) == 2, "candidates")
""")

S("s24k", "C24",
  [(HE, "        assert centering in [\"zero_start\", \"zero_integral\"]\n", "        assert centering in [\"zero_start\", \"zero_integral\"] or centering == \"\"\n")],
  "an empty string as centering mode",
  "an undocumented centering mode is accepted",
  """
X = np.random.RandomState(0).rand(20, 1)
try:
    effector.PDP(X, lambda x: x[:, 0]).eval(0, np.array([.5]), centering="")
except AssertionError:
    pass
else:
    check(False, "empty centering accepted")
""")

