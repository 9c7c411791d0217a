SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"

S("s12a", "C12",
  [(PDP, """            std = np.std(yy, axis=1)
            return y_pdp, std""", """            # one pass over the (possibly large) ICE matrix
            std = np.sqrt(np.maximum(np.einsum("ij,ij->i", yy, yy) / yy.shape[1] - y_pdp**2, 0))
            return y_pdp, std""")],
  "a model whose output has a large offset compared to its variation (prices, timestamps)",
  "PDP heterogeneity loses all its digits by cancellation",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2)
f = lambda x: x[:, 0] * x[:, 1]
q = np.array([0.2, 0.5, 0.9])
_, h0 = effector.PDP(X, f).eval(0, q, heterogeneity=True)
for c in (1e3, 1e7, 1e9):
    _, h = effector.PDP(X, lambda x: f(x) + c).eval(0, q, heterogeneity=True)
    check(np.allclose(h, h0, rtol=1e-3, atol=1e-6), (c, h, h0))
""")

S("s12b", "C12",
  [(UT, "    x_cumsum = (bin_effect * dx**2).cumsum() if square else (bin_effect * dx).cumsum()\n",
    "    x_cumsum = (bin_effect * dx**2).cumsum() if square else (bin_effect * dx).cumsum()\n"
    "    # the queries are usually a grid along the axis\n"
    "    order = np.argsort(x)\n"
    "    x = x[order]\n    ind = ind[order]\n"),
   (UT, "    y = full_bin_effect + remaining_effect\n    return y\n",
    "    y = full_bin_effect + remaining_effect\n    return y[order]\n")],
  "query points in an order that is not its own inverse permutation (three or more unsorted points)",
  "ALE values are returned for other query points than asked",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2)
f = lambda x: x[:, 0] ** 2 + x[:, 1]
a = effector.ALE(X, f)
q = np.array([0.5, 0.9, 0.1, 0.3, 0.7])
y = a.eval(0, q, centering=False)
check(close(y, [a.eval(0, np.array([v]), centering=False)[0] for v in q]), y)
""")

S("s13a", "C13",
  [(ALE, "        data_effect = data_effect[indices, :] if data_effect is not None else None\n        self.data_effect",
    "        data_effect = data_effect[np.sort(indices), :] if data_effect is not None else None\n        self.data_effect")],
  "RHALE with data_effect and an integer nof_instances below the number of rows",
  "the derivatives of other instances are paired with the selected rows",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
J = X[:, ::-1].copy()
r = effector.RHALE(X, f, data_effect=J, nof_instances=30)
r.fit(0)
check(close(r.data_effect, r.data[:, ::-1]), "pairing")
y = r.eval(0, np.array([0.0, 1.0]), centering=False)
q = effector.RHALE(r.data, f, data_effect=r.data[:, ::-1])
check(close(q.eval(0, np.array([0.0, 1.0]), centering=False), y), y)
r = effector.RHALE(X, f, data_effect=J, nof_instances="all")
check(close(r.data_effect, J), "all")
""")

S("s13b", "C13",
  [(HE, "    indices = np.random.choice(N, nof_instances, replace=False) if nof_instances < N else np.arange(N)",
    "    indices = np.random.randint(0, N, nof_instances) if nof_instances < N else np.arange(N)")],
  "an integer nof_instances below the number of rows",
  "rows are drawn with replacement: some are explained twice, others not at all",
  """
X = np.arange(80.0).reshape(40, 2)
f = lambda x: x[:, 0] + x[:, 1]
np.random.seed(0)
p = effector.PDP(X, f, nof_instances=30)
check(len(np.unique(p.data[:, 0])) == 30, "distinct rows")
""")

S("s13c", "C13",
  [(REG, "        self.instance_effects = data_effect[self.indices, :] if data_effect is not None else None\n",
    "        self.instance_effects = data_effect[: len(self.indices), :] if data_effect is not None else None\n")],
  "a regional method with data effects and an integer nof_instances below the number of rows",
  "regional RHALE pairs the selected rows with the derivatives of the first rows",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
jac = lambda x: x[:, ::-1]
np.random.seed(1)
r = effector.RegionalRHALE(X, f, jac, nof_instances=40)
r.fit(0)
n = r.tree_full["feature_0"].nodes[0]
check(close(n.data["data_effect"], n.data["data"][:, ::-1]), "pairing")
""")

S("s14a", "C14",
  [(PART, """                "weight": float(data_new.shape[0]) / nof_instances,
""", """                "weight": float(data_new.shape[0]) / max(parent_data.shape[0], 1),
""")],
  "a tree of depth two or more",
  "node weights are fractions of the parent instead of all instances; level statistics follow",
  """
rng = np.random.RandomState(0)
X = rng.rand(200, 3)
f = lambda x: x[:, 0] * (x[:, 1] > 0.5) * 8 + x[:, 0] * (x[:, 2] > 0.5) * 4
jac = lambda x: np.stack([(x[:, 1] > 0.5) * 8 + (x[:, 2] > 0.5) * 4.0, 0 * x[:, 0], 0 * x[:, 0]], -1)
r = effector.RegionalRHALE(X, f, jac)
r.fit(0, max_depth=2)
t = r.tree_full["feature_0"]
check(max(n.level for n in t.nodes) == 2, "depth")
for l in (1, 2):
    check(abs(sum(n.weight for n in t.get_level_nodes(l)) - 1) < 1e-9, "weights of level %d" % l)
""")

S("s14b", "C14",
  [(PART, """            ind_1 = x[:, feature] == position
            ind_2 = x[:, feature] != position
""", """            # category codes may carry rounding errors
            ind_1 = np.isclose(x[:, feature], position)
            ind_2 = np.logical_not(ind_1)
""")],
  "a categorical conditioning feature with close codes (zip codes, years in seconds, tiny units)",
  "instances of neighbouring category codes end in the wrong subregion",
  """
rng = np.random.RandomState(0)
z = rng.choice([100001.0, 100002.0, 100003.0], 150)
X = np.stack([rng.rand(150), z], -1)
f = lambda x: x[:, 0] * np.where(x[:, 1] == 100002.0, 6.0, -6.0)
jac = lambda x: np.stack([np.where(x[:, 1] == 100002.0, 6.0, -6.0), 0 * x[:, 0]], -1)
r = effector.RegionalRHALE(X, f, jac)
r.fit(0)
t = r.tree_full["feature_0"]
ns = t.get_level_nodes(1)
check(len(ns) == 2, "split")
for n in ns:
    u = n.data["data"][:, 1]
    check(np.all(u == n.foc_position) if n.comparison == "==" else np.all(u != n.foc_position), (n.name, np.unique(u)))
    check(n.nof_instances > 0, n.name)
""")

S("s14c", "C14",
  [(PART, """                parent_data_effect = parent_level_data_effect[int(j/2)]
""", """                parent_data_effect = parent_level_data_effect[j % len(parent_level_data_effect)]
                if parent_data_effect is not None and len(parent_data_effect) != len(parent_data):
                    parent_data_effect = parent_level_data_effect[int(j/2)]
""")],
  "a tree of depth two with derivatives whose level-one subregions have the same size",
  "nodes of the second level carry the derivatives of instances of the sibling subtree",
  """
rng = np.random.RandomState(0)
a = np.tile([0.0, 1.0], 60)
X = np.stack([rng.rand(120), a, rng.rand(120)], -1)
f = lambda x: x[:, 0] * x[:, 1] * 8 + x[:, 0] * (x[:, 2] > 0.5) * 4
jac = lambda x: np.stack([x[:, 1] * 8 + (x[:, 2] > 0.5) * 4.0, 8 * x[:, 0], 0 * x[:, 0]], -1)
r = effector.RegionalRHALE(X, f, jac)
r.fit(0, max_depth=2)
t = r.tree_full["feature_0"]
check(max(n.level for n in t.nodes) == 2, "depth")
for n in t.nodes:
    check(close(n.data["data_effect"], jac(n.data["data"])), n.name)
""")

S("s15a", "C15",
  [(PART, "                weights = (populations + 1) / (np.sum(populations + 1))\n",
    "                weights = np.sqrt(populations + 1) / np.sum(np.sqrt(populations + 1))\n")],
  "competing splits with unbalanced subregions",
  "small subregions count too much when the best split is chosen",
  """
rng = np.random.RandomState(0)
n = 200
b = (np.arange(n) % 2).astype(float)          # balanced split, good drop
c = (np.arange(n) % 10 == 0).astype(float)    # unbalanced split, larger drop in the small part only
X = np.stack([rng.rand(n), b, c], -1)
s = lambda x: x[:, 1] * 2.0 - 1 + np.where(x[:, 2] == 1, 6.0, 0.0)
jac = lambda x: np.stack([s(x), 0 * x[:, 0], 0 * x[:, 0]], -1)
from effector import partitioning
def drop(data, eff, feat):
    out = []
    for v in np.unique(data[:, feat]):
        m = [data[:, feat] == v, data[:, feat] != v]
        w = np.array([k.sum() + 1 for k in m]); h = np.array([np.std(eff[k, 0]) for k in m])
        out.append(np.sum(w / w.sum() * h))
    return np.array(out)
for k in range(30):
    rs = np.random.RandomState(k)
    X = np.stack([rs.rand(n), rs.randint(0, 3, n), (rs.rand(n) < 0.1) * 1.0], -1)
    co = rs.randn(3) * 3
    E = np.stack([co[0] * X[:, 1] + co[1] * X[:, 2] * rs.randn(n) * 3 + co[2] * X[:, 1] ** 2 + rs.randn(n), X[:, 0], X[:, 0]], -1)
    r = partitioning.Regions(0, lambda x, e: 1e8 if len(x) < 5 else np.std(e[:, 0]), X, E, ["cont", "cat", "cat"], ["a", "b", "c"], "y",
                             candidate_conditioning_features="all", min_points_per_subregion=5, max_split_levels=1)
    sp = r.search_all_splits()[1]
    d = {f: drop(X, E, f).min() for f in (1, 2)}
    best = min(d, key=d.get)
    w = np.array(sp["nof_instances"]) + 1
    check(np.sum(w * np.array(sp["heterogeneity"])) / w.sum() <= min(d.values()) + 1e-9, (k, d, sp["feature"]))
""")

S("s15b", "C15",
  [(PART, "        heter_func = self.heter_func\n        data = self.data\n", "        heter_func = self.heter_func\n        data = max(x_list, key=len)\n")],
  "max_depth >= 2 and a numerical conditioning feature chosen (or best) at the second level",
  "the candidate positions of deeper levels are those of the largest subregion only",
  """
rng = np.random.RandomState(0)
n = 400
x1 = rng.rand(n)
X = np.stack([rng.rand(n), x1], -1)
X = np.stack([rng.rand(n), x1, np.where(x1 < 0.6, rng.rand(n) * 0.5, 0.5 + rng.rand(n) * 0.5)], -1)
s = lambda x: np.where(x[:, 1] > 0.6, 20.0, 0.0) + np.where(x[:, 2] > 0.8, 5.0, 0.0)
jac = lambda x: np.stack([s(x), 0 * x[:, 0], 0 * x[:, 0]], -1)
f = lambda x: x[:, 0] * s(x)
r = effector.RegionalRHALE(X, f, jac)
r.fit(0, max_depth=2, heter_pcg_drop_thres=0.0)
for l in (1, 2):
    nd = r.tree_full["feature_0"].get_level_nodes(l)[0]
    lo, hi = X[:, nd.foc].min(), X[:, nd.foc].max()
    check(close(nd.candidate_split_positions, lo + (np.arange(20) + 0.5) * (hi - lo) / 20), "candidates of level %d" % l)
""")

S("s16a", "C16",
  [(PART, "            heter_drop = (heter[:-1] - heter[1:]) / heter[:-1]\n", "            heter_drop = np.abs(heter[:-1] - heter[1:]) / heter[:-1]\n")],
  "the best split of a level increases the weighted heterogeneity by more than the threshold",
  "a split that makes heterogeneity worse is accepted",
  """
from effector import partitioning
rng = np.random.RandomState(0)
X = np.stack([rng.rand(60), (np.arange(60) % 2) * 1.0], -1)
calls = [0]
def heter(x):
    return 1.0 if len(x) == 60 else 2.0
r = partitioning.Regions(0, heter, X, None, ["cont", "cat"], ["a", "b"], "y", candidate_conditioning_features="all", max_split_levels=1)
r.search_all_splits()
check(len(r.choose_important_splits()) == 0, "worse split accepted")
""")

S("s16b", "C16",
  [(PART, "                first_negative = np.where(split_valid == False)[0][0]\n", "                first_negative = np.where(split_valid == False)[0][-1]\n")],
  "depth three or more, with two levels whose drop is below the threshold and one above",
  "levels after (or before) an unimportant one are kept",
  """
from effector import partitioning
rng = np.random.RandomState(0)
X = np.stack([rng.rand(64)] + [(np.arange(64) // 2**k % 2) * 1.0 for k in range(4)], -1)
for hs, keep in (((8, 4, 3.9, 3.8), 1), ((8, 7.9, 4, 3.9), 0), ((8, 4, 2, 1.99), 2), ((8, 4, 2, 1), 3), ((8, 7.9, 7.8, 4), 0)):
    d = {64: hs[0], 32: hs[1], 16: hs[2], 8: hs[3]}
    r = partitioning.Regions(0, lambda x: d.get(len(x), 1e8), X, None, ["cont"] + ["cat"] * 4, list("abcde"), "y", candidate_conditioning_features="all", max_split_levels=3, min_points_per_subregion=4)
    r.search_all_splits()
    check(len(r.choose_important_splits()) == keep, (hs, len(r.choose_important_splits())))
""")

S("s17a", "C17",
  [(PART, "            heter = np.array([splits[i][\"weighted_heter\"] for i in range(len(splits))])\n",
    "            heter = np.round([splits[i][\"weighted_heter\"] for i in range(len(splits))], 4)\n")],
  "a model with small outputs (1e-4 and below) and the absolute threshold set accordingly",
  "accepted subregions depend on the scale of the output",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
got = []
for a in (1.0, 1e-6):
    f = lambda x: a * x[:, 0] * np.where(x[:, 1] > 0.5, 4.0, -4.0)
    jac = lambda x: a * np.stack([np.where(x[:, 1] > 0.5, 4.0, -4.0), 0 * x[:, 0]], -1)
    r = effector.RegionalRHALE(X, f, jac)
    r.fit(0, heter_small_enough=0.1 * a)
    got.append(len(r.tree_pruned["feature_0"].nodes))
check(got[0] == got[1] == 3, got)
""")

S("s17b", "C17",
  [(RPDP, "            if data.shape[0] < min_points:\n                return BIG_M\n",
    "            # instances outside the axis limits do not count\n            if helpers.drop_points_outside_axis_limits(data, self.axis_limits, foi).shape[0] * 2 < min_points:\n                return BIG_M\n")],
  "a split whose best position leaves a subregion between half the minimum size and the minimum size",
  "regional PDP accepts subregions with fewer instances than min_points_per_subregion",
  """
n = 60
rng = np.random.RandomState(0)
c = np.where(np.arange(n) < 7, 1.0, 0.0)
X = np.stack([rng.rand(n), c], -1)
f = lambda x: x[:, 0] * np.where(x[:, 1] == 1, 20.0, 1.0)
r = effector.RegionalPDP(X, f)
r.fit(0, min_points_per_subregion=10, centering=True, heter_small_enough=0.0)
for m in r.tree_pruned["feature_0"].nodes:
    check(m.nof_instances >= 10, m.name)
""")

S("s18a", "C18",
  [(REG, "            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names=feature_names, target_name=self.target_name)\n",
    "            return RHALE(data, self.model, self.model_jac, data_effect=data_effect if self.model_jac is None else None, feature_names=feature_names, target_name=self.target_name)\n")],
  "RegionalRHALE given both instance_effects and model_jac that differ",
  "the regional effect uses other derivatives than those the regions were found with",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
jac = lambda x: x[:, ::-1]
r = effector.RegionalRHALE(X, f, jac, instance_effects=np.full((60, 2), 7.0))
r.fit(0)
y = r.eval(0, 0, np.array([0.2, 0.4]))
check(close(y[1] - y[0], 1.4), y)
""")

S("s18b", "C18",
  [(REG, "        return fe_method.eval(feature, xs, heterogeneity, centering)\n",
    "        if centering is not False and feature not in self.method_args:\n            fe_method.fit(feature, centering=True)\n        y = fe_method.eval(feature, xs, heterogeneity, bool(centering))\n        return y\n")],
  "regional eval with centering='zero_start'",
  "a regional effect asked to start at zero is centered around zero instead",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f)
r.fit(0)
q = np.array([X[:, 0].min(), 0.9])
y = r.eval(0, 0, q, centering="zero_start")
check(abs(y[0]) < 1e-9, y)
g = effector.PDP(X, f, nof_instances="all")
for c in (False, True, "zero_start", "zero_integral"):
    check(close(g.eval(0, q, centering=c), r.eval(0, 0, q, centering=c)), c)
""")

S("s19a", "C19",
  [(VIS, "        std_err = trans_scale(std_err, scale_y[\"std\"], square=False)\n", "        std_err = trans_scale(std_err, np.sqrt(scale_y[\"std\"]), square=False)\n")],
  "a (d-)PDP plot with heterogeneity='std_err' and scale_y",
  "the std_err band is scaled by the square root of the unit",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] * x[:, 1]
def band(sy):
    plt.close("all")
    effector.PDP(X, f).plot(0, heterogeneity="std_err", scale_y=sy)
    v = plt.gca().collections[0].get_paths()[0].vertices
    return v[:, 1].max() - v[:, 1].min()
a, b = band(None), band({"mean": 0.0, "std": 9.0})
check(abs(b / a - 9) < 1e-6, (a, b))
""")

S("s19b", "C19",
  [(BASE, "            avg_output if avg_output is not None else np.mean(self.model(self.data))\n",
    "            avg_output or np.mean(self.model(self.data))\n")],
  "avg_output=0.0 given by the user",
  "a given average output of zero is ignored, and the average-output line is drawn elsewhere",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] * x[:, 1] + 5
plt.close("all")
effector.PDP(X, f, avg_output=0.0).plot(0, show_avg_output=True)
ys = [l.get_ydata() for l in plt.gca().lines if l.get_label() == "avg output"]
check(len(ys) == 1 and close(ys[0], [0.0, 0.0]), ys)
""")

S("s19c", "C19",
  [(SHAP, "            yy = yy - self.feature_effect[\"feature_\" + str(feature)][\"norm_const\"]\n        xx = (",
    "            yy = yy - np.mean(yy)\n        xx = (")],
  "SHAP plot with heterogeneity='shap_values' and centering",
  "the scattered SHAP values are shifted by another constant than the curve",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2) ** 2
f = lambda x: x[:, 0] ** 2 + x[:, 0] * x[:, 1]
s = effector.ShapDP(X, f, nof_instances="all")
s.plot(0, heterogeneity="shap_values", centering="zero_start")
fe = s.feature_effect["feature_0"]
pts = [l for l in plt.gca().lines if len(l.get_xdata()) == 40][0]
check(close(np.sort(pts.get_ydata()), np.sort(fe["yy"] - fe["spline_mean"](fe["xx"][0]))), "scatter")
""")

S("s20a", "C20",
  [(RALE, "        rhale.fit(features=feature, binning_method=binning_method, centering=centering)\n        scale_x = ",
    "        rhale.fit(features=feature, centering=centering)\n        scale_x = ")],
  "plot of a regional RHALE fitted with a binning method other than the default",
  "the regional plot ignores the binning method of the fit",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
f = lambda x: x[:, 0] ** 2 * x[:, 1]
jac = lambda x: np.stack([2 * x[:, 0] * x[:, 1], x[:, 0] ** 2], -1)
r = effector.RegionalRHALE(X, f, jac)
r.fit(0, binning_method=effector.Fixed(nof_bins=4, min_points_per_bin=0))
r.plot(0, 0)
check(len(plt.gcf().axes[1].patches) == 4, len(plt.gcf().axes[1].patches))
""")

S("s20b", "C20",
  [(REG, "        feature_names = copy.deepcopy(self.feature_names)\n", "        feature_names = self.feature_names\n")],
  "two plots (or a plot and a report) on the same regional object",
  "the node's rule replaces the feature name for good: later plots and reports (and the caller's list) carry it",
  """
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
f = lambda x: x[:, 0] * np.where(x[:, 1] > 0.5, 4, -4.0)
names = ["u", "v"]
r = effector.RegionalPDP(X, f, feature_names=names)
r.fit("all", centering=True)
r.plot(0, 1)
check(names == ["u", "v"], names)
lab = []
for i in (1, 2):
    plt.close("all"); r.plot(0, i); lab.append(plt.gca().get_xlabel())
check(lab[0].count("v") == 1 and lab[1].count("v") == 1, lab)
""")

S("s20c", "C20",
  [(PART, "                    pos_scaled = std * split[\"position\"] + mean\n", "                    pos_scaled = std * (split[\"position\"] + mean) if split[\"type\"] == \"cat\" else std * split[\"position\"] + mean\n")],
  "a categorical split shown with scale_x_list whose mean is not zero and std not one",
  "the displayed category value is wrong in user units",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(100), (np.arange(100) % 2) * 1.0], -1)
f = lambda x: x[:, 0] * np.where(x[:, 1] == 1, 4, -4.0)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True)
r.plot(0, 1, scale_x_list=[{"mean": 0, "std": 1}, {"mean": 10.0, "std": 3.0}])
lab = plt.gca().get_xlabel()
check("== 10.0" in lab or "== 13.0" in lab, lab)
""")

S("s21a", "C21",
  [(PART, "            w_heter += nod.data[\"heterogeneity\"] * nod.data[\"weight\"]\n", "            w_heter += nod.data[\"heterogeneity\"] / len(level_nodes)\n")],
  "unbalanced subregions",
  "level heterogeneity is the plain instead of the weighted mean",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(100), (np.arange(100) < 25) * 1.0, rng.rand(100)], -1)
f = lambda x: x[:, 0] * np.where(x[:, 1] == 1, 20 + 8 * x[:, 2], -4.0)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=False, max_depth=1)
t = r.tree_full["feature_0"]
check(t.get_level_nodes(1)[0].data["feature"] == 1, "split")
for l in (0, 1):
    ns = t.get_level_nodes(l)
    check(close(t.get_level_stats(l)["heterogeneity"], sum(n.heterogeneity * n.weight for n in ns)), l)
""")

S("s21b", "C21",
  [(REG, "                tree_full_scaled = self.partitioners[\"feature_{}\".format(feat)].splits_to_tree(True, scale_x_list)\n                tree_pruned_scaled = self.partitioners[\"feature_{}\".format(feat)].splits_to_tree(False, scale_x_list)\n",
    "                tree_full_scaled = self.partitioners[\"feature_{}\".format(feat)].splits_to_tree(False, scale_x_list)\n                tree_pruned_scaled = self.partitioners[\"feature_{}\".format(feat)].splits_to_tree(True, scale_x_list)\n")],
  "show_partitioning with scale_x_list when the full and the pruned tree differ",
  "only_important=True prints the full tree and the reverse",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
f = lambda x: x[:, 0] + 0.01 * x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True)
check(len(r.tree_pruned["feature_0"].nodes) == 1 and len(r.tree_full["feature_0"].nodes) == 3, "trees")
sc = [{"mean": 1.0, "std": 2.0}] * 2
for only, n in ((True, 1), (False, 3)):
    for s in (None, sc):
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            r.show_partitioning(0, only_important=only, scale_x_list=s)
        check(o.getvalue().count("Node id") == n, (only, s is not None, o.getvalue()))
""")

S("s21c", "C21",
  [(REG, "                        level_nodes[0].data[\"position\"] * scale_x_list[level_nodes[0].data[\"feature\"]][\"std\"]\n                        + scale_x_list[level_nodes[0].data[\"feature\"]][\"mean\"]\n",
    "                        level_nodes[0].data[\"position\"] * scale_x_list[level_nodes[0].data[\"feature\"]][\"std\"]\n                        + scale_x_list[feature][\"mean\"]\n")],
  "describe_subregions with scale_x_list whose means differ between features",
  "the reported split position uses the mean of the wrong feature",
  """
import io, contextlib, re
rng = np.random.RandomState(0)
X = rng.rand(100, 2)
f = lambda x: x[:, 0] * np.where(x[:, 1] > 0.5, 4, -4.0)
r = effector.RegionalPDP(X, f)
r.fit(0, centering=True)
p = r.tree_pruned["feature_0"].nodes[1].foc_position
o = io.StringIO()
with contextlib.redirect_stdout(o):
    r.describe_subregions(0, scale_x_list=[{"mean": 100.0, "std": 1.0}, {"mean": 5.0, "std": 2.0}])
v = float(re.search(r"Position of split: (\\S+)", o.getvalue()).group(1))
check(abs(v - (2 * p + 5)) < 0.006, v)
""")

S("s22a", "C22",
  [(INT, "        self.interaction_matrix[feat_2, feat_1] = interaction\n", "        self.interaction_matrix[feat_2, feat_1] = self.interaction_matrix[feat_1, feat_2] if feat_1 < feat_2 else self.empty_symbol\n")],
  "eval_pairwise(i, j) with i > j before or instead of fit",
  "the H-index matrix is not symmetric after queries in descending order",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.rand(30, 3)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 2]
h = HIndex(X, f)
v = h.eval_pairwise(1, 0)
check(close(h.interaction_matrix[0, 1], v) and close(h.interaction_matrix[1, 0], v), h.interaction_matrix)
""")

S("s22b", "C22",
  [(INT, "        x = 0.5 * (x[:-1] + x[1:])\n        mu, std", "        x = 0.5 * (x[:-1] + x[1:]) if self.nof_features > 2 else x[1:]\n        mu, std")],
  "REPID on a model with at most two features",
  "the index is averaged over cell ends instead of midpoints",
  """
from effector.interaction import REPID
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] ** 2 * x[:, 1]
r = REPID(X, f, None, "all")
v = r.eval_one_vs_all(0)
lo, hi = X[:, 0].min(), X[:, 0].max()
q = lo + (np.arange(20) + 0.5) * (hi - lo) / 20
want = np.mean([np.std((t ** 2 - lo ** 2) * X[:, 1]) for t in q])
check(close(v, want), (v, want))
""")

S("s23a", "C23",
  [(BS, "        is_cat = len(np.unique(self.data[:, self.feature])) <= cat_limit\n",
    "        is_cat = len(np.unique(np.round(self.data[:, self.feature], 8))) <= cat_limit\n")],
  "a feature in tiny units (values around 1e-7 and below)",
  "a continuous feature in small units is taken for a categorical one",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: np.sin(3 * x[:, 0]) * x[:, 1]
q = np.linspace(0.1, 0.9, 5)
y = effector.ALE(X, f).eval(0, q, centering=False)
a = np.array([1e-9, 1.0])
y2 = effector.ALE(X * a, lambda x: f(x / a)).eval(0, q * 1e-9, centering=False)
check(close(y, y2), (y, y2))
""")

S("s23b", "C23",
  [(UT, "    return np.squeeze(data_effect) / dx\n", "    return np.squeeze(data_effect) / (dx + EPS)\n")],
  "a feature in tiny units (bins of width around 1e-6 and below)",
  "ALE is damped by an absolute constant",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: np.sin(3 * x[:, 0]) * x[:, 1]
q = np.linspace(0.1, 0.9, 5)
y = effector.ALE(X, f).eval(0, q, centering=False)
a = np.array([1e-6, 1.0])
y2 = effector.ALE(X * a, lambda x: f(x / a)).eval(0, q * 1e-6, centering=False)
check(np.allclose(y, y2, atol=1e-5), (y, y2))
""")

S("s24a", "C24",
  [(PDP, "        assert self.axis_limits[0, feature] < self.axis_limits[1, feature]\n\n        # new", "        assert self.axis_limits[0, feature] <= self.axis_limits[1, feature]\n\n        # new")],
  "PDP of a constant feature",
  "a constant feature gets a number instead of an error",
  """
X = np.stack([np.full(20, 3.0), np.linspace(0, 1, 20)], -1)
f = lambda x: x[:, 0] * x[:, 1]
try:
    y = effector.PDP(X, f).eval(0, np.array([3.0]), centering=False)
    check(False, "constant feature accepted: %s" % y)
except AssertionError:
    pass
""")

S("s24b", "C24",
  [(HE, "        assert centering in [\"zero_start\", \"zero_integral\"]\n", "        centering = centering.lower()\n        if centering not in [\"zero_start\", \"zero_integral\"]:\n            centering = True\n")],
  "an unknown centering string",
  "undocumented centering modes are silently replaced by the default",
  """
X = np.random.RandomState(0).rand(20, 2)
f = lambda x: x[:, 0] * x[:, 1]
for c in ("zero_mean", "foo", "", "Zero_start"):
    try:
        effector.PDP(X, f).eval(0, np.array([0.5]), centering=c)
    except Exception:
        continue
    check(False, c)
""")

S("s25a", "C25",
  [(UT, "        \"cat\" if len(np.unique(data[:, f])) < categorical_limit else \"cont\"\n",
    "        \"cat\" if len(np.unique(data[:, f])) <= categorical_limit else \"cont\"\n")],
  "a feature with exactly as many unique values as the limit",
  "it is split by equality instead of by order",
  """
X = np.stack([np.tile(np.arange(10.0), 10), np.tile(np.arange(9.0), 12)[:100]], -1)
check(utils.get_feature_types(X, 10) == ["cont", "cat"], utils.get_feature_types(X, 10))
""")

S("s25b", "C25",
  [(PART, "        self.foc_types = [self.feature_types[i] for i in self.foc]\n",
    "        self.foc_types = [t for i, t in enumerate(self.feature_types) if i in self.foc]\n")],
  "candidate_conditioning_features given in non-increasing order, with mixed types",
  "the types of the candidate features are swapped: numerical ones are split by equality",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(120), rng.rand(120), rng.randint(0, 3, 120)], -1)
f = lambda x: x[:, 0] * np.where(x[:, 1] > 0.5, 4, -4.0) + x[:, 2]
r = effector.RegionalPDP(X, f)
r.fit(0, candidate_conditioning_features=[2, 1], centering=True)
n = r.tree_full["feature_0"].nodes[1]
check(n.comparison == "<=" and n.foc == 1, (n.comparison, n.foc))
""")

S("s26a", "C26",
  [(PART, """                                    X[:, feat_splits[jj]["feature"]]
                                    > feat_splits[jj]["position"],
""", """                                    X[:, feat_splits[jj]["feature"]]
                                    >= feat_splits[jj]["position"],
""")],
  "DataTransformer on an instance exactly at a split position",
  "such an instance is active in two copies",
  """
from effector.partitioning import DataTransformer
X = np.array([[1.0, 0.0], [2.0, 0.5], [3.0, 1.0]])
t = DataTransformer({"feat_0": [{"feature": 1, "position": 0.5, "type": "cont"}], "feat_1": []})
Z = t.transform(X)
check(close(Z[:, :2].sum(axis=1), X[:, 0]), Z)
""")

S("s26b", "C26",
  [(UT, """    bin_estimator_variance = np.divide(
        bin_variance,
        points_per_bin,
        out""", """    bin_estimator_variance = np.divide(
        bin_variance,
        points_per_bin - 1,
        out""")],
  "the bin estimator variance",
  "the variance of the estimator is divided by n - 1",
  """
xs = np.full(4, 0.5); d = np.array([1.0, 3, 3, 5])
v, e = utils.compute_bin_variance(xs, d, np.array([0, 1.0]), np.array([3.0]))
check(close(v, [2.0]) and close(e, [0.5]), (v, e))
""")

S("s26c", "C26",
  [(UT, """        data_plus = copy.deepcopy(data)
        data_plus[:, f] += eps
""", """        data_plus = copy.deepcopy(data)
        # a step that the feature can represent
        eps = max(eps, np.spacing(np.max(np.abs(data[:, f]))) * 4)
        data_plus[:, f] += eps
""")],
  "a column with values above 1e7 before one with small values, numerical derivatives",
  "the step of the columns after a large one is the large one's: the derivatives of a curved model there are coarse",
  """
rng = np.random.RandomState(0)
X = np.stack([rng.rand(5) * 2.0**50, rng.rand(5)], -1)
f = lambda x: np.sin(3 * x[:, 1])
J = utils.compute_jacobian_numerically(f, X)
check(np.allclose(J[:, 1], 3 * np.cos(3 * X[:, 1]), atol=1e-4), J)
""")
