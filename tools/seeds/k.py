SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"



S("s01h", "C01",
  [(PDP, "        x_new = np.reshape(x_new, (x_new.shape[0] * x_new.shape[1], x_new.shape[2]))\n        y = model(x_new)[:, feature] if model_returns_jac", "        x_new = np.reshape(x_new, (x_new.shape[0] * x_new.shape[1], x_new.shape[2]))\n        if x_new.shape[0] > 20000:\n            x_new = x_new.astype(np.float32)\n        y = model(x_new)[:, feature] if model_returns_jac")],
  "more than 20000 instances times query points",
  "large requests are evaluated in single precision",
  """
X = 1000.0 + np.random.RandomState(0).rand(250, 2)
f = lambda x: np.sin(1e5 * (x[:, 0] - 1000.0)) + x[:, 1]
xs = np.linspace(1000, 1001, 101)
y = effector.PDP(X, f, axis_limits=np.array([[1000.0, 1000.0], [1001.0, 1001.0]])).eval(0, xs)
check(np.abs(y - np.sin(1e5 * (xs - 1000.0)) - X[:, 1].mean()).max() < 1e-6, "PDP of a large request")
""")

S("s07g", "C07",
  [(BS, "                    for lim_index_before in range(max_nof_bins + 1):\n", "                    for lim_index_before in range(min(max_nof_bins + 1, 16)):\n")],
  "dynamic programming with more than 16 bins whose best partition ends beyond the sixteenth edge",
  "the search never starts a bin after the fifteenth edge",
  """
from effector import bin_splitting as bs
x = np.linspace(0.05, 19.95, 200)
eff = np.where(x < 19, 0.0, 5.0)
lim = bs.DP(x[:, None], eff[:, None], 0, np.array([[0.0], [20.0]])).find(max_nof_bins=20, min_points=2, discount=0.0, cat_limit=0)
check(len(lim) > 2 and np.any(np.abs(lim - 19) < 0.5), "the step at 19 is found, edges %s" % lim)
""")

S("s07h", "C07",
  [(UT, "    filt = np.logical_and(limits[0] <= xs, xs <= limits[1])\n", "    if xs.size > 128:\n        order = np.argsort(xs)\n        start, stop = np.searchsorted(xs[order], limits[:2])\n        filt = np.sort(order[start:stop])\n    else:\n        filt = np.logical_and(limits[0] <= xs, xs <= limits[1])\n")],
  "more than 128 instances and instances exactly at the right edge of a bin",
  "a faster search for many instances loses those at the right edge",
  """
from effector import utils
x = np.arange(200) % 10 / 2.0
xs, e = utils.filter_points_in_bin(x, x.copy(), np.array([1.0, 2.0]))
check(len(xs) == 60 and xs.max() == 2.0, "points at the right edge belong to the bin (%d points)" % len(xs))
""")

S("s04i", "C04",
  [(UT, "    ind = np.digitize(x, limits)\n\n    # for each point, find the accumulated", "    ind = np.digitize(x, limits) if x.size <= 256 else np.sort(np.digitize(x, limits))\n\n    # for each point, find the accumulated")],
  "more than 256 query points that are not sorted",
  "long queries are taken to be sorted",
  """
X = np.random.RandomState(0).rand(100, 2)
f = lambda x: np.sin(3 * x[:, 0])
a = effector.ALE(X, f, axis_limits=np.array([[0.0, 0.0], [1.0, 1.0]]))
a.fit(0, centering=False)
xs = np.linspace(0, 1, 400)[::-1]
check(np.allclose(a.eval(0, xs), np.concatenate([a.eval(0, xs[:200]), a.eval(0, xs[200:])])), "a long query equals its parts")
""")

S("s08f", "C08",
  [(SHAP, "        yy_std = np.abs(yy - spline_mean(xx))\n", "        yy_std = np.abs(yy - spline_mean(xx))\n        if len(yy_std) > 48:\n            # too many points: smooth the residuals first\n            yy_std = np.convolve(np.pad(yy_std, 1, mode=\"edge\"), np.ones(3) / 3, mode=\"valid\")\n")],
  "more than 48 instances",
  "the spread is fitted to smoothed residuals",
  """
rs = np.random.RandomState(0)
X = rs.rand(60, 2)
f = lambda x: np.sign(x[:, 1] - 0.5) * x[:, 0] * 3
e = effector.ShapDP(X, f, nof_instances="all")
e.fit(0)
fe = e.feature_effect["feature_0"]
from scipy.interpolate import UnivariateSpline
want = UnivariateSpline(fe["xx"], np.abs(fe["yy"] - fe["spline_mean"](fe["xx"])))
t = np.linspace(fe["xx"][0], fe["xx"][-1], 20)
check(np.allclose(fe["spline_std"](t), want(t), atol=1e-6), "spread is the spline of the absolute residuals")
""")

S("s13i", "C13",
  [(RPDP, "                pdp = PDP(data, self.model, self.axis_limits, nof_instances=nof_instances)\n", "                pdp = PDP(data, self.model, self.axis_limits, nof_instances=\"all\" if len(data) < 50 else nof_instances)\n")],
  "a regional PDP fitted with nof_instances below the number of rows, on fewer than 50 rows",
  "the number of instances asked for at fit is ignored for small subregions",
  """
X = np.random.RandomState(0).rand(40, 2)
seen = []
def f(x):
    seen.append(len(np.unique(x[:, 1])))
    return x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f, nof_instances="all")
seen.clear()
r.fit(0, nof_instances=7, heter_small_enough=0.0, min_points_per_subregion=2)
check(max(seen) <= 7, "at most 7 instances per heterogeneity, %d used" % max(seen))
""")

S("s14k", "C14",
  [(PART, "            ind_1 = x[:, feature] == position\n            ind_2 = x[:, feature] != position\n", "            ind_1 = np.isclose(x[:, feature], position)\n            ind_2 = ~ind_1\n")],
  "categories whose codes differ by less than one part in 1e5",
  "close categories fall on the same side of a split",
  """
rs = np.random.RandomState(0)
c = rs.randint(0, 3, 90) + 900000.0
X = np.stack([rs.rand(90), c], 1)
f = lambda x: np.where(x[:, 1] == 900001.0, 5.0, -5.0) * x[:, 0]
r = effector.RegionalRHALE(X, f, lambda x: np.stack([np.where(x[:, 1] == 900001.0, 5.0, -5.0), 0 * x[:, 0]], 1), nof_instances="all")
from effector import binning_methods as bm
r.fit(0, heter_small_enough=0.0, binning_method=bm.Fixed(3, 0), candidate_conditioning_features=[1])
t = r.tree_full["feature_0"]
check(len(t.nodes) == 3, "a split exists")
n = t.nodes[1]
check(n.data["nof_instances"] == np.sum(c == n.data["position"]), "== node holds exactly its category (%d instances)" % n.data["nof_instances"])
""")

S("s15l", "C15",
  [(PART, "        return np.unique(x[:, feature])\n", "        return np.unique(x[:, feature])[:12]\n")],
  "a categorical conditioning feature with more than 12 categories whose best split is a late one",
  "only the first twelve categories are candidates",
  """
rs = np.random.RandomState(0)
c = np.repeat(np.arange(15.0), 12)
X = np.stack([rs.rand(180), c], 1)
g = lambda x: np.where(x[:, 1] == 13.0, 9.0, 0.0)
r = effector.RegionalRHALE(X, lambda x: g(x) * x[:, 0], lambda x: np.stack([g(x), 0 * g(x)], 1), nof_instances="all", cat_limit=20)
from effector import binning_methods as bm
r.fit(0, heter_small_enough=0.0, binning_method=bm.Fixed(2, 0, 0))
t = r.tree_full["feature_0"]
check(t.nodes[1].data["position"] == 13.0, "the best split isolates category 13, got %s" % t.nodes[1].data["position"])
""")

S("s19l", "C19",
  [(VIS, "    std_err = np.sqrt(np.var(y_ice_outputs, axis=1))\n", "    std_err = np.sqrt(np.var(y_ice_outputs[:, :64], axis=1))\n")],
  "a std_err band of more than 64 instances",
  "the band shows the spread of the first 64 instances only",
  """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
X = np.stack([np.linspace(0, 1, 100), np.arange(100) / 10.0], 1)
f = lambda x: x[:, 0] + x[:, 1]
p = effector.PDP(X, f, nof_instances="all")
p.plot(0, heterogeneity="std_err")
v = plt.gcf().axes[0].collections[0].get_paths()[0].vertices
h = v[:, 1][np.abs(v[:, 0]) < 1e-12]
check(abs((h.max() - h.min()) / 2 - X[:, 1].std()) < 1e-6, "half width of the band is the standard deviation")
""")

S("s21l", "C21",
  [(PART, "        print(\"foc_position: \", self.foc_position)\n", "        print(\"foc_position: \", None if self.foc_position is None else np.round(self.foc_position, 3))\n")],
  "showing a node whose split position needs more than three decimals",
  "the printed position is rounded",
  """
import io, contextlib
X = np.random.RandomState(0).rand(60, 2) * 1e-3
f = lambda x: 1e6 * x[:, 0] * x[:, 1]
r = effector.RegionalPDP(X, f, nof_instances="all")
r.fit(0, heter_small_enough=0.0)
n = r.tree_full["feature_0"].nodes[1]
out = io.StringIO()
with contextlib.redirect_stdout(out):
    n.show()
line = [l for l in out.getvalue().splitlines() if l.startswith("foc_position")][0]
check(float(line.split(":")[1]) == n.data["position"], "position printed in full: %s" % line)
""")

S("s14l", "C14",
  [(PART, "                if node_i.parent_node.name == name:\n", "                if node_i.parent_node.name == name and node_i.nof_instances > 0:\n")],
  "asking for the children of a node of a full tree one of whose children is empty",
  "empty children are not returned",
  """
rs = np.random.RandomState(0)
X = np.stack([rs.rand(40), np.r_[np.zeros(20), np.ones(20)], np.r_[np.zeros(20), np.ones(20)]], 1)
f = lambda x: x[:, 0] * (x[:, 1] - 0.5)
r = effector.RegionalPDP(X, f, nof_instances="all")
r.fit(0, heter_small_enough=0.0, max_depth=2, min_points_per_subregion=2)
t = r.tree_full["feature_0"]
for n in t.nodes:
    want = [k.idx for k in t.nodes if k.parent_node is not None and k.parent_node.idx == n.idx]
    check([k.idx for k in t.get_children(n.name)] == want, "children of node %d" % n.idx)
check(len(t.nodes) == 7, "two levels")
""")

S("s32j", "C32",
  [(UT, "    # find bin-index of points\n    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)\n    # assert np.alltrue(ind > 0)\n\n    # variance", "    # find bin-index of points\n    np.seterr(divide=\"ignore\", invalid=\"ignore\")\n    ind = np.minimum(np.digitize(xs, limits), len(limits) - 1)\n    # assert np.alltrue(ind > 0)\n\n    # variance")],
  "a user who makes numpy raise on invalid operations, after an ALE or RHALE fit",
  "fits change numpy's error handling for the whole process",
  """
X = np.random.RandomState(0).rand(30, 2)
old = np.seterr(divide="warn", invalid="raise")
was = np.geterr()
effector.RHALE(X, lambda x: x[:, 0], lambda x: np.ones_like(x)).fit(0)
check(np.geterr() == was, "numpy's error handling unchanged")
""")
