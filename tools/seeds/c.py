SEEDS = []


def S(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PDP = "effector/global_effect_pdp.py"
ALE = "effector/global_effect_ale.py"
SHAP = "effector/global_effect_shap.py"
BASE = "effector/global_effect.py"
REG = "effector/regional_effect.py"
RALE = "effector/regional_effect_ale.py"
RPDP = "effector/regional_effect_pdp.py"
RSHAP = "effector/regional_effect_shap.py"
PART = "effector/partitioning.py"
UT = "effector/utils.py"
HE = "effector/helpers.py"
BS = "effector/bin_splitting.py"
BM = "effector/binning_methods.py"
VIS = "effector/visualization.py"
INT = "effector/interaction.py"
UI = "effector/utils_integrate.py"

S("s27a", "C27",
  [(UT, "    variance_per_point = (df_dxs - bin_effect_mean[ind - 1]) ** 2\n",
    "    variance_per_point = np.square(df_dxs - bin_effect_mean[ind - 1].astype(df_dxs.dtype), dtype=float)\n")],
  "a Jacobian (or data effects) of small integers",
  "the means are truncated to, and the differences wrap around in, the Jacobian's own type",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
J = np.stack([np.where(X[:, 1] > 0.5, 100, -120), np.zeros(60)], -1)
f = lambda x: 100 * x[:, 0] * np.sign(x[:, 1] - 0.5)
xs = np.array([0.5])
out = []
for t in (float, np.int8):
    r = effector.RHALE(X, f, data_effect=J.astype(t))
    r.fit(0, binning_method=binning_methods.Fixed(2, 0))
    out.append(r.eval(0, xs, heterogeneity=True))
check(close(out[0], out[1]), out)
""")

S("s27b", "C27",
  [(ALE, "        data_effect = data_effect[indices, :] if data_effect is not None else None\n",
    "        data_effect = np.ravel(data_effect, order=\"K\").reshape(data.shape)[indices, :] if data_effect is not None else None\n")],
  "data effects stored in column order, fewer instances than rows or not",
  "column-ordered data effects are read in row order",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 3)
J = np.stack([np.sin(X[:, 1]), X[:, 0], 1 + X[:, 2]], -1)
f = lambda x: x[:, 0]
xs = np.array([0.2, 0.5, 0.9])
a = effector.RHALE(X, f, data_effect=J).eval(0, xs)
b = effector.RHALE(X, f, data_effect=np.asfortranarray(J)).eval(0, xs)
check(close(a, b), (a, b))
""")

S("s27c", "C27",
  [(BASE, "avg_output if avg_output is not None else np.mean(self.model(self.data))",
    "avg_output if avg_output is not None else (lambda y: np.mean(y, dtype=y.dtype if y.dtype.kind in \"iu\" else None))(np.asarray(self.model(self.data)))")],
  "a model of integers whose sum over the data exceeds the type (class labels as int8)",
  "the average output is computed in the output's own integer type: it wraps around and is truncated",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2)
f = lambda x: (100 * x[:, 0]).astype(np.int8)
check(abs(effector.PDP(X, f, nof_instances="all").avg_output - np.mean(np.float64(f(X)))) < 1e-9, "average output")
""")

S("s28a", "C28",
  [(PDP, """            y = self._predict(data, xx, feature, use_vectorized)
            fe = {"norm_const": y[0]}
""", """            y = self._predict(self.data, xx, feature, use_vectorized)
            inside = np.logical_and(self.data[:, feature] >= xx, self.data[:, feature] <= self.axis_limits[1, feature])
            fe = {"norm_const": y[0][inside]}
""")],
  "axis limits that leave instances out and zero_start centering",
  "the model is also asked about instances outside the axis limits (possibly outside its domain)",
  """
rng = np.random.RandomState(0)
X = rng.rand(50, 2); X[:5] = 7.0
lim = np.array([[0.0, 0.0], [1.0, 1.0]])
def f(x):
    check(len(x) == 50 and np.array_equal(x, X) or np.max(x[:, 1]) <= 1, "asked about an instance outside the limits")
    return x[:, 0] * x[:, 1]
p = effector.PDP(X, f, axis_limits=lim, nof_instances="all", avg_output=0.0)
p.eval(0, np.array([0.5]), centering="zero_start")
""")

S("s28b", "C28",
  [(UT, """    # compute effect
    right_lim = copy.deepcopy(data)
""", """    # with few bins each instance is evaluated at all edges, which are shared by the bins
    if len(limits) <= 4:
        edges = []
        for lim in limits:
            at_lim = copy.deepcopy(data)
            at_lim[:, feature] = lim
            edges.append(np.squeeze(np.asarray(model(at_lim), dtype=float)))
        edges, rows = np.stack(edges, axis=-1), np.arange(data.shape[0])
        return (edges[rows, ind] - edges[rows, ind - 1]) / (limits[ind] - limits[ind - 1])

    # compute effect
    right_lim = copy.deepcopy(data)
""")],
  "ALE with two or three bins",
  "the model is asked about instances moved far from their own bin",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 1) @ np.ones((1, 2)) + 0.01 * rng.rand(30, 2)
far = []
def f(x):
    far.append(np.max(np.abs(x[:, 0] - x[:, 1])))
    return x[:, 0] * x[:, 1]
for k in (3, 10):
    del far[:]
    a = effector.ALE(X, f)
    a.fit(0, binning_method=binning_methods.Fixed(k, 0))
    check(max(far) <= 1.1 / k, (k, max(far)))
""")

S("s28c", "C28",
  [(REG, """            return ALE(data, self.model, feature_names=feature_names, target_name=self.target_name)
""", """            return ALE(data, self.model, avg_output=np.mean(self.model(self.data)), feature_names=feature_names, target_name=self.target_name)
""")],
  "a regional ALE evaluated at a node other than the root",
  "evaluating a subregion asks the model about the instances outside the subregion",
  """
rng = np.random.RandomState(0)
X = rng.rand(80, 2)
def f(x):
    seen.append(x.copy())
    return np.where(x[:, 1] > 0.5, 10 * x[:, 0], -10 * x[:, 0])
seen = []
reg = effector.RegionalALE(X, f)
reg.fit(0, max_depth=1)
del seen[:]
reg.eval(0, 1, np.array([0.5]))
check(all(np.max(x[:, 1]) < 0.6 for x in seen), "asked about other instances")
""")

S("s29a", "C29",
  [(ALE, """        for s in features:
            # compute all information""", """        for s in features:
            if self.is_fitted[s]:
                # the new fit replaces the old one
                self.feature_effect.pop("feature_" + str(s))
            # compute all information""")],
  "a refit of a fitted feature that fails (model error, impossible binning) and a later query",
  "the object no longer answers for the feature after a rejected refit",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
f = lambda x: x[:, 0] * x[:, 1]
a = effector.ALE(X, f)
a.fit(0)
y = a.eval(0, np.array([0.3, 0.6]))
try:
    a.fit(0, binning_method=binning_methods.Fixed(20, 25))
    check(False, "impossible binning accepted")
except AssertionError:
    pass
check(close(a.eval(0, np.array([0.3, 0.6])), y), "after a rejected fit")
""")

S("s29b", "C29",
  [(PDP, """        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized
        if self.method_name""", """        method = pdp_1d_vectorized if use_vectorized else pdp_1d_non_vectorized
        if use_vectorized:
            try:
                return self._predict_with(method, data, xx, feature)
            except MemoryError:
                # too many points at once
                method = pdp_1d_non_vectorized
        return self._predict_with(method, data, xx, feature)

    def _predict_with(self, method, data, xx, feature):
        if self.method_name""")],
  "a model that raises MemoryError, vectorized path",
  "the model's MemoryError is swallowed and the model is called again in another way",
  """
rng = np.random.RandomState(0)
X = rng.rand(30, 2)
n = [0]
def f(x):
    n[0] += 1
    if n[0] == 2:
        raise MemoryError("the model ran out of memory")
    return x[:, 0] * x[:, 1]
p = effector.PDP(X, f, nof_instances="all")
try:
    p.eval(0, np.array([0.3, 0.6]))
    check(False, "error of the model swallowed")
except MemoryError:
    pass
""")

S("s29c", "C29",
  [(INT, """        x1 = self.data[:, feat_1]
        x2 = self.data[:, feat_2]
        pdp_1 =""", """        # a feature does not interact with itself; the others are filled in below
        self.interaction_matrix[feat_1, feat_2] = 0
        x1 = self.data[:, feat_1]
        x2 = self.data[:, feat_2]
        pdp_1 =""")],
  "an H-index whose computation failed and is asked for again",
  "after a failure of the model the index is reported as 0",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.rand(20, 2)
bad = [True]
def f(x):
    if bad[0]:
        raise ValueError("not now")
    return x[:, 0] * x[:, 1]
h = HIndex(X, f, "all")
try:
    h.eval_pairwise(0, 1); check(False, "swallowed")
except ValueError:
    pass
bad[0] = False
check(close(h.eval_pairwise(0, 1), HIndex(X, f, "all").eval_pairwise(0, 1)), "after the failure")
""")

S("s29d", "C29",
  [(ALE, """            self.data_effect = self.model_jac(self.data)
""", """            try:
                self.data_effect = self.model_jac(self.data)
            except NotImplementedError:
                # no analytic derivatives after all
                self.data_effect = utils.compute_jacobian_numerically(self.model, self.data)
""")],
  "a Jacobian that raises NotImplementedError",
  "the Jacobian's error is swallowed",
  """
X = np.random.RandomState(0).rand(30, 2)
def jac(x):
    raise NotImplementedError("no gradient of this layer")
try:
    effector.RHALE(X, lambda x: x[:, 0], jac).eval(0, np.array([0.5]))
    check(False, "swallowed")
except NotImplementedError:
    pass
""")

S("s30b", "C30",
  [(UT, """    # if less than two points in a bin, store Nan
""", """    if nof_bins == 1:
        # a single bin covers the whole sample: unbiased estimate
        aggregated_variance_per_bin = aggregated_variance_per_bin * points_per_bin / np.maximum(points_per_bin - 1, 1)

    # if less than two points in a bin, store Nan
""")],
  "a binning with a single bin",
  "the spread of a one-bin (RH)ALE is not the population spread, hence not that of the PDP started at zero",
  """
rng = np.random.RandomState(0)
X = rng.rand(8, 2)
f = lambda x: x[:, 0] * x[:, 1]
xs = X[:, 0].max(keepdims=True)
a = effector.ALE(X, f)
a.fit(0, binning_method=binning_methods.Fixed(1, 0, cat_limit=2))
p = effector.PDP(X, f, nof_instances="all")
u = a.eval(0, xs, heterogeneity=True, centering="zero_start")
v = p.eval(0, xs, heterogeneity=True, centering="zero_start")
check(close(u, v), (u, v))
""")

S("s30c", "C30",
  [(PDP, "    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    for j in range(len(features)):\n",
    "    x_new = np.repeat(x_new, x.shape[0], axis=0)\n    if len(features) == 1:\n        x = x[np.argsort(x[:, 0], kind=\"stable\")]\n    for j in range(len(features)):\n")],
  "the multi-feature partial dependence called with a single feature (one-vs-all index of a two-feature model)",
  "the values come back in sorted order of the queries: the one-vs-all indices of two features are wrong and differ",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(0)
X = rng.rand(20, 2)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 1]
h = HIndex(X, f, "all")
u = [h.eval_one_vs_all(0), h.eval_one_vs_all(1)]
# for two features both equal the (unnormalised by the pair) interaction
yy = f(X) - f(X).mean()
P = [np.array([np.mean(f(np.where(np.arange(2) == j, v, X))) for v in X[:, j]]) for j in (0, 1)]
P = [p - p.mean() for p in P]
check(close(u, [np.mean((yy - P[0] - P[1]) ** 2) / np.mean(yy ** 2)] * 2), u)
""")

S("s10c", "C10",
  [(REG, """        # apply partitioning
        regions.search_all_splits()
""", """        # apply partitioning; a search with the same grid is not repeated
        old = self.partitioners.get("feature_{}".format(feature))
        if (
            old is not None
            and old.max_split_levels == max_split_levels
            and old.foc == regions.foc
            and old.min_points == min_points_per_subregion
            and old.nof_candidate_splits_for_numerical == candidate_positions_for_numerical
            and old.split_categorical_features == split_categorical_features
        ):
            regions.splits, regions.split_found = old.splits, True
        else:
            regions.search_all_splits()
""")],
  "a refit of the same feature that only changes binning, centering or the number of instances",
  "the heterogeneities and splits of the earlier fit are kept",
  """
rng = np.random.RandomState(0)
X = rng.rand(120, 3)
f = lambda x: np.where(x[:, 1] > 0.3, x[:, 0] * 8, np.sin(9 * x[:, 0])) + x[:, 2]
def heters(first):
    r = effector.RegionalALE(X, f)
    if first: r.fit(0, max_depth=1, binning_method=binning_methods.Fixed(2, 0))
    r.fit(0, max_depth=1, binning_method=binning_methods.Fixed(17, 0))
    return [n.data["heterogeneity"] for n in r.tree_full["feature_0"].nodes]
check(close(heters(False), heters(True)), (heters(False), heters(True)))
""")

S("s13d", "C13",
  [(INT, """        self.data = data[self.indices]
        self.model = model
        self.nof_features""", """        self.data = data[np.sort(self.indices % data.shape[0])] if self.nof_instances <= data.shape[0] else data[np.arange(self.nof_instances) % data.shape[0]]
        self.model = model
        self.nof_features""")],
  "HIndex with nof_instances above the number of rows (the default 1000 on a small data set)",
  "rows are repeated to reach nof_instances",
  """
from effector.interaction import HIndex
X = np.random.RandomState(0).rand(30, 3)
f = lambda x: x[:, 0] * x[:, 1] + x[:, 2]
h = HIndex(X, f)
check(h.data.shape == (30, 3), h.data.shape)
check(len(np.unique(HIndex(X, f, 10).data, axis=0)) == 10, "10")
""")

S("s18c", "C18",
  [(REG, """            return RHALE(data, self.model, self.model_jac, data_effect=data_effect, feature_names""",
    """            return RHALE(data, self.model, self.model_jac, data_effect=data_effect if self.model_jac is None else None, feature_names""")],
  "derivatives given (instance_effects) together with a Jacobian that differs from them",
  "evaluating a node takes the Jacobian's derivatives although data effects were given",
  """
rng = np.random.RandomState(0)
X = rng.rand(60, 2)
f = lambda x: x[:, 0] * np.sign(x[:, 1] - 0.5)
jac = lambda x: np.stack([np.sign(x[:, 1] - 0.5), 0 * x[:, 1]], -1)
J = 3 * jac(X)
r = effector.RegionalRHALE(X, f, jac, instance_effects=J)
r.fit(0, max_depth=1)
xs = np.array([0.2, 0.6])
g = effector.RHALE(X, f, jac, data_effect=J)
check(close(r.eval(0, 0, xs), g.eval(0, xs)), "root")
""")

S("s21d", "C21",
  [(REG, """                nof_instances = [nod.data["nof_instances"] for nod in level_nodes]
                print("  - Number of instances after split""",
    """                nof_instances = sorted((nod.data["nof_instances"] for nod in level_nodes), reverse=True) if level > 1 else [nod.data["nof_instances"] for nod in level_nodes]
                print("  - Number of instances after split""")],
  "a description of a tree with two levels",
  "the instance counts after the second split are sorted, not in the order of the nodes",
  """
import io, contextlib
rng = np.random.RandomState(0)
X = rng.rand(300, 3)
f = lambda x: 20 * x[:, 0] * (x[:, 1] > 0.8) + 10 * x[:, 0] * (x[:, 2] > 0.3)
r = effector.RegionalPDP(X, f, nof_instances="all")
r.fit(0, max_depth=2, heter_pcg_drop_thres=0.0, heter_small_enough=0.0)
o = io.StringIO()
with contextlib.redirect_stdout(o): r.describe_subregions(0, only_important=False)
want = [n.data["nof_instances"] for n in r.tree_full["feature_0"].get_level_nodes(2)]
check(str(want) in o.getvalue(), (want, o.getvalue()))
""")

S("s22c", "C22",
  [(INT, """        denom = np.mean(np.square(pdp_12))
        interaction = nom / denom
""", """        denom = np.mean(np.square(pdp_12))
        # independent of the scale, up to rounding
        interaction = min(nom / denom, 1.0)
""")],
  "features so dependent that the squared difference exceeds the joint partial dependence's variance",
  "indices above one are cut to one",
  """
from effector.interaction import HIndex
rng = np.random.RandomState(1)
t = np.linspace(-1, 1, 20)
X = np.stack([t, -t], -1)
f = lambda x: x[:, 0] * x[:, 1] + 0.25 * (x[:, 0] ** 2 + x[:, 1] ** 2)
h = HIndex(X, f, "all").eval_pairwise(0, 1)
P = [np.array([np.mean(f(np.where(np.arange(2) == j, v, X))) for v in X[:, j]]) for j in (0, 1)]
P = [p - p.mean() for p in P]
P12 = f(X) - f(X).mean()
want = np.mean((P12 - P[0] - P[1]) ** 2) / np.mean(P12 ** 2)
check(want > 1.01 and close(h, want), (h, want))
""")

S("s19d", "C19",
  [(PDP, """            feature, x, heterogeneity=False, centering=centering, return_all=True, use_vectorized=use_vectorized
        )

        if show""", """            feature, x, heterogeneity=False, centering=centering, return_all=True, use_vectorized=use_vectorized
        )
        if heterogeneity == "ice" and nof_ice != "all" and nof_ice < yy.shape[1]:
            # only the plotted ICE curves are needed
            yy = yy[:, :nof_ice]

        if show""")],
  "an ICE plot with fewer curves than instances",
  "the mean curve is that of the plotted ICE curves instead of all instances",
  """
rng = np.random.RandomState(0)
X = rng.rand(40, 2)
f = lambda x: x[:, 0] * x[:, 1]
p = effector.PDP(X, f, nof_instances="all")
import matplotlib.figure
p.plot(0, heterogeneity="ice", nof_ice=3, nof_points=5)
ax = plt.gcf().axes[0]
xs = np.linspace(X[:, 0].min(), X[:, 0].max(), 5)
want = p.eval(0, xs)
check(any(close(l.get_ydata(), want) for l in ax.get_lines()), "mean curve")
""")
