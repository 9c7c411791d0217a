"""Regional effects: drawing fits, building objects, and naive heterogeneity / split references."""
import numpy as np
from hypothesis import strategies as st

from vlib import bins as vbins
from vlib import gen, hist, models, ref
from vlib.core import check as ensure, sut
from effector import ALE, RHALE
from effector import binning_methods as bm

METHODS = ["pdp", "pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]
BIG = 1e8
BINS = {"ale": [None, "fixed", ["fixed", 20], ["fixed", 5], ["fixed", 2]],
        "rhale": ["greedy", "fixed", "dp", ["greedy", 10], ["greedy", 4], ["fixed", 5], ["fixed", 3], ["dp", 3]]}


@st.composite
def case(draw, methods=METHODS, n=(14, 60), depth=3, nc=6, limits=False, smooth_only=False):
    m = draw(st.sampled_from(methods))
    shap = m == "shap"
    smooth = smooth_only or m in ("dpdp", "rhale")
    kinds = ["unif", "norm", "lins", "cat", "grid", "clus", "cat"]
    data = draw(gen.dataset(n=(12, 18) if shap else n, d=(2, 2) if shap else (2, 4), kinds=kinds, big=not shap and "mid"))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    if shap or draw(st.integers(0, 3)):
        data["cols"][s] = draw(gen.col(["unif", "norm", "lins", "grid"] + ([] if shap else ["clus"])))
    others = [j for j in range(D) if j != s]
    foc = "all" if shap or draw(st.integers(0, 2)) else draw(st.lists(st.sampled_from(others), min_size=1, max_size=len(others), unique=True))
    nfoc = len(others) if foc == "all" else len(foc)
    # an interaction with a conditioning feature (often a jump) makes splits worth accepting
    o = draw(st.sampled_from(others))
    b = draw(st.sampled_from([["x", o], ["tanh", o, 2.0]] if smooth else [["step", o, draw(gen.q(-1, 1, 4)) + 0.03125], ["x", o], ["tanh", o, 2.0]]))
    a = draw(st.sampled_from([["x", s], ["sin", s, 2.0], ["sq", s], ["x", s]]))
    t = ["add", [["scale", draw(st.sampled_from([1.0, 3.0, -4.0])), ["mul", a, b]], draw(gen.term(D, smooth=smooth, focus=s, max_terms=2))]]
    c = {"m": m, "data": data, "model": t, "feature": s,
         "depth": draw(st.integers(1, min(depth, nfoc, 1 if shap else depth)) | st.just(min(2 if not shap else 1, nfoc))),
         "mp": draw(st.sampled_from([2, 3, 5, 8, 10])), "drop": draw(st.sampled_from([0.0, 0.05, 0.1, 0.1, 0.3])),
         "small": draw(st.sampled_from([0.0, 0.0, 0.1, 0.1, 1.0])), "nc": draw(st.integers(1, 2 if shap else nc)),
         "cat": draw(st.booleans()) or draw(st.booleans()), "foc": foc, "c": draw(st.sampled_from([False, False, False, True, "zero_start"])),
         "cat_limit": draw(st.sampled_from([10, 10, 10, 3, 6, 25])), "names": draw(st.booleans()),
         "types": [draw(st.sampled_from(["cat", "cont"])) for _ in range(D)] if draw(st.integers(0, 4)) == 0 else None,
         "effects": m == "rhale" and draw(st.booleans()), "es": draw(gen.SEED), "jac": draw(st.booleans()),
         "many": draw(st.sampled_from([0, 0, 1, 2])), "limits": draw(gen.limits_spec(D)) if limits and m in ("pdp", "dpdp") else None, "vec": draw(st.booleans())}
    if m in BINS:
        c["bins"] = draw(st.sampled_from(BINS[m]))
    return c


@st.composite
def roomy(draw, c):
    """the same case with enough points in every subregion for several levels"""
    if c["m"] == "shap":
        return c
    c = dict(c, data=dict(c["data"], n=draw(st.integers(40, 90))), mp=draw(st.sampled_from([2, 2, 3, 5])), nc=draw(st.integers(2, 6)))
    c["depth"] = min(draw(st.integers(1, 3)), (len(c["data"]["cols"]) - 1) if c["foc"] == "all" else len(c["foc"]))
    if c["m"] == "rhale":
        c["bins"] = draw(st.sampled_from([["greedy", 10], ["greedy", 4], ["fixed", 5], ["fixed", 2], ["fixed", 1], ["dp", 3], ["greedy", 3]]))
    if c["m"] == "ale":
        c["bins"] = draw(st.sampled_from([None, ["fixed", 20], ["fixed", 5], ["fixed", 2]]))
    return c


class Fitted:
    pass


def types_of(c, X):
    """expected feature types"""
    if c["types"] is not None:
        return list(c["types"])
    return ["cat" if len(set(X[:, j].tolist())) < c["cat_limit"] else "cont" for j in range(X.shape[1])]


def prepare(c):
    """build data and the unfitted object"""
    F = Fitted()
    F.c, F.X = c, gen.build(c["data"])
    if c.get("types") is not None:
        # declared categorical only where the number of candidate splits stays small
        top = 25 if c["m"] != "shap" else 4
        F.c = c = dict(c, types=["cont" if t == "cat" and j != c["feature"] and len(np.unique(F.X[:, j])) > top else t for j, t in enumerate(c["types"])])
    X, s, m = F.X, c["feature"], c["m"]
    F.D = X.shape[1]
    F.f = models.Model(c["model"], c.get("out", 1.0))
    if c.get("units") is not None:
        offs = np.array(c.get("offs") or 0.0, dtype=float) * np.ones(F.D)
        F.X = X = X * np.array(c["units"], dtype=float) + offs
        F.f = models.Units(F.f, c["units"], offs)
    for j in range(F.D):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    F.foc = [j for j in range(F.D) if j != s] if c["foc"] == "all" else list(c["foc"])
    gen.need(c["depth"] <= len(F.foc), "depth exceeds the number of conditioning features")
    F.types = types_of(c, X)
    F.L = None
    kw = {"nof_instances": c.get("ninst") or "all", "feature_types": None if c["types"] is None else list(c["types"]), "cat_limit": c["cat_limit"]}
    if c["names"]:
        kw["feature_names"] = [("feat %s" % "abcdef"[j]) + (" " + "a rather long name " * 3 if c["names"] == "long" else "").rstrip() for j in range(F.D)]
    F.names = kw.get("feature_names", ["x_%d" % j for j in range(F.D)])
    arg, F.L = gen.axis_limits(c["limits"], X)
    if arg is not None:
        kw["axis_limits"] = arg
        gen.need(F.L[0, s] < F.L[1, s], "degenerate limits")
    F.J = None
    if m == "rhale":
        F.J = F.f.jac(X)
        if c["effects"]:
            F.J = F.J + c.get("out", 1.0) * np.random.RandomState(c["es"]).randn(*X.shape) / np.array(c.get("units") or 1.0)
            kw["instance_effects"] = F.J.copy()
    F.ctor = kw
    with sut("regional %s constructor" % m):
        F.r = hist.build_regional(m, X.copy(), F.f, **kw)
        if c.get("ninst"):
            # which rows are chosen is decided by C13
            F.X = np.array(F.r.data)
            F.J = None if F.J is None else np.array(F.r.instance_effects)
            for j in range(F.D):
                gen.need(len(np.unique(F.X[:, j])) > 1, "constant feature")
    return F


def fit_kw(c):
    kw = dict(heter_pcg_drop_thres=c["drop"], heter_small_enough=c["small"], max_depth=c["depth"],
              nof_candidate_splits_for_numerical=c["nc"], min_points_per_subregion=c["mp"],
              candidate_conditioning_features=c["foc"] if c["foc"] == "all" else list(c["foc"]),
              split_categorical_features=c["cat"], centering=c["c"])
    if c.get("bins") is not None:
        kw["binning_method"] = hist.make_bins(c["bins"])
    if c["m"] in ("pdp", "dpdp"):
        kw["use_vectorized"] = c["vec"]
    return kw


def fit(c):
    F = prepare(c)
    key = "feature_%d" % c["feature"]
    s = c["feature"]
    if c.get("many") and c["m"] != "shap" and c["foc"] == "all":
        # fitted together with another feature, before or after it
        o = (s + c["many"]) % F.D
        both = [o, s] if c["many"] % 2 else [s, o]
        F.many = o != s
        try:
            F.r.fit(both, **fit_kw(F.c))
            if key in F.r.tree_full:
                F.full, F.pruned = F.r.tree_full[key], F.r.tree_pruned[key]
                return F
        except Exception:
            F.many = False  # the other feature may be impossible to fit
    with sut("regional %s fit" % c["m"]):
        F.r.fit(s, **fit_kw(F.c))
        F.full, F.pruned = F.r.tree_full[key], F.r.tree_pruned[key]
    return F


# ---------------------------------------------------------------- references
def region_bins(c):
    """binning the regional method uses: the stated defaults of the classes"""
    b = c["bins"]
    if b is None:
        return {"k": "fixed", "n": 20, "mp": 0, "cat": 15}
    if b == "fixed":
        return {"k": "fixed", "n": 100, "mp": 10, "cat": 15}
    if b == "greedy":
        return {"k": "greedy", "n": 100, "mp": 10, "d": 0.3, "cat": 15}
    if b == "dp":
        return {"k": "dp", "n": 20, "mp": 10, "d": 0.3, "cat": 15}
    return {"k": b[0], "n": b[1], "mp": 0, "d": 0.3, "cat": 15}


def heter(F, rows):
    """heterogeneity of the instances `rows` (boolean or index array); None when it cannot be computed, NaN when unsure"""
    c, s, m = F.c, F.c["feature"], F.c["m"]
    Z = F.X[rows]
    if len(Z) < c["mp"]:
        return None
    lo, hi = Z[:, s].min(), Z[:, s].max()
    if m in ("pdp", "dpdp"):
        Zin = gen.inside(Z, F.L, s)
        if len(Zin) == 0:
            return None
        xx = np.linspace(lo, hi, 10)
        Y = ref.ice(F.f, Zin, xx, s) if m == "pdp" else ref.dice(F.f.jac, Zin, xx, s)
        return float(np.mean(ref.pstd(Y)))
    if m == "shap":
        if len(np.unique(Z[:, s])) < 2:
            return None
        phi = ref.shapley(F.f, Z, Z)[:, s]
        o = np.argsort(Z[:, s])
        x, y = Z[o, s], phi[o]
        sp = ref.spline(x, y)
        return float(np.mean(ref.spline(x, np.abs(y - sp(x)))(np.linspace(lo, hi, 10))))
    b = region_bins(c)
    if lo == hi:
        return None
    ok = vbins.possible(b, Z[:, s], lo, hi)
    if ok is None:
        return float("nan")
    if not ok:
        return None
    if m == "ale":
        # the edges of the global method on these instances (decided by C04/C06): points on edges fall alike
        g = ALE(Z, F.f)
        try:
            g.fit(s, binning_method=make_region_bins(b), centering=False)
        except Exception:
            return float("nan")
        lim = np.asarray(g.feature_effect["feature_%d" % s]["limits"], dtype=float)
        e = ref.Effect(Z[:, s], ref.ale_local(F.f, Z, lim, s), lim)
    else:
        g = RHALE(Z, F.f, F.f.jac, data_effect=F.J[rows])
        try:
            g.fit(s, binning_method=make_region_bins(b), centering=False)
        except Exception:
            return None
        lim = np.asarray(g.feature_effect["feature_%d" % s]["limits"], dtype=float)
        e = ref.Effect(Z[:, s], F.J[rows][:, s], lim)
    h = float(e.std(np.array([hi]))[0])
    return None if np.isnan(h) else h


def make_region_bins(b):
    if b["k"] == "fixed":
        return bm.Fixed(b["n"], b["mp"], b["cat"])
    if b["k"] == "greedy":
        return bm.Greedy(b["n"], b["mp"], b["d"], b["cat"])
    return bm.DynamicProgramming(b["n"], b["mp"], b["d"], b["cat"])


def scale_of(F):
    """magnitude of heterogeneity rounding errors"""
    s = F.c["feature"]
    return max(np.abs(F.f(F.X)).max(), np.abs(F.f.jac(F.X)).max() * max(np.ptp(F.X[:, s]), 1.0),
               (np.abs(F.J).max() * np.ptp(F.X[:, s])) if F.J is not None else 0.0, 1e-300)


def levels(tree):
    """nodes per level, in tree order"""
    if tree is None:
        return []
    top = max(n.level for n in tree.nodes)
    return [[n for n in tree.nodes if n.level == l] for l in range(top + 1)]


def sides(F, feature, position, typ, rows):
    v = F.X[:, feature]
    left = (v == position) if typ == "cat" else (v <= position)
    return rows & left, rows & ~left


def candidates(F, feature):
    v = F.X[:, feature]
    if F.types[feature] == "cat":
        return sorted(set(v.tolist()))
    n = F.c["nc"]
    lo, hi = v.min(), v.max()
    step = (hi - lo) / n
    return [lo + (k + 0.5) * step for k in range(n)]


def masks_by_rule(F, tree):
    """boolean row mask of every node, recomputed from parents and displayed conditions"""
    masks = {}
    for n in tree.nodes:
        if n.parent_node is None:
            masks[n.idx] = np.ones(len(F.X), dtype=bool)
            continue
        v = F.X[:, n.data["feature"]]
        p = n.data["position"]
        cond = {"==": v == p, "!=": v != p, "<=": v <= p, ">": v > p}[n.data["comparison"]]
        masks[n.idx] = masks[n.parent_node.idx] & cond
    return masks


def name_matches(names, feature, what, n, sl, label):
    """the text `label` states exactly the rule of node n, positions scaled by the list sl"""
    path = []
    while n.parent_node is not None:
        path.append(n)
        n = n.parent_node
    path.reverse()
    ensure(label.startswith(names[feature]), "%s: %r", what, label)
    rest = label[len(names[feature]):]
    for i, k in enumerate(path):
        pre = (" | " if i == 0 else " and ") + names[k.data["feature"]]
        ensure(rest.startswith(pre), "%s: %r does not name %s", what, label, pre)
        rest = rest[len(pre):].lstrip()
        cmp = k.data["comparison"]
        ensure(rest.startswith(cmp + " "), "%s: %r does not say %r", what, label, cmp)
        rest = rest[len(cmp) + 1:]
        num = rest.split(" ")[0]
        rest = rest[len(num):]
        want = float(k.data["position"])
        if sl is not None:
            want = want * sl[k.data["feature"]]["std"] + sl[k.data["feature"]]["mean"]
        ensure(abs(float(num) - want) <= 0.005 + 1e-9 * abs(want), "%s: %r shows %s, the split is at %r", what, label, num, want)
    ensure(rest == "", "%s: %r", what, label)
