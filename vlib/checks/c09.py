"""Ground truth of additive and linear models."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import check as ensure, close, sut
from effector import ALE, RHALE, PDP, DerPDP, ShapDP, RegionalALE, RegionalRHALE, RegionalDerPDP, RegionalPDP
from effector import binning_methods as bm

CASES = {"quick": 1600, "thorough": 25000}
RULE = ("Random additive model (sum of one-feature functions) or linear model and data set; "
        "non-trivial = the feature's own function is not constant on the data and another feature is used too (global), or a regional fit ran.")
ASSUMPTIONS = ["heterogeneity counts as zero when below 1e-10 (ALE), 1e-11 (RHALE with a Jacobian), 1e-9 (PDP, d-PDP with a Jacobian), 1e-6 (SHAP-DP, regional methods) "
               "or 1e-4 (numerical derivatives) times the scale of the model output and derivatives"]


@st.composite
def strategy(draw, tier="quick"):
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap", "regional"]))
    kinds = ["unif", "norm", "skew", "lins", "corr"] if m == "shap" else gen.ALL
    data = draw(gen.dataset(n=(6, 25) if m == "shap" else (12, 50) if m == "regional" else (3, 40), d=(2, 4) if m == "regional" else (1, 4), kinds=kinds))
    D = len(data["cols"])
    linear = draw(st.booleans()) or m in ("shap", "rhale")
    mod = draw(gen.additive(D, linear=linear, smooth=m != "ale"))
    return {"m": m, "data": data, "add": mod, "linear": linear, "feature": draw(st.integers(0, D - 1)), "xs": draw(gen.query(0, 1)),
            "limits": draw(gen.limits_spec(D)) if m not in ("shap", "regional") else None,
            "bins": draw(st.sampled_from([1, 2, 5, 20])), "how": draw(st.sampled_from(["greedy", "dp", "fixed"])), "jac": draw(st.booleans()),
            "reg": draw(st.sampled_from(["ale", "rhale", "dpdp", "pdp"])), "depth": 1, "thr": draw(st.sampled_from([1e-4, 0.1, 0.0])),
            "pcg": draw(st.sampled_from([0.0, 0.1]))}


def check(c):
    X = gen.build(c["data"])
    m, s = c["m"], c["feature"]
    if m == "regional":
        return regional(c, X)
    f = models.Model(c["add"]["t"])
    own = c["add"]["per"][s]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    lo, hi = L[0, s], L[1, s]
    xs = gen.at(c["xs"], lo, hi)

    def g(v):
        Z = np.zeros((len(v), X.shape[1]))
        Z[:, s] = v
        return models.feval(own, Z)

    def dg(v):
        Z = np.zeros((len(v), X.shape[1]))
        Z[:, s] = v
        return models.fjac(own, Z)[:, s]

    ends = np.linspace(lo, hi, 25)
    scale = max(np.abs(f(X)).max(), np.abs(g(ends)).max(), np.abs(dg(ends)).max() * (hi - lo), 1e-6)
    labels = [m, "linear" if c["linear"] else "additive"]
    ignored = s not in models.uses(c["add"]["t"])
    if ignored:
        labels.append("ignored feature")
    others = bool(models.uses(c["add"]["t"]) - {s})
    grid = np.append(xs, ends)
    if m == "pdp":
        gen.need(len(Xin) > 0, "no instance inside the axis limits")
        with sut("PDP"):
            e = PDP(X.copy(), f, axis_limits=arg, nof_instances="all")
            y = e.eval(s, grid)
            yc, sc = e.eval(s, grid, heterogeneity=True, centering="zero_start")
            _, si = e.eval(s, grid, heterogeneity=True, centering="zero_integral")
        close("PDP of an additive model", y - y[0], g(grid) - g(grid[:1]), scale, 1e-9)
        close("PDP of an additive model from its start", yc, g(grid) - g(np.array([lo])), scale, 1e-9)
        close("heterogeneity of the centered PDP", sc, 0 * grid, scale, 1e-9)
        close("heterogeneity of the centered PDP", si, 0 * grid, scale, 1e-9)
    elif m == "dpdp":
        gen.need(len(Xin) > 0, "no instance inside the axis limits")
        with sut("DerPDP"):
            e = DerPDP(X.copy(), f, f.jac if c["jac"] else None, axis_limits=arg, nof_instances="all")
            y, sd = e.eval(s, grid, heterogeneity=True)
        fscale = max(scale, np.abs(dg(grid)).max(), np.abs(f(X)).max() + np.abs(g(ends)).max() + 1)
        close("d-PDP of an additive model", y, dg(grid), fscale, 1e-9 if c["jac"] else 1e-5)
        close("heterogeneity of d-PDP", sd, 0 * grid, fscale, 1e-9 if c["jac"] else 1e-5)
    elif m == "ale":
        gen.need(len(np.unique(Xin[:, s])) > 1, "one unique value")
        with sut("ALE"):
            e = ALE(X.copy(), f, axis_limits=arg)
            e.fit(s, binning_method=bm.Fixed(c["bins"], 0), centering=False)
            lim = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float)
            n = np.asarray(e.feature_effect["feature_%d" % s]["points_per_bin"])
            y, sd = e.eval(s, lim.copy(), heterogeneity=True)
            yg, sg = e.eval(s, grid, heterogeneity=True)
        bscale = max(scale, np.abs(g(lim)).max())
        if np.all(n > 0):
            close("ALE of an additive model at the bin edges", y, g(lim) - g(lim[:1]), bscale, 1e-8)
        if c["linear"]:
            a = dg(np.array([lo]))[0]
            close("ALE of a linear model", yg, a * (np.clip(grid, lim[0], lim[-1]) - lim[0]), bscale, 1e-8)
        if np.any(n > 1):
            close("heterogeneity of ALE", sd, 0 * lim, bscale, 1e-10)
            close("heterogeneity of ALE", sg, 0 * grid, bscale, 1e-10)
    elif m == "rhale":
        gen.need(len(np.unique(Xin[:, s])) > 1, "one unique value")
        with sut("RHALE"):
            e = RHALE(X.copy(), f, f.jac if c["jac"] else None, axis_limits=arg)
            b = {"fixed": bm.Fixed(c["bins"], 0), "greedy": bm.Greedy(20, 0), "dp": bm.DynamicProgramming(5, 0)}[c["how"]]
            e.fit(s, binning_method=b)
            lim = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float)
            y, sd = e.eval(s, grid, heterogeneity=True)
        a = dg(np.array([lo]))[0]
        tol = 1e-8 if c["jac"] else 1e-5
        fscale = max(scale, (1 + np.abs(f(X)).max()) * (hi - lo)) if not c["jac"] else scale
        close("RHALE of a linear model", y, a * (np.clip(grid, lim[0], lim[-1]) - lim[0]), fscale, tol)
        if np.any(np.asarray(e.feature_effect["feature_%d" % s]["points_per_bin"]) > 1):
            close("heterogeneity of RHALE", sd, 0 * grid, fscale, 1e-11 if c["jac"] else 1e-4)
    else:
        gen.need(len(np.unique(X[:, s])) == len(X), "ties in the feature")
        with sut("ShapDP"):
            e = ShapDP(X.copy(), f, nof_instances="all")
            y, sd = e.eval(s, grid, heterogeneity=True)
        a = dg(np.array([lo]))[0]
        close("SHAP-DP of a linear model", y, a * (grid - X[:, s].mean()), scale, 1e-6)
        close("heterogeneity of SHAP-DP", sd, 0 * grid, scale, 1e-6)
    return {"nt": bool(np.ptp(g(ends)) > 1e-9 and others) or ignored and others, "labels": labels}


def regional(c, X):
    s, D = c["feature"], X.shape[1]
    t = c["add"]["t"]
    kind = c["reg"]
    if kind == "pdp":  # uncentered ICE curves coincide only when no other feature matters
        t = c["add"]["per"][s]
    if kind == "rhale":
        t = ["lin", [float(i - s) for i in range(D)]] if not c["linear"] else t
    f = models.Model(t)
    scale = max(np.abs(f(X)).max(), np.abs(f.jac(X)).max() * max(1.0, np.ptp(X[:, s])))
    gen.need(scale < 1e6, "output too large for the absolute threshold")
    cls = {"ale": RegionalALE, "rhale": RegionalRHALE, "dpdp": RegionalDerPDP, "pdp": RegionalPDP}[kind]
    args = [X.copy(), f] + ([f.jac] if kind in ("rhale", "dpdp") else [])
    with sut("Regional %s" % kind):
        r = cls(*args, nof_instances="all")
        kw = {"binning_method": bm.Fixed(10, 0)} if kind in ("ale", "rhale") else {}
        r.fit(s, max_depth=c["depth"], heter_small_enough=c["thr"], heter_pcg_drop_thres=c["pcg"], nof_candidate_splits_for_numerical=4,
              min_points_per_subregion=2, split_categorical_features=True, **kw)
        tree = r.tree_pruned["feature_%d" % s]
    gen.need(tree is not None, "no tree (too few points)")
    if c["thr"] == 0.0:
        # without a threshold only exact zeros can be told from rounding
        gen.need(tree.get_root().data["heterogeneity"] == 0.0, "heterogeneity is rounding noise")
    n = len(tree.nodes)
    root = tree.get_root().data["heterogeneity"]
    ensure(n == 1, "a split of feature %d was accepted although the feature has no heterogeneity (%d nodes)", s, n)
    ensure(np.isnan(root) or abs(root) <= 1e-6 * scale or root >= 1e8, "heterogeneity %r of a feature without heterogeneity", root)
    return {"nt": True, "labels": ["regional " + kind] + (["exactly zero, no threshold"] if c["thr"] == 0.0 else [])}
