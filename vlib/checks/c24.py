"""Option grammar: documented values are accepted with the documented results, others are rejected."""
import numpy as np
from hypothesis import strategies as st

from vlib import bins as vbins
from vlib import gen, hist, models, ref, reg
from vlib.core import Discard, Violation, check as ensure, rejects, sut
from effector import binning_methods as bm
from effector.interaction import HIndex, REPID

CASES = {"quick": 1800, "thorough": 16000}
RULE = ("Random class (five global, five regional, two interaction indices), valid data down to a single row or column, a value for every documented option; in half of the cases one option "
        "(or the data) is replaced by an undocumented value; non-trivial = a non-default documented value was used or an invalid value was rejected.")
ASSUMPTIONS = ["the same model callable and Jacobian are valid in every case", "nof_instances=0 is not judged",
               "for regional methods the partition itself is judged by C14-C17"]

CENT = [False, True, "zero_integral", "zero_start"]
HET = {"pdp": [False, True, "std", "std_err", "ice"], "dpdp": [False, True, "std", "std_err", "ice"],
       "ale": [False, True, "std"], "rhale": [False, True, "std"], "shap": [False, True, "std", "shap_values"]}
BAD_CENT = ["foo", "", 2, None, 0, "zero", ["zero_start"], 1.0]
BAD_HET = ["foo", "", None, 3, ["std"]]
BAD_BINS = ["foo", "", 3, None, ["fixed"]]
BAD_NOF = ["foo", "", 2.5, None, [3], "ALL"]
GLOBAL_BAD = ["ndim", "nof", "cent", "cent", "het", "bins", "constant", "limits", "impossible", "impossible", "points", "features", "index"]
REGIONAL_BAD = ["ndim", "nof", "cent", "cent", "bins", "mp", "depth", "features", "node", "het"]


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(["global", "global", "global-bad", "global-bad", "global-bad", "regional", "regional-bad", "regional-bad", "index"]))
    if k == "regional":
        c = draw(reg.case(n=draw(st.sampled_from([(3, 9), (14, 40)])), depth=2, nc=4))
        if draw(st.booleans()):
            c = draw(reg.roomy(c))
        return {"k": k, "r": c, "c": draw(st.sampled_from(CENT)), "h": draw(st.sampled_from(HET[c["m"]])), "xs": draw(gen.query(0, 1, 3)),
                "feats": draw(st.sampled_from(["int", "list"])), "sc": draw(st.booleans())}
    if k == "regional-bad":
        m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "shap"]))
        D = draw(st.integers(2, 3))
        data = draw(gen.dataset(n=(12, 20), d=(D, D), kinds=["unif", "norm", "lins"]))
        return {"k": k, "m": m, "data": data, "model": draw(gen.term(D)), "feature": draw(st.integers(0, D - 1)), "bad": draw(st.sampled_from(REGIONAL_BAD)),
                "i": draw(st.integers(0, 7)), "where": draw(st.integers(0, 2)), "warm": draw(st.booleans())}
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "shap"]))
    if k == "index":
        m = draw(st.sampled_from(["h", "repid"]))
    tiny = draw(st.integers(0, 2)) == 0
    n = (3, 14) if m == "shap" else ((1, 4) if m in ("pdp", "dpdp") else (2, 5)) if tiny else (6, 40)
    data = draw(gen.dataset(n=n, d=(1, 3) if k != "index" else (2, 3), kinds=gen.ALL))
    D = len(data["cols"])
    if m == "shap" and draw(st.integers(0, 3)) == 0:  # a binary or ternary feature
        data["cols"][draw(st.integers(0, D - 1))] = {"k": "cat", "o": draw(st.integers(-2, 2)), "gaps": draw(st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=1, max_size=2))}
    c = {"k": k, "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"))), "feature": draw(st.integers(0, D - 1)),
         "nof": draw(st.sampled_from(["all", "all", 1000, 3, 5, "default"])), "limits": draw(gen.limits_spec(D)),
         "names": draw(st.booleans()), "target": draw(st.sampled_from([None, "price"])), "avg": draw(st.sampled_from([None, 1.5])),
         "jac": draw(st.booleans()), "fit": draw(st.sampled_from([None, "all", "int", "list"])), "cf": draw(st.sampled_from(CENT)),
         "c": draw(st.sampled_from(CENT)), "h": draw(st.sampled_from(HET.get(m, [False]))), "xs": draw(gen.query(0, 1, 5)),
         "points": draw(st.sampled_from([None, 2, 30, 100, "all"])), "vec": draw(st.booleans()), "nice": draw(st.sampled_from(["all", 1, 3, 1000])),
         "np": draw(st.sampled_from([None, 2, 17])), "sx": draw(hist.scale()), "sy": draw(hist.scale()), "show": draw(st.booleans())}
    if m in ("ale", "rhale"):
        c["bins"] = draw(vbins.spec(kinds=["fixed"] if m == "ale" else ["fixed", "greedy", "dp"], max_dp=8, min_points=(0, 4)))
    if k == "global-bad":
        c["bad"] = draw(st.sampled_from(GLOBAL_BAD))
        c["i"] = draw(st.integers(0, 7))
        c["where"] = draw(st.integers(0, 2))
        c["warm"] = draw(st.booleans())
    return c


def build(c, X, f, **over):
    kw = {}
    if c["nof"] != "default":
        kw["nof_instances"] = c["nof"]
    if c["names"]:
        kw["feature_names"] = ["f%d" % j for j in range(X.shape[1])]
    if c["target"]:
        kw["target_name"] = c["target"]
    if c["avg"] is not None:
        kw["avg_output"] = c["avg"]
    kw.update(over)
    from effector import PDP, DerPDP, ALE, RHALE, ShapDP
    m = c["m"]
    if m == "dpdp" and not c["jac"]:
        return DerPDP(X, f, None, **kw)
    if m == "rhale" and not c["jac"]:
        return RHALE(X, f, None, **kw)
    return hist.build(m, X, f, **kw)


def fit_kw(c):
    kw = {"centering": c["cf"]}
    if c["m"] in ("ale", "rhale"):
        kw["binning_method"] = vbins.make(c["bins"])
    else:
        if c["points"] is not None:
            kw["points_for_centering"] = c["points"]
        if c["m"] != "shap":
            kw["use_vectorized"] = c["vec"]
    return kw


def plot_kw(c):
    kw = {"heterogeneity": c["h"], "centering": c["c"], "scale_x": c["sx"], "scale_y": c["sy"], "show_avg_output": c["show"]}
    if c["m"] in ("pdp", "dpdp"):
        kw["nof_ice"] = c["nice"]
        kw["use_vectorized"] = c["vec"]
    if c["m"] == "shap":
        kw["nof_shap_values"] = c["nice"]
    if c["m"] not in ("ale", "rhale") and c["np"] is not None:
        kw["nof_points"] = c["np"]
    return kw


def usable(c, e, s):
    """is feature s of the built object within the domain of the method?"""
    L = np.asarray(e.axis_limits)
    if not L[0, s] < L[1, s]:
        return False
    Z = gen.inside(e.data, L, s)
    u = np.unique(Z[:, s])
    if len(Z) == 0:
        return False
    if c["m"] in ("ale", "rhale"):
        return vbins.possible(c["bins"], Z[:, s], L[0, s], L[1, s]) is True and len(u) > 1
    if c["m"] == "shap":
        return len(u) > 1
    return True


def results(c, e, s, what):
    """documented shapes, finite values"""
    m = c["m"]
    L = np.asarray(e.axis_limits)
    Z = gen.inside(e.data, L, s)
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    T = len(xs)
    y = e.eval(s, xs.copy(), centering=c["c"])
    ensure(isinstance(y, np.ndarray) and y.shape == (T,), "%s: effect has shape %s for %d points", what, np.shape(y), T)
    ensure(np.isfinite(y).all(), "%s: effect %s", what, y)
    r = e.eval(s, xs.copy(), heterogeneity=True, centering=c["c"])
    ensure(isinstance(r, tuple) and len(r) == 2, "%s: eval with heterogeneity returned %s", what, type(r))
    ensure(np.shape(r[0]) == (T,) and np.shape(r[1]) == (T,), "%s: shapes %s and %s for %d points", what, np.shape(r[0]), np.shape(r[1]), T)
    if m in ("ale", "rhale"):
        lim = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float)
        ppb = np.bincount(np.minimum(np.digitize(Z[:, s], lim), len(lim) - 1) - 1)
        if ppb.max() < 2:
            return
    ensure(np.isfinite(r[1]).all(), "%s: heterogeneity %s", what, r[1])
    if m in ("pdp", "dpdp"):
        Y = e.eval(s, xs.copy(), centering=c["c"], return_all=True, use_vectorized=c["vec"])
        ensure(np.shape(Y) == (T, len(Z)), "%s: ICE matrix has shape %s for %d points and %d instances", what, np.shape(Y), T, len(Z))
        ensure(np.isfinite(Y).all(), "%s: ICE %s", what, Y)


def check(c):
    return {"global": accept, "global-bad": refuse, "regional": accept_regional, "regional-bad": refuse_regional, "index": index}[c["k"]](c)


def accept(c):
    X = gen.build(c["data"])
    m, s = c["m"], c["feature"]
    f = models.Model(c["model"])
    arg, L = gen.axis_limits(c["limits"], X)
    if len(X) == 1:
        # a single row has no range of its own
        arg = np.stack([X[0] - 1.0, X[0] + 1.0])
    with sut("%s constructor" % m):
        e = build(c, X.copy(), f, axis_limits=arg)
    D = X.shape[1]
    gen.need(usable(c, e, s), "outside the method's domain")
    feats = {"all": list(range(D)), "int": [s], "list": sorted({s, 0}), None: [s]}[c["fit"]]
    gen.need(all(usable(c, e, j) for j in feats), "outside the method's domain")
    if c["fit"] is not None:
        with sut("%s.fit(%s)" % (m, c["fit"])):
            e.fit(features={"all": "all", "int": s, "list": feats}[c["fit"]], **fit_kw(c))
    elif m in ("ale", "rhale"):
        gen.need(vbins.possible({"k": "fixed" if m == "ale" else "greedy", "name": True}, gen.inside(e.data, np.asarray(e.axis_limits), s)[:, s],
                                e.axis_limits[0, s], e.axis_limits[1, s]) is True, "default binning impossible")
    for j in feats:
        with sut("%s.eval" % m):
            results(c, e, j, "%s, feature %d" % (m, j))
    with sut("%s.plot(%s)" % (m, c["h"])):
        e.plot(s, **plot_kw(c))
    labels = [m, "accepted"]
    if len(X) < 5:
        labels.append("tiny data")
    if D == 1:
        labels.append("one feature")
    return {"nt": True, "labels": labels}


def refuse(c):
    X = gen.build(c["data"])
    m, s, i = c["m"], c["feature"], c["i"]
    D = X.shape[1]
    f = models.Model(c["model"])
    bad = c["bad"]
    if len(X) == 1:
        X = np.concatenate([X, X + 1.0])
    c = dict(c, nof="all")
    lab = {"nt": True, "labels": [m, "rejected: " + bad]}
    if bad == "ndim":
        rejects("%s on data of %d dimensions" % (m, 1 if i % 2 else 3), lambda: build(c, X[:, 0].copy() if i % 2 else np.stack([X, X]), f))
        return lab
    if bad == "nof":
        v = BAD_NOF[i % len(BAD_NOF)]
        rejects("%s with nof_instances=%r" % (m, v), lambda: build(dict(c, nof=v), X.copy(), f))
        return lab
    over = {}
    if bad == "constant":
        X[:, s] = X[0, s]
        if m in ("ale", "rhale") and i % 3:
            # a single value inside wide limits leaves nothing to compare
            over["axis_limits"] = np.stack([X.min(0) - 1.0, X.max(0) + 2.0])
    if bad == "limits":
        over["axis_limits"] = np.stack([X.max(0), X.min(0)]) if i % 2 else np.stack([X.max(0), X.max(0)])
        gen.need(np.all(X.max(0) > X.min(0)), "constant feature")
    with sut("%s constructor" % m):
        e = build(c, X.copy(), f, **over)
    L = np.asarray(e.axis_limits)
    xs = np.linspace(X[:, s].min(), X[:, s].max(), 3)

    def ev(**kw):
        return lambda: e.eval(s, xs.copy(), **kw)

    def fit_eval(**kw):
        e.fit(s, **kw)
        return e.eval(s, xs.copy())

    if bad in ("constant", "limits"):
        what = "%s of a feature with %s" % (m, "one value, axis limits %s" % L[:, s] if bad == "constant" else "axis limits %s" % L[:, s])
        if c["where"] == 0:
            rejects(what, ev(centering=CENT[i % 4]))
        elif c["where"] == 1:
            rejects(what, lambda: e.plot(s))
        else:
            rejects(what, lambda: fit_eval(**fit_kw(c)))
        return lab
    gen.need(usable(dict(c, bins={"k": "fixed", "name": True}), e, s), "outside the method's domain")
    if bad == "impossible":
        gen.need(m in ("ale", "rhale"), "no binning")
        n = len(gen.inside(e.data, L, s))
        k = "fixed" if m == "ale" else ["fixed", "greedy", "dp"][i % 3]
        b = {"fixed": lambda p: bm.Fixed(4, p, 15), "greedy": lambda p: bm.Greedy(10, p, 0.3, 15), "dp": lambda p: bm.DynamicProgramming(3, p, 0.3, 15)}[k](n + 1 + i)
        rejects("%s with at least %d of %d points per bin (%s)" % (m, n + 1 + i, n, k), lambda: fit_eval(binning_method=b))
        return lab
    if c["warm"]:
        with sut("%s eval" % m):
            e.eval(s, xs.copy(), centering=c["c"])
    if bad == "cent":
        v = BAD_CENT[i % len(BAD_CENT)]
        what = "%s centering=%r" % (m, v)
        if c["where"] == 0:
            rejects(what + " in eval", ev(centering=v))
        elif c["where"] == 1:
            rejects(what + " in fit", lambda: e.fit(s, centering=v))
        else:
            rejects(what + " in plot", lambda: e.plot(s, centering=v))
    elif bad == "het":
        v = BAD_HET[i % len(BAD_HET)]
        rejects("%s heterogeneity=%r in plot" % (m, v), lambda: e.plot(s, heterogeneity=v))
    elif bad == "bins":
        gen.need(m in ("ale", "rhale"), "no binning")
        vals = BAD_BINS + (["greedy", "dp", bm.Greedy(10, 0), bm.DynamicProgramming(3, 0)] if m == "ale" else [])
        v = vals[(i + 5 * c["where"]) % len(vals)]
        rejects("%s binning_method=%r" % (m, v), lambda: e.fit(s, binning_method=v))
    elif bad == "points":
        gen.need(m not in ("ale", "rhale"), "no points_for_centering")
        rejects("%s points_for_centering='most'" % m, lambda: e.fit(s, centering=True, points_for_centering="most"))
    elif bad == "features":
        v = ["foo", None, 1.5, ("0",), "0"][i % 5]
        rejects("%s features=%r in fit" % (m, v), lambda: e.fit(features=v))
    elif bad == "index":
        j = D + i
        what = "%s of feature %d of %d" % (m, j, D)
        rejects(what, [lambda: e.fit(j), lambda: e.eval(j, xs.copy()), lambda: e.plot(j)][c["where"]])
    return lab


def accept_regional(c):
    r = c["r"]
    if r["m"] == "shap":
        c = dict(c, feats="int")
    F = reg.prepare(r)
    s = r["feature"]
    key = "feature_%d" % s
    with sut("regional %s fit" % r["m"]):
        F.r.fit(s if c["feats"] == "int" else [s], **reg.fit_kw(F.c))
        full, tree = F.r.tree_full[key], F.r.tree_pruned[key]
    L = np.stack([F.X.min(0), F.X.max(0)])
    sl = [{"mean": 1.0, "std": 2.0}] * F.D if c["sc"] else None
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    if tree is None:
        rejects("evaluating a feature without a tree", lambda: F.r.eval(s, 0, xs.copy()))
    done = 0
    for n in (tree.nodes if tree is not None else []):
        Z = n.data["data"]
        u = len(np.unique(Z[:, s]))
        if u < 2 or (F.L is not None and not F.c["limits"] is None):
            continue
        # the node is described with the default binning of the method, which has no minimum of points
        with sut("regional %s eval of node %d" % (r["m"], n.idx)):
            y = F.r.eval(s, n.idx, xs.copy(), centering=c["c"])
            h = F.r.eval(s, n.idx, xs.copy(), heterogeneity=True, centering=c["c"])
        ensure(isinstance(y, np.ndarray) and y.shape == xs.shape and np.isfinite(y).all(), "regional %s returned %s for %d points", r["m"], y, len(xs))
        ensure(isinstance(h, tuple) and len(h) == 2 and np.shape(h[0]) == xs.shape and np.shape(h[1]) == xs.shape, "regional %s with heterogeneity returned %s", r["m"], h)
        done += 1
        if r["m"] in ("pdp", "dpdp", "shap"):
            with sut("regional %s plot of node %d" % (r["m"], n.idx)):
                F.r.plot(s, n.idx, c["h"], c["c"], sl, None if sl is None else sl[0])
    with sut("reports"):
        F.r.show_partitioning(s if c["feats"] == "int" else [s], only_important=c["sc"], scale_x_list=sl)
        F.r.describe_subregions(s if c["feats"] == "int" else [s], only_important=c["sc"], scale_x_list=sl)
    return {"nt": True, "labels": ["regional " + r["m"], "accepted", "nodes evaluated" if done else "no node"]}


def refuse_regional(c):
    X = gen.build(c["data"])
    m, s, i, bad = c["m"], c["feature"], c["i"], c["bad"]
    N, D = X.shape
    f = models.Model(c["model"])
    what = "regional %s" % m
    lab = {"nt": True, "labels": [what, "rejected: " + bad]}
    if bad == "ndim":
        rejects("%s on data of %d dimensions" % (what, 1 if i % 2 else 3), lambda: hist.build_regional(m, X[:, 0].copy() if i % 2 else np.stack([X, X]), f))
        return lab
    if bad == "nof":
        v = BAD_NOF[i % len(BAD_NOF)]
        rejects("%s with nof_instances=%r" % (what, v), lambda: hist.build_regional(m, X.copy(), f, nof_instances=v))
        return lab
    with sut(what + " constructor"):
        r = hist.build_regional(m, X.copy(), f)
    good = dict(max_depth=1, nof_candidate_splits_for_numerical=2, min_points_per_subregion=4)
    if m in ("ale", "rhale"):
        good["binning_method"] = bm.Fixed(3, 0)
    xs = np.linspace(X[:, s].min(), X[:, s].max(), 3)
    if c["warm"] or bad == "node":
        with sut(what + " fit"):
            r.fit(s, **good)
    if bad == "cent":
        v = BAD_CENT[i % len(BAD_CENT)]
        if c["where"] == 0:
            rejects("%s centering=%r in eval" % (what, v), lambda: r.eval(s, 0, xs, centering=v))
        elif c["where"] == 1:
            rejects("%s centering=%r in fit" % (what, v), lambda: r.fit(s, **dict(good, centering=v)))
        else:
            rejects("%s centering=%r in plot" % (what, v), lambda: r.plot(s, 0, centering=v))
    elif bad == "het":
        v = BAD_HET[i % len(BAD_HET)]
        rejects("%s heterogeneity=%r in plot" % (what, v), lambda: r.plot(s, 0, heterogeneity=v))
    elif bad == "bins":
        gen.need(m in ("ale", "rhale"), "no binning")
        vals = BAD_BINS + (["greedy", "dp", bm.Greedy(10, 0), bm.DynamicProgramming(3, 0)] if m == "ale" else [])
        v = vals[(i + 5 * c["where"]) % len(vals)]
        rejects("%s binning_method=%r" % (what, v), lambda: r.fit(s, **dict(good, binning_method=v)))
    elif bad == "mp":
        v = [1, 0, -3][i % 3]
        rejects("%s min_points_per_subregion=%d" % (what, v), lambda: r.fit(s, **dict(good, min_points_per_subregion=v)))
    elif bad == "depth":
        foc = [j for j in range(D) if j != s][:1] if c["where"] == 0 else "all"
        v = (1 if foc != "all" else D - 1) + 1 + i % 3
        rejects("%s with depth %d and %s conditioning features" % (what, v, foc),
                lambda: r.fit(s, **dict(good, max_depth=v, candidate_conditioning_features=foc, heter_small_enough=0.0)))
    elif bad == "features":
        v = ["foo", None, 1.5, "0", D + i][i % 5]
        rejects("%s features=%r in fit" % (what, v), lambda: r.fit(v, **good))
    elif bad == "node":
        t = r.tree_pruned["feature_%d" % s]
        k = len(t.nodes) + i
        rejects("%s node %d of %d" % (what, k, len(t.nodes)), [lambda: r.eval(s, k, xs), lambda: r.plot(s, k), lambda: r.eval(s, -1 - i, xs)][c["where"]])
    return lab


def index(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s = c["feature"]
    nof = 10 if c["nof"] == "default" else c["nof"]
    for j in range(X.shape[1]):
        gen.need(len(np.unique(X[:, j])) > 1 and len(X) > 2, "constant feature")
    if c["m"] == "h":
        bad = BAD_NOF[len(X) % len(BAD_NOF)]
        rejects("H-index with nof_instances=%r" % bad, lambda: HIndex(X.copy(), f, nof_instances=bad))
        with sut("H-index"):
            h = HIndex(X.copy(), f, nof_instances=nof)
            o = (s + 1) % X.shape[1]
            a, b = h.eval_pairwise(s, o), h.eval_one_vs_all(s)
            if c["show"]:
                h.plot(True, True)
            h.fit(pairwise_matrix=c["names"], one_vs_all=True)
        ensure(np.ndim(a) == 0 and np.ndim(b) == 0, "H-index returned shapes %s, %s", np.shape(a), np.shape(b))
        ensure(h.interaction_matrix.shape == (X.shape[1],) * 2 and h.one_vs_all_matrix.shape == (X.shape[1],), "shapes of the H-index matrices")
    else:
        with sut("REPID"):
            h = REPID(X.copy(), f, f.jac, nof)
            gen.need(all(len(np.unique(h.data[:, j])) > 1 for j in range(X.shape[1])), "constant feature")
            h.fit({"all": "all", "int": s, "list": [s], None: "all"}[c["fit"]])
            a = h.eval_one_vs_all(s)
            if c["show"]:
                h.plot()
        ensure(np.ndim(a) == 0 and np.isfinite(a), "REPID index is %s", a)
    return {"nt": True, "labels": ["index " + c["m"], "accepted"]}
