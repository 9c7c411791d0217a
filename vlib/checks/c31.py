"""Options left out mean their documented default values; positional and named options are the same."""
import warnings

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models
from vlib.core import Discard, Violation, check as ensure, close
from effector import ALE, RHALE, PDP, DerPDP, ShapDP
from effector import RegionalALE, RegionalRHALE, RegionalPDP, RegionalDerPDP, RegionalShapDP
from effector import binning_methods as bm
from effector.interaction import HIndex, REPID

CASES = {"quick": 840, "thorough": 9000}
RULE = ("Random class, data, model; every option of constructor, fit, eval, plot and reports is drawn as 'default' or another valid value. One object gets the default ones "
        "left out, a second one gets them spelled out with the documented value, a third one positionally in documented order; non-trivial = an option was left out in a call that succeeded.")
ASSUMPTIONS = ["documented values are those of the published signatures and docstrings",
               "random subsets are drawn with the same state of the global generator in both runs"]

GLOBAL = {"pdp": PDP, "dpdp": DerPDP, "ale": ALE, "rhale": RHALE, "shap": ShapDP}
REGIONAL = {"pdp": RegionalPDP, "dpdp": RegionalDerPDP, "ale": RegionalALE, "rhale": RegionalRHALE, "shap": RegionalShapDP}
HET = {"pdp": [True, "ice", "std_err"], "dpdp": [True, "ice"], "ale": [True], "rhale": [True], "shap": [True, "shap_values"]}
CENT = [True, "zero_start", "zero_integral"]
SX = {"mean": 1.5, "std": 2.0}

# binning objects are written as [class, documented arguments]
FIX, GRE, DYN = ["Fixed", {"nof_bins": 100, "min_points_per_bin": 10, "cat_limit": 15}], \
    ["Greedy", {"init_nof_bins": 100, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15}], \
    ["DynamicProgramming", {"max_nof_bins": 20, "min_points_per_bin": 10, "discount": 0.3, "cat_limit": 15}]
ALEFIX = ["Fixed", {"nof_bins": 20, "min_points_per_bin": 0, "cat_limit": 15}]

# a binning given to a global method by name has no minimum number of points per bin
NAMED = {"fixed": ["Fixed", {"nof_bins": 20, "min_points_per_bin": 0, "cat_limit": 15}], "greedy": ["Greedy", dict(GRE[1], min_points_per_bin=0)],
         "dp": ["DynamicProgramming", dict(DYN[1], min_points_per_bin=0)]}


def ctor_options(m, regional):
    o = {"nof_instances": {"pdp": 300, "dpdp": 300, "shap": 100, "ale": "all", "rhale": "all"}[m] if not regional else
         {"pdp": 1000, "dpdp": 1000, "shap": 100, "ale": "all", "rhale": "all"}[m], "axis_limits": None, "feature_names": None, "target_name": None}
    other = {"nof_instances": ["all", 11], "axis_limits": ["mid"], "feature_names": ["names"], "target_name": ["price"]}
    if regional:
        o.update(feature_types=None, cat_limit=10)
        other.update(feature_types=["mixed"], cat_limit=[3, 9, 11, 25])
    else:
        o["avg_output"] = None
        other["avg_output"] = [0.75]
    return o, other


# parameters in the order of the published signatures, after the data and the model
ORDER = {
    ("g", "pdp", "init"): ["axis_limits", "nof_instances", "avg_output", "feature_names", "target_name"],
    ("g", "dpdp", "init"): ["model_jac", "axis_limits", "nof_instances", "avg_output", "feature_names", "target_name"],
    ("g", "ale", "init"): ["nof_instances", "axis_limits", "avg_output", "feature_names", "target_name"],
    ("g", "rhale", "init"): ["model_jac", "nof_instances", "axis_limits", "data_effect", "avg_output", "feature_names", "target_name"],
    ("g", "shap", "init"): ["axis_limits", "nof_instances", "avg_output", "feature_names", "target_name"],
    ("r", "pdp", "init"): ["nof_instances", "axis_limits", "feature_types", "cat_limit", "feature_names", "target_name"],
    ("r", "dpdp", "init"): ["model_jac", "nof_instances", "axis_limits", "feature_types", "cat_limit", "feature_names", "target_name"],
    ("r", "ale", "init"): ["nof_instances", "axis_limits", "feature_types", "cat_limit", "feature_names", "target_name"],
    ("r", "rhale", "init"): ["model_jac", "instance_effects", "nof_instances", "axis_limits", "feature_types", "cat_limit", "feature_names", "target_name"],
    ("r", "shap", "init"): ["axis_limits", "nof_instances", "feature_types", "cat_limit", "feature_names", "target_name"],
    ("g", "pdp", "fit"): ["centering", "points_for_centering", "use_vectorized"],
    ("g", "ale", "fit"): ["binning_method", "centering"],
    ("g", "shap", "fit"): ["centering", "points_for_centering"],
    ("g", "pdp", "eval"): ["heterogeneity", "centering", "return_all", "use_vectorized"],
    ("g", "ale", "eval"): ["heterogeneity", "centering"],
    ("g", "pdp", "plot"): ["heterogeneity", "centering", "nof_points", "scale_x", "scale_y", "nof_ice", "show_avg_output", "y_limits", "use_vectorized"],
    ("g", "ale", "plot"): ["heterogeneity", "centering", "scale_x", "scale_y", "show_avg_output", "y_limits", "dy_limits"],
    ("g", "shap", "plot"): ["heterogeneity", "centering", "nof_points", "scale_x", "scale_y", "nof_shap_values", "show_avg_output", "y_limits"],
    ("r", "pdp", "fit"): ["heter_pcg_drop_thres", "heter_small_enough", "max_depth", "nof_candidate_splits_for_numerical", "min_points_per_subregion",
                          "candidate_conditioning_features", "split_categorical_features", "centering", "nof_instances", "points_for_centering", "use_vectorized"],
    ("r", "ale", "fit"): ["heter_pcg_drop_thres", "heter_small_enough", "max_depth", "nof_candidate_splits_for_numerical", "min_points_per_subregion",
                          "candidate_conditioning_features", "split_categorical_features", "binning_method", "centering"],
    ("r", "shap", "fit"): ["heter_pcg_drop_thres", "heter_small_enough", "max_depth", "nof_candidate_splits_for_numerical", "min_points_per_subregion",
                           "candidate_conditioning_features", "split_categorical_features", "centering", "points_for_centering"],
    ("r", "pdp", "eval"): ["heterogeneity", "centering"],
    ("r", "pdp", "plot"): ["heterogeneity", "centering", "scale_x_list", "scale_y", "y_limits"],
    ("r", "ale", "plot"): ["heterogeneity", "centering", "scale_x_list", "scale_y", "y_limits", "dy_limits"],
}
for _a, _b in (("dpdp", "pdp"), ("rhale", "ale")):
    for _k in ("fit", "eval", "plot"):
        ORDER["g", _a, _k] = ORDER["g", _b, _k]
        if _k != "eval":
            ORDER["r", _a, _k] = ORDER["r", _b, _k]
ORDER["g", "shap", "eval"] = ORDER["g", "ale", "eval"]
ORDER["r", "shap", "plot"] = ORDER["r", "pdp", "plot"]
for _m in GLOBAL:
    ORDER["r", _m, "eval"] = ORDER["r", "pdp", "eval"]


def fit_options(m, regional):
    o, other = {"centering": False}, {"centering": CENT}
    if not regional:
        o["centering"] = {"pdp": True, "dpdp": True, "ale": "zero_integral", "rhale": False, "shap": False}[m]
        other["centering"] = [False, "zero_start"]
    if m in ("ale", "rhale"):
        o["binning_method"] = ALEFIX if m == "ale" else GRE if regional else NAMED["greedy"]
        other["binning_method"] = [["Fixed", {"nof_bins": 4, "min_points_per_bin": 0}], "fixed"] + ([] if m == "ale" else ["dp", ["Greedy", {"init_nof_bins": 12, "min_points_per_bin": 2}]])
    else:
        o["points_for_centering"] = 100
        other["points_for_centering"] = [7, "all"] if not regional else [7]
        if m != "shap":
            o["use_vectorized"] = True
            other["use_vectorized"] = [False]
    if regional:
        o.update(heter_pcg_drop_thres=0.1, heter_small_enough=0.1, max_depth=1, nof_candidate_splits_for_numerical=20, min_points_per_subregion=10,
                 candidate_conditioning_features="all", split_categorical_features=False)
        other.update(heter_pcg_drop_thres=[0.0, 0.4], heter_small_enough=[0.0, 1.0], max_depth=[2], nof_candidate_splits_for_numerical=[1, 3], min_points_per_subregion=[3],
                     candidate_conditioning_features=["first"], split_categorical_features=[True])
        if m in ("pdp", "dpdp"):
            o["nof_instances"] = "all"
            other["nof_instances"] = ["all"]
    return o, other


def eval_options(m, regional):
    o, other = {"heterogeneity": False, "centering": False}, {"heterogeneity": [True], "centering": CENT}
    if m in ("pdp", "dpdp") and not regional:
        o.update(return_all=False, use_vectorized=True)
        other.update(return_all=[True], use_vectorized=[False])
    return o, other


def plot_options(m, regional):
    o, other = {"heterogeneity": False, "centering": False, "scale_y": None, "y_limits": None}, \
        {"heterogeneity": HET[m], "centering": CENT, "scale_y": [SX], "y_limits": [[-4.0, 9.0]]}
    if regional:
        o["scale_x_list"], other["scale_x_list"] = None, ["list"]
    else:
        o.update(scale_x=None, show_avg_output=False)
        other.update(scale_x=[SX], show_avg_output=[True])
        if m in ("pdp", "dpdp"):
            o.update(nof_points=30, nof_ice="all", use_vectorized=True)
            other.update(nof_points=[7], nof_ice=[2], use_vectorized=[False])
        if m == "shap":
            o.update(nof_points=30, nof_shap_values="all")
            other.update(nof_points=[7], nof_shap_values=[2])
    if m in ("ale", "rhale"):
        o["dy_limits"], other["dy_limits"] = None, [[-7.0, 5.0]]
    return o, other


@st.composite
def options(draw, table, most):
    """{name: 'default' or the index of another value}"""
    o, other = table
    c = {k: "default" if draw(st.integers(0, 9)) < most else draw(st.integers(0, len(other[k]) - 1)) for k in sorted(o)}
    if "nof_ice" in o or "nof_shap_values" in o:
        # their default shows only when instances are drawn
        c["heterogeneity"] = draw(st.sampled_from(["default", 0, 1, 1]))
    return c


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(["global"] * 4 + ["regional"] * 5 + ["index"] + ["bins"] * 4 + ["ctor", "many"]))
    many, k = k == "many", "global" if k == "many" else k
    m = "shap" if many else draw(st.sampled_from(["pdp", "pdp", "pdp", "dpdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    if k == "ctor":
        return {"k": k, "m": "all", "model": None, "data": {"n": draw(st.integers(80, 1300)), "seed": draw(gen.SEED), "cols": [draw(gen.col(["unif", "norm"]))] * 2}, "rs": draw(gen.SEED)}
    if k == "bins":
        b = draw(st.sampled_from(["Fixed", "Fixed", "Greedy", "Greedy", "DynamicProgramming", "DynamicProgramming", "greedy", "dp", "fixed"]))
        other = {"Fixed": [[1, 3, 4], [0, 3], [2, 40]], "Greedy": [[12, 30], [0, 2], [0.0, 0.8], [2, 40]], "DynamicProgramming": [[3, 6], [0, 2], [0.0, 0.8], [2, 40]]}.get(b, [])
        # enough points for 20 bins of 10 now and then
        n = draw(st.sampled_from([(20, 45), (20, 45), (60, 120), (300, 420)]))
        data = draw(gen.dataset(n=n, d=(1, 2), kinds=["unif", "norm", "lins", "clus"]))
        u = draw(st.sampled_from([None, None, 14, 15, 15, 16]))
        if u is not None:
            data["cols"][0] = {"k": "vals", "v": [float(i % u) for i in range(data["n"])]}
        return {"k": k, "b": b, "data": data, "model": None, "m": "rhale", "args": [draw(st.sampled_from(o)) if draw(st.integers(0, 2)) else None for o in other],
                "es": draw(gen.SEED), "stairs": draw(st.booleans())}
    n = {"pdp": (5, 40), "dpdp": (5, 40), "ale": (25, 60), "rhale": (25, 80), "shap": (5, 14)}[m]
    large = many or k == "global" and draw(st.integers(0, 3)) == 0
    if large:
        n = (290, 330) if m != "shap" else (96, 108)
    if k == "regional":
        n = (20, 50) if m != "shap" else (12, 16)
    D = 2 if m == "shap" or k != "global" and draw(st.booleans()) else draw(st.integers(1 if k == "global" else 2, 3))
    data = draw(gen.dataset(n=n, d=(D, D), kinds=["unif", "norm", "lins", "clus"] + (["cat", "grid"] if m != "shap" else [])))
    foi = draw(st.integers(0, D - 1))
    smooth = m in ("dpdp", "rhale")
    t = draw(gen.term(D, smooth=smooth, focus=foi))
    if D > 1 and draw(st.integers(0, 3)):
        o = (foi + 1) % D
        b = ["tanh", o, 2.0] if smooth else ["step", o, draw(gen.q(-1, 1, 4)) + 0.03125]
        t = ["add", [["scale", draw(st.sampled_from([0.1, 0.25, 1.0, 3.0])), ["mul", ["x", foi], b]], t]]
    c = {"k": k, "m": m, "data": data, "model": t, "feature": foi, "rs": draw(gen.SEED)}
    if k == "index":
        c["which"] = draw(st.sampled_from(["h", "repid"]))
        c["big"] = draw(st.integers(0, 5)) == 0
        c["show"] = [draw(st.sampled_from(["default", True, False])) for _ in range(4)]
        return c
    r = k == "regional"
    c["init"] = draw(options(ctor_options(m, r), 8))
    if large:
        c["init"]["nof_instances"] = draw(st.sampled_from(["default", "default", 0])) if m != "shap" else draw(st.sampled_from(["default", 0, 0]))
    c["fit"] = draw(options(fit_options(m, r), 8)) if r or draw(st.integers(0, 4)) else None
    c["eval"] = draw(options(eval_options(m, r), 7))
    c["plot"] = draw(options(plot_options(m, r), 8))
    if many:  # more SHAP values than any default number, all of them drawn
        c["init"]["nof_instances"], c["plot"]["heterogeneity"], c["plot"]["nof_shap_values"] = 0, 1, "default"
    c["jac"] = draw(st.booleans())
    c["feats"] = draw(st.sampled_from(["default", "all", "one"])) if m not in ("ale", "rhale", "shap") or not r else draw(st.sampled_from(["all", "one"]))
    c["xs"] = draw(gen.query(0, 1, 4))
    c["big"] = r and draw(st.integers(0, 7 if m in ("pdp", "dpdp") else 11)) == 0
    if c["big"] and m in ("pdp", "dpdp"):
        # more instances than any default, and a cheap fit
        c["init"]["nof_instances"] = 0
        c["fit"].update(nof_instances="default", nof_candidate_splits_for_numerical=draw(st.sampled_from([0, 1])), candidate_conditioning_features=0, max_depth="default",
                        use_vectorized="default", points_for_centering=draw(st.sampled_from(["default", 0])))
    c["only"] = [draw(st.sampled_from(["default", True, False])) for _ in range(2)]
    return c


def unbin(b):
    return getattr(bm, b[0])(**b[1]) if isinstance(b, list) else b


def value(v, X, name, c):
    if v == "mid":
        lo, hi = X.min(0), X.max(0)
        return np.stack([lo + 0.125 * (hi - lo), hi])
    if v == "names":
        return ["col %d" % j for j in range(X.shape[1])]
    if v == "mixed":
        return ["cont" if j == c["feature"] or len(np.unique(X[:, j])) > 12 else "cat" for j in range(X.shape[1])]
    if v == "first":
        return [(c["feature"] + 1) % X.shape[1]]
    if v == "list":
        return [dict(SX, mean=float(j)) for j in range(X.shape[1])]
    if name == "binning_method":
        return unbin(v)
    return v


def spelled(table, chosen, X, c):
    """all options with their values, and the names of those at the default"""
    o, other = table
    kw = {k: value(o[k] if chosen[k] == "default" else other[k][chosen[k]], X, k, c) for k in chosen}
    return kw, [k for k in chosen if chosen[k] == "default"]


def call(fn, args, table, chosen, X, c, way, order):
    kw, left = spelled(table, chosen, X, c)
    if way == "omit":
        return fn(*args, **{k: v for k, v in kw.items() if k not in left})
    if way == "named":
        return fn(*args, **kw)
    return fn(*args, *[kw[k] for k in order if k in kw])


class Result(dict):
    pass


def figure():
    """everything visible on the open figures"""
    out = figures(plt.get_fignums())
    plt.close("all")
    return out


def figures(numbers):
    out = []
    for i in sorted(numbers):
        for ax in plt.figure(i).axes:
            out.append(("labels", ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), sorted(t.get_text() for t in ax.texts)))
            leg = ax.get_legend()
            out.append(("legend", None if leg is None else [t.get_text() for t in leg.get_texts()]))
            out.append(("limits", np.array(list(ax.get_xlim()) + list(ax.get_ylim()))))
            for l in ax.lines:
                out.append(("line", np.array(l.get_xydata(), dtype=float)))
            for p in ax.patches:
                out.append(("bar", np.array([p.get_x(), p.get_y(), p.get_width(), p.get_height()]) if hasattr(p, "get_width") else p.get_path().vertices))
            for col in ax.collections:
                out.append(("collection", np.concatenate([p.vertices for p in col.get_paths()] or [np.zeros((0, 2))])))
            for im in ax.images:
                out.append(("image", np.array(im.get_array(), dtype=float)))
    return out


def tree(t):
    if t is None:
        return None
    return [("node", n.idx, n.name, n.level, None if n.parent_node is None else n.parent_node.idx, int(n.data["nof_instances"]),
             n.data.get("comparison"), n.data.get("feature"), n.data.get("feature_type"),
             np.array([np.nan if n.data.get("position") is None else n.data["position"], n.data["heterogeneity"], n.data["weight"]], dtype=float)) for n in t.nodes]


def same(what, a, b):
    """recursive comparison of recorded results"""
    if isinstance(a, dict):
        ensure(isinstance(b, dict) and sorted(a) == sorted(b), "%s: %s versus %s", what, str(a)[:150], str(b)[:150])
        for k in a:
            same("%s/%s" % (what, k), a[k], b[k])
    elif isinstance(a, (list, tuple)):
        ensure(isinstance(b, (list, tuple)) and len(a) == len(b), "%s: %s versus %s", what, str(a)[:150], str(b)[:150])
        for i, (x, y) in enumerate(zip(a, b)):
            same("%s/%s" % (what, a[0] if isinstance(a[0], str) else i), x, y)
    elif isinstance(a, (np.ndarray, float)) != isinstance(b, (np.ndarray, float)):
        ensure(False, "%s: %s versus %s", what, str(a)[:150], str(b)[:150])
    elif isinstance(a, (np.ndarray, float)):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ensure(a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)), "%s: %s versus %s", what, a.shape, b.shape)
        if a.size:
            close(what, np.nan_to_num(a), np.nan_to_num(b), 0, 1e-9, 1e-12)
    else:
        ensure(a == b, "%s: %s versus %s", what, str(a)[:150], str(b)[:150])


def compare(c, what, A, B):
    for k in A:
        ensure(k in B, "%s: %s failed only when %s", what, k, B.get("error"))
        if k == "error":
            continue
        same("%s: %s" % (what, k), A[k], B[k])
    for k in B:
        if k == "error":
            ensure(k in A, "%s: the second object raised %s", what, B[k])
        else:
            ensure(k in A, "%s: %s worked only on the second object, the first raised %s", what, k, A.get("error"))


def run_global(c, X, f, way):
    m, s = c["m"], c["feature"]
    R = Result()
    key = lambda k: ORDER["g", m, k]
    try:
        np.random.seed(c["rs"])
        extra = {}
        args = [X.copy(), f]
        if m in ("dpdp", "rhale"):
            if way == "position":
                args.append(f.jac if c["jac"] else None)
            elif c["jac"]:
                extra["model_jac"] = f.jac
            elif way == "named":
                extra["model_jac"] = None
        order = [k for k in key("init") if k not in ("model_jac", "data_effect")]
        if m == "rhale" and way == "position":
            kw, _ = spelled(ctor_options(m, False), c["init"], X, c)
            full = [kw["nof_instances"], kw["axis_limits"], None, kw["avg_output"], kw["feature_names"], kw["target_name"]]
            e = RHALE(*args, *full)
        else:
            e = call(lambda *a, **k: GLOBAL[m](*a, **k, **extra), args, ctor_options(m, False), c["init"], X, c, way, order)
        R["rows"] = np.array(e.data)
        R["limits"] = np.array(e.axis_limits, dtype=float)
        R["average"] = float(e.avg_output)
        if c["fit"] is not None:
            feats = [] if c["feats"] == "default" and way == "omit" else [{"default": "all", "all": "all", "one": s}[c["feats"]]]
            call(e.fit, feats, fit_options(m, False), c["fit"], X, c, way, key("fit"))
        xs = gen.at(c["xs"], X[:, s].min(), X[:, s].max())
        r = call(e.eval, [s, xs], eval_options(m, False), c["eval"], X, c, way, key("eval"))
        R["eval"] = list(r) if isinstance(r, tuple) else [np.asarray(r)]
        np.random.seed(c["rs"] + 1)
        if m == "rhale" and c["feats"] == "all":
            R["bins"] = [np.asarray(e.feature_effect["feature_%d" % j]["limits"], dtype=float) for j in range(X.shape[1])] if c["fit"] is not None else []
        call(e.plot, [s], plot_options(m, False), c["plot"], X, c, way, key("plot"))
        R["plot"] = figure()
    except (Violation, Discard):
        raise
    except Exception as ex:
        R["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
        plt.close("all")
    return R


def run_regional(c, X, f, way):
    m, s = c["m"], c["feature"]
    R = Result()
    try:
        np.random.seed(c["rs"])
        args, extra = [X.copy(), f], {}
        if m in ("dpdp", "rhale"):
            jac = f.jac if c["jac"] or m == "rhale" else None
            if way == "position":
                args += [jac] + ([None] if m == "rhale" else [])
            elif jac is not None or way == "named":
                extra["model_jac"] = jac
        order = [k for k in ORDER["r", m, "init"] if k not in ("model_jac", "instance_effects")]
        r = call(lambda *a, **k: REGIONAL[m](*a, **k, **extra), args, ctor_options(m, True), c["init"], X, c, way, order)
        R["rows"] = np.array(r.data)
        R["limits"] = np.array(r.axis_limits, dtype=float)
        if len(X) > 60 and len(R["rows"]) < len(X) or len(X) > 60 and m not in ("pdp", "dpdp"):
            return R
        feats = [] if c["feats"] == "default" and way == "omit" else [{"default": "all", "all": "all", "one": s}[c["feats"]]]
        call(r.fit, feats, fit_options(m, True), c["fit"], X, c, way, ORDER["r", m, "fit"])
        todo = range(X.shape[1]) if c["feats"] != "one" else [s]
        R["trees"] = [(tree(r.tree_full["feature_%d" % j]), tree(r.tree_pruned["feature_%d" % j])) for j in todo]
        for fn, only, args2 in ((r.show_partitioning, c["only"][0], [s]), (r.describe_subregions, c["only"][1], [s])):
            if r.tree_full["feature_%d" % s] is None:
                continue
            with hist.captured() as out:
                if only == "default" and way == "omit":
                    fn(*args2)
                elif way == "omit":
                    fn(*args2, only_important=only)
                elif way == "named":
                    fn(*args2, only_important=True if only == "default" else only, scale_x_list=None)
                else:
                    fn(*args2, True if only == "default" else only, None)
            R[fn.__name__] = out.getvalue()
        t = r.tree_pruned["feature_%d" % s]
        xs = gen.at(c["xs"], X[:, s].min(), X[:, s].max())
        for i in range(0 if t is None else len(t.nodes)):
            v = call(r.eval, [s, i, xs], eval_options(m, True), c["eval"], X, c, way, ORDER["r", m, "eval"])
            R["eval of node %d" % i] = list(v) if isinstance(v, tuple) else [np.asarray(v)]
        if t is not None:
            np.random.seed(c["rs"] + 1)
            call(r.plot, [s, len(t.nodes) - 1], plot_options(m, True), c["plot"], X, c, way, ORDER["r", m, "plot"])
            R["plot"] = figure()
    except (Violation, Discard):
        raise
    except Exception as ex:
        R["error"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
        plt.close("all")
    return R


def run_index(c, X, f, way):
    R = Result()
    np.random.seed(c["rs"])
    d = [True if v == "default" else v for v in c["show"]]
    kw = [{}, {}]
    for i, names in enumerate((("pairwise_matrix", "one_vs_all"), ("interaction_matrix", "one_vs_all"))):
        for j in (0, 1):
            if way != "omit" or c["show"][2 * i + j] != "default":
                kw[i][names[j]] = d[2 * i + j]
    if c["which"] == "h":
        h = HIndex(X.copy(), f) if way == "omit" else HIndex(X.copy(), f, nof_instances=1000) if way == "named" else HIndex(X.copy(), f, 1000)
        R["rows"] = np.array(h.data)
        if len(X) > 60:
            return R
        h.fit(*d[:2]) if way == "position" else h.fit(**kw[0])
        R["fitted"] = (bool(h.fitted_interaction_matrix), bool(h.fitted_one_vs_all_matrix))
        R["matrices"] = [np.array(h.interaction_matrix), np.array(h.one_vs_all_matrix)]
        h.plot(*d[2:]) if way == "position" else h.plot(**kw[1])
        R["plot"] = figure()
    else:
        gen.need(len(X) <= 60, "large")
        h = REPID(X.copy(), f, f.jac, "all")
        h.fit() if way == "omit" else h.fit(features="all") if way == "named" else h.fit("all")
        R["matrices"] = np.array(h.one_vs_all_matrix)
    return R


def run_ctor(c, X, way):
    """default sizes of the subsets of all classes"""
    R = Result()
    f = lambda x: x[:, 0] + 1.0
    np.random.seed(c["rs"])
    for regional, classes in ((False, GLOBAL), (True, REGIONAL)):
        for m, cls in classes.items():
            n = ctor_options(m, regional)[0]["nof_instances"]
            e = cls(X.copy(), f) if way == "omit" else cls(X.copy(), f, nof_instances=n)
            R["rows of %s %s" % (m, regional)] = np.array(e.data)
            ensure(len(e.data) == (len(X) if n == "all" else min(n, len(X))), "%s %s uses %d of %d rows, documented are %s", "regional" if regional else "global", m, len(e.data), len(X), n)
    h = HIndex(X.copy(), f) if way == "omit" else HIndex(X.copy(), f, nof_instances=1000)
    R["rows of HIndex"] = np.array(h.data)
    ensure(len(h.data) == min(1000, len(X)), "HIndex uses %d of %d rows, documented are 1000", len(h.data), len(X))
    return R


def run_bins(c, X, way):
    b = c["b"]
    doc = NAMED[b] if b in NAMED else {"Greedy": GRE, "DynamicProgramming": DYN, "Fixed": FIX}[b]
    given = {k: a for k, a in zip(doc[1], c["args"]) if a is not None}
    if way == "omit":
        obj = b if b in NAMED else getattr(bm, b)(**given)
    elif way == "named":
        obj = getattr(bm, doc[0])(**dict(doc[1], **given))
    else:
        obj = getattr(bm, doc[0])(*dict(doc[1], **given).values())
    R = Result()
    rng = np.random.RandomState(c["es"])
    ranks = np.argsort(np.argsort(X, axis=0), axis=0)
    for i in range(1 if doc[0] == "Fixed" else 2 if doc[0] == "DynamicProgramming" else 8):
        # the more different the derivatives, the more often the options of the binning matter
        J = rng.randn(*X.shape) + X * rng.choice([0.0, 1.0, 4.0])
        if c["stairs"]:
            J = ranks // rng.choice([5, 12, 30]) % 5 * rng.choice([1.0, 100.0]) + rng.choice([1e-3, 0.5]) * J
        for j in range(X.shape[1]):
            e = RHALE(X.copy(), lambda x: x[:, 0], None, data_effect=J.copy())
            try:
                e.fit(j, binning_method=obj)
                R["bins of feature %d, derivatives %d" % (j, i)] = np.asarray(e.feature_effect["feature_%d" % j]["limits"], dtype=float)
            except Exception as ex:
                R["bins of feature %d, derivatives %d" % (j, i)] = "rejected"
    return R


def check(c):
    X = gen.build(c["data"])
    for j in range(X.shape[1]):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    if c.get("big"):
        X = np.concatenate([X] * (1010 // len(X) + 1))
        X = X + 1e-3 * np.random.RandomState(c["rs"]).rand(*X.shape)
    if c["k"] == "ctor":
        A, B = run_ctor(c, X, "omit"), run_ctor(c, X, "named")
        P = B
    elif c["k"] == "bins":
        A, B, P = (run_bins(c, X, w) for w in ("omit", "named", "position"))
    else:
        f = models.Model(c["model"])
        run = {"global": run_global, "regional": run_regional, "index": run_index}[c["k"]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            A, B = run(c, X, f, "omit"), run(c, X, f, "named")
            P = run(c, X, f, "position")
    what = "%s %s" % (c["k"], c["m"] if c["k"] != "index" else c["which"]) if c["k"] != "bins" else "binning %s" % c["b"]
    compare(c, what + " with options left out versus documented defaults", A, B)
    compare(c, what + " with named versus positional options", B, P)
    return {"nt": "error" not in A, "labels": [what, "large" if len(X) > 90 else "small"] + (["rejected alike"] if "error" in A else [])}
