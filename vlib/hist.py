"""Global and regional effect objects, their calls as JSON, shared by the history / argument / option checks."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from effector import ALE, RHALE, PDP, DerPDP, ShapDP
from effector import RegionalALE, RegionalRHALE, RegionalPDP, RegionalDerPDP, RegionalShapDP
from effector import binning_methods as bm
from vlib import gen

GLOBAL = ["pdp", "dpdp", "ale", "rhale", "shap"]
SHAPK = ["unif", "norm", "skew", "lins", "corr"]


def build(m, X, f, **kw):
    if m == "pdp":
        return PDP(X, f, **kw)
    if m == "dpdp":
        return DerPDP(X, f, **dict({"model_jac": f.jac}, **kw))
    if m == "ale":
        return ALE(X, f, **kw)
    if m == "rhale":
        return RHALE(X, f, **dict({"model_jac": f.jac}, **kw))
    return ShapDP(X, f, **kw)


def build_regional(m, X, f, **kw):
    if m == "pdp":
        return RegionalPDP(X, f, **kw)
    if m == "dpdp":
        return RegionalDerPDP(X, f, **dict({"model_jac": f.jac}, **kw))
    if m == "ale":
        return RegionalALE(X, f, **kw)
    if m == "rhale":
        return RegionalRHALE(X, f, **dict({"model_jac": f.jac}, **kw))
    return RegionalShapDP(X, f, **kw)


# -------------------------------------------------------------- options
CENT = [False, False, True, "zero_integral", "zero_start"]


@st.composite
def binning(draw, m):
    k = "fixed" if m == "ale" else draw(st.sampled_from(["fixed", "greedy", "dp"]))
    if draw(st.integers(0, 2)) == 0:
        return k
    return {"fixed": ["fixed", draw(st.sampled_from([1, 3, 7, 20]))], "greedy": ["greedy", draw(st.sampled_from([3, 10, 30]))],
            "dp": ["dp", draw(st.sampled_from([1, 3, 6]))]}[k]


def make_bins(b):
    if isinstance(b, str):
        return b
    return {"fixed": lambda n: bm.Fixed(n, 0), "greedy": lambda n: bm.Greedy(n, 0), "dp": lambda n: bm.DynamicProgramming(n, 0)}[b[0]](b[1])


@st.composite
def fit_call(draw, m, feats):
    o = {"op": "fit", "f": feats, "c": draw(st.sampled_from(CENT))}
    if m in ("ale", "rhale"):
        o["bins"] = draw(binning(m))
    else:
        o["points"] = draw(st.sampled_from([None, 3, 10, 57, "all"]))
        if m != "shap":
            o["vec"] = draw(st.booleans())
    return o


@st.composite
def eval_call(draw, m, f):
    o = {"op": "eval", "f": f, "xs": draw(gen.query(0, 1, 5)), "h": draw(st.booleans()), "c": draw(st.sampled_from(CENT))}
    if m in ("pdp", "dpdp"):
        o["all"] = draw(st.booleans())
        o["vec"] = draw(st.booleans())
    return o


@st.composite
def scale(draw):
    return draw(st.none() | st.fixed_dictionaries({"mean": gen.q(-5, 5, 2), "std": st.sampled_from([0.5, 2.0, 10.0])}))


@st.composite
def plot_call(draw, m, f):
    het = {"pdp": [False, True, "std", "std_err", "ice"], "dpdp": [False, True, "std", "std_err", "ice"],
           "ale": [False, True, "std"], "rhale": [False, True, "std"], "shap": [False, True, "std", "shap_values"]}[m]
    o = {"op": "plot", "f": f, "h": draw(st.sampled_from(het)), "c": draw(st.sampled_from(CENT)),
         "sx": draw(scale()), "sy": draw(scale()), "avg": draw(st.booleans())}
    if m in ("pdp", "dpdp"):
        o["nice"] = draw(st.sampled_from(["all", 2]))
    if m == "shap":
        o["nshap"] = draw(st.sampled_from(["all", 3]))
    return o


def do(e, m, o, lim, bins_obj=None):
    """perform one call; returns what it returned"""
    if o["op"] == "fit":
        kw = {"centering": o["c"]}
        if "bins" in o:
            kw["binning_method"] = make_bins(o["bins"]) if bins_obj is None else bins_obj
        if o.get("points") is not None:
            kw["points_for_centering"] = o["points"]
        if "vec" in o:
            kw["use_vectorized"] = o["vec"]
        return e.fit(o["f"], **kw)
    if o["op"] == "eval":
        xs = gen.at(o["xs"], lim[0, o["f"]], lim[1, o["f"]])
        kw = {"heterogeneity": o["h"], "centering": o["c"]}
        if "vec" in o:
            kw["use_vectorized"] = o["vec"]
        if o.get("all"):
            kw["return_all"] = True
        return e.eval(o["f"], xs, **kw)
    kw = {"heterogeneity": o["h"], "centering": o["c"], "scale_x": o["sx"], "scale_y": o["sy"], "show_avg_output": o["avg"]}
    if "nice" in o:
        kw["nof_ice"] = o["nice"]
    if "nshap" in o:
        kw["nof_shap_values"] = o["nshap"]
    e.plot(o["f"], **kw)
    import matplotlib.pyplot as plt
    plt.close("all")


# -------------------------------------------------------------- regional
@st.composite
def rfit(draw, m, D, feats, shallow=False):
    o = {"op": "fit", "f": feats, "depth": draw(st.integers(1, 1 if shallow else min(2, D - 1))), "mp": draw(st.sampled_from([2, 4, 6, 10])),
         "drop": draw(st.sampled_from([0.0, 0.1, 0.1, 0.4])), "small": draw(st.sampled_from([0.0, 0.0, 0.1, 0.5])),
         "nc": draw(st.integers(1, 3 if shallow else 6)), "cat": draw(st.booleans()), "c": draw(st.sampled_from([False, False, True, "zero_start"]))}
    if m == "rhale":
        o["bins"] = draw(st.sampled_from(["greedy", "fixed", "dp", ["greedy", 10], ["fixed", 5], ["dp", 3], ["fixed", 3]]))
    if m == "ale":
        o["bins"] = draw(st.sampled_from(["fixed", ["fixed", 20], ["fixed", 5], ["fixed", 2], None]))
    return o


def rkw(o, bins_obj=None):
    kw = dict(heter_pcg_drop_thres=o["drop"], heter_small_enough=o["small"], max_depth=o["depth"],
              nof_candidate_splits_for_numerical=o["nc"], min_points_per_subregion=o["mp"], split_categorical_features=o["cat"], centering=o["c"])
    if o.get("foc") is not None:
        kw["candidate_conditioning_features"] = o["foc"]
    if o.get("bins") is not None:
        kw["binning_method"] = make_bins(o["bins"]) if bins_obj is None else bins_obj
    return kw


@contextlib.contextmanager
def captured():
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        yield b
