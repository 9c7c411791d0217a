"""Numeric type and memory layout of data, model outputs and derivatives against double-precision contiguous ones."""
import numpy as np
from hypothesis import strategies as st

from effector.interaction import HIndex, REPID
from vlib import gen, hist, models, reg
from vlib.core import check as ensure, close, sut
from effector import binning_methods as bm
from effector import PDP, DerPDP, ALE, RHALE, ShapDP, RegionalPDP, RegionalDerPDP, RegionalALE, RegionalRHALE, RegionalShapDP

CASES = {"quick": 1600, "thorough": 16000}
RULE = ("Random class (five global, five regional, two interaction indices), data, model whose output is quantised and returned as boolean, signed/unsigned integer of any width or single precision, "
        "contiguous, strided or read-only; data, query points and axis limits of whole numbers stored as (unsigned) integers or half/single precision; data and Jacobian in row or column order, strided, read-only; the reference run gets the same numbers as contiguous doubles; "
        "non-trivial = an output type other than double or a layout other than contiguous, and outputs that vary.")
ASSUMPTIONS = ["a single-precision output or Jacobian is compared up to 1e-5 of its scale, and so is everything for SHAP-DP",
               "regional trees are compared by the heterogeneity of the root and of the first level (ties between splits may flip)"]

OUT = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float32", "float64"]
LAY = ["C", "C", "F", "strided", "readonly"]


@st.composite
def strategy(draw, tier="quick"):
    kind = draw(st.sampled_from(["global", "global", "global", "regional", "index"]))
    m = draw(st.sampled_from(["H", "REPID"] if kind == "index" else ["pdp", "pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    shap = m == "shap"
    n = (8, 12) if shap and kind == "global" else (12, 16) if shap else (14, 30) if kind == "regional" else (4, 20)
    data = draw(gen.dataset(n=n, d=(2, 2) if shap and kind == "regional" else (2, 3), kinds=hist.SHAPK if shap else gen.ALL, big=kind != "regional" and not shap and "mid"))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    return {"k": kind, "m": m, "data": data, "feature": s, "model": draw(gen.term(D, smooth=True, focus=s)),
            "out": draw(st.sampled_from(OUT)), "q": draw(st.sampled_from([1.0, 4.0, 16.0])), "lay": draw(st.sampled_from(LAY)), "olay": draw(st.sampled_from(["C", "strided", "readonly"])),
            "ddt": draw(st.sampled_from(["float64", "float64", "float64", "float32", "float16", "int64", "int32", "int16", "uint8"])), "dq": draw(st.sampled_from([1, 4, 16])),
            "xdt": draw(st.sampled_from(["float64", "float64", "float32", "int64", "int32"])), "xlay": draw(st.sampled_from(["C", "strided", "readonly"])),
            "ldt": draw(st.sampled_from([None, None, "float64", "float32", "int64"])), "llay": draw(st.sampled_from(LAY)),
            "jdt": draw(st.sampled_from(["float64", "float32", "int64", "int8"])), "jlay": draw(st.sampled_from(LAY)),
            "jac": draw(st.integers(0, 3)) > 0, "src": draw(st.booleans()), "xs": draw(gen.query(0, 1, 5)), "c": draw(st.sampled_from(hist.CENT)),
            "vec": draw(st.booleans()), "bins": draw(st.sampled_from([1, 3, 7])), "all": draw(st.booleans()), "pts": draw(st.sampled_from([5, 57, 100]))}


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.empty(tuple(2 * k for k in a.shape), dtype=a.dtype)
        v = b[tuple(slice(0, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    a = np.array(a, order="C")
    if how == "readonly":
        a.flags.writeable = False
    return a


RANGE = {"uint8": (0, 250, 120), "int8": (-120, 120, 0), "uint16": (0, 60000, 30000), "uint32": (0, 2 ** 31, 2 ** 20), "uint64": (0, 2 ** 31, 2 ** 20)}


class Typed:
    def __init__(self, c, plain):
        self.f, self.c, self.plain = models.Model(c["model"]), c, plain

    def __call__(self, x):
        c = self.c
        v = self.f(np.array(x, dtype=float))
        t = c["out"]
        if t == "bool":
            v = (v > 0.0)
        elif t == "float32":
            v = v.astype(np.float32)
        elif t != "float64":
            lo, hi, mid = RANGE.get(t, (-30000, 30000, 0))
            v = np.clip(np.round(c["q"] * v) + mid, lo, hi).astype(t)
        return np.array(v, dtype=float) if self.plain else layout(v, c["olay"])

    def jac(self, x):
        c = self.c
        v = self.f.jac(np.array(x, dtype=float))
        if c["jdt"] == "float32":
            v = v.astype(np.float32)
        elif c["jdt"] != "float64":
            v = np.clip(np.round(c["q"] * v), -120, 120).astype(c["jdt"])
        return np.array(v, dtype=float) if self.plain else layout(v, c["jlay"])


def run(c, X, plain):
    """list of (what, numbers) computed through the public interface"""
    f = Typed(c, plain)
    Z = np.array(X, dtype=float) if plain else layout(X.astype(c["ddt"]), c["lay"])
    m, s, k = c["m"], c["feature"], c["k"]
    xs = gen.at(c["xs"], X[:, s].min(), X[:, s].max())
    if c["xdt"] != "float64":
        xs = np.clip(np.rint(xs), np.ceil(X[:, s].min()), np.floor(X[:, s].max()))
        gen.need(np.ceil(X[:, s].min()) <= np.floor(X[:, s].max()), "no whole number in the range")
    xs = xs if plain else layout(xs.astype(c["xdt"]), c["xlay"])
    if k == "index":
        if m == "H":
            h = HIndex(Z, f, "all")
            return [("one-vs-all H-index", h.eval_one_vs_all(s)), ("pairwise H-index", h.eval_pairwise(s, (s + 1) % X.shape[1]))]
        return [("REPID", REPID(Z, f, f.jac, "all").eval_one_vs_all(s))]
    jac = f.jac if c["jac"] else None
    kw = {"nof_instances": "all"}
    if c["ldt"] and m != "shap":
        L = np.stack([np.floor(X.min(0)), np.ceil(X.max(0))])
        kw["axis_limits"] = L if plain else layout(L.astype(c["ldt"]), c["llay"])
    pre = "Regional" if k == "regional" else ""
    cls = {"pdp": PDP, "dpdp": DerPDP, "ale": ALE, "rhale": RHALE, "shap": ShapDP} if k == "global" else \
        {"pdp": RegionalPDP, "dpdp": RegionalDerPDP, "ale": RegionalALE, "rhale": RegionalRHALE, "shap": RegionalShapDP}
    if m in ("dpdp", "rhale"):
        if m == "rhale" and c["src"] and c["jac"]:
            kw["data_effect" if k == "global" else "instance_effects"] = f.jac(X)
        e = cls[m](Z, f, jac, **kw)
    else:
        e = cls[m](Z, f, **kw)
    fk = {}
    if m in ("ale", "rhale"):
        fk["binning_method"] = bm.Fixed(c["bins"], 0)
    if k == "global":
        out = [("average output", e.avg_output)]
        if m in ("pdp", "dpdp"):
            e.fit(s, centering=c["c"], points_for_centering=c["pts"], use_vectorized=c["vec"])
            ek = {"use_vectorized": c["vec"], "return_all": c["all"]}
        else:
            e.fit(s, centering=c["c"], **fk)
            ek = {}
        return out + list(zip(("effect", "heterogeneity", "curves"), e.eval(s, xs, heterogeneity=True, centering=c["c"], **ek)))
    e.fit(s, max_depth=1, nof_candidate_splits_for_numerical=2, min_points_per_subregion=4, split_categorical_features=True, heter_small_enough=0.0, centering=c["c"], **fk)
    full = reg.levels(e.tree_full["feature_%d" % s])
    out = [("heterogeneity of the root", full[0][0].data["heterogeneity"])]
    if len(full) > 1:
        out.append(("heterogeneity of the first level", sum(n.data["heterogeneity"] * n.data["weight"] for n in full[1])))
    return out + list(zip(("effect at the root", "heterogeneity at the root"), e.eval(s, 0, xs, heterogeneity=True, centering=c["c"])))


def check(c):
    X = gen.build(c["data"])
    s, m = c["feature"], c["m"]
    if c["ddt"] != "float64":
        # whole numbers that every one of the types holds exactly
        X = np.rint(c["dq"] * X)
        X = np.clip(X - X.min(0), 0, 250) if c["ddt"] == "uint8" else np.clip(X, -2000, 2000)
        gen.need(np.array_equal(X.astype(c["ddt"]).astype(float), X), "not exact")
    for j in range(X.shape[1]):
        gen.need(len(np.unique(X[:, j])) > (4 if m == "shap" else 1), "too few values")
        gen.need(m != "shap" or len(np.unique(X[:, j])) == len(X), "ties")
    try:
        want = run(c, X, True)
    except Exception:
        gen.need(False, "the reference run is rejected")
    what = ("regional " if c["k"] == "regional" else "") + m
    with sut("%s with %s outputs (%s), data %s %s" % (what, c["out"], c["olay"], c["ddt"], c["lay"])):
        got = run(c, X, False)
    ensure(len(got) == len(want), "%s: %d results instead of %d", what, len(got), len(want))
    f = Typed(c, True)
    grid = np.vstack([X] + [np.where(np.arange(X.shape[1]) == s, v, X) for v in np.linspace(X[:, s].min(), X[:, s].max(), 5)])
    scale = float(max(np.abs(f(grid)).max(), np.abs(f.jac(grid)).max() * max(1.0, np.ptp(X[:, s])), 1e-300))
    used_j = m in ("rhale", "dpdp") and c["jac"]
    single = c["out"] == "float32" or used_j and c["jdt"] == "float32" or m == "shap"
    tol = 1e-5 if single else 1e-9
    if m in ("rhale", "dpdp") and not c["jac"]:
        scale = scale / 1e-6 * (max(1.0, np.ptp(X[:, s])) if m == "rhale" else 1.0)  # difference quotients of a discontinuous model
        tol = 1e-12 if not single else 1e-5
    for (k, g), (_, w) in zip(got, want):
        if m == "H":
            # 0/0: the joint partial dependence is constant
            a = [s] if k.startswith("one") else [s, (s + 1) % X.shape[1]]
            if k.startswith("one"):
                ab = f(X)
            else:
                ab = np.array([f(np.where(np.isin(np.arange(X.shape[1]), a), r, X)).mean() for r in X])
            if np.std(ab) < 1e-6 * scale:
                continue
            nom = np.asarray(w, dtype=float)
            close("%s %s, %s outputs" % (what, k, c["out"]), g, nom, 1.0, max(tol, 1e-7) if np.isfinite(nom).all() else 0)
        else:
            close("%s %s with %s outputs (%s) and %s derivatives (%s), data %s %s" % (what, k, c["out"], c["olay"], c["jdt"], c["jlay"], c["ddt"], c["lay"]), g, w, scale, tol)
    labels = [what, "out " + c["out"], "data " + c["lay"], "data of type " + c["ddt"], "points of type " + c["xdt"], "limits of type %s" % c["ldt"]]
    if used_j:
        labels.append("derivatives " + c["jdt"])
    return {"nt": bool(np.ptp(f(X)) > 0) and (c["out"] != "float64" or c["lay"] != "C" or c["olay"] != "C" or c["ddt"] != "float64"), "labels": labels}
