"""SHAP-DP against exact Shapley enumeration and the default smoothing spline."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check as ensure, close, sut
from effector import ShapDP

CASES = {"quick": 700, "thorough": 12000}
RULE = ("Random data set (2-22 rows, 1-4 features), model, axis limits, query; "
        "non-trivial = the exact Shapley values of the feature vary and the model has an interaction or two features.")
ASSUMPTIONS = ["at least two instances with distinct feature values inside the limits",
               "fewer instances than the background size of shap.Explainer (100)"]
KINDS = ["unif", "norm", "skew", "lins", "corr", "clus"]


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(2, 22 if tier == "quick" else 40), d=(1, 4), kinds=KINDS))
    if draw(st.integers(0, 19)) == 7:
        data["n"], data["cols"] = draw(st.integers(50, 100)), data["cols"][:2]
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    others = [k for k in range(D) if k != s]
    # a conditioning feature may be discrete
    for k in others:
        if draw(st.integers(0, 3)) == 0:
            data["cols"][k] = draw(gen.col(["cat"]))
    if draw(st.integers(0, 7)) == 0:  # as may be the feature of interest when it is binary or ternary
        data["cols"][s] = {"k": "cat", "o": draw(st.integers(-2, 2)), "gaps": draw(st.lists(st.sampled_from([0.5, 1.0, 2.0]), min_size=1, max_size=2))}
    elif draw(st.integers(0, 3)) == 0:  # so may be the feature of interest: instances that share its value
        data["cols"][s] = draw(gen.col(["cat", "grid"]))
    return {"data": data, "model": draw(gen.term(D, smooth=False, focus=s)), "feature": s, "xs": draw(gen.query()),
            "limits": draw(gen.limits_spec(D)), "fit": draw(st.sampled_from(["no", "one", "all", "all"])),
            # instead of the limits: leave out the k smallest / largest values of every feature
            "rank": draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([0, 1, 2, 5]), st.sampled_from([0, 1, 3])))),
            "nof": draw(st.sampled_from(["all", "all", 100, "default"])), "int": False}


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s = c["feature"]
    arg, L = gen.axis_limits(c["limits"], X)
    if c.get("rank"):
        a, b = c["rank"]
        gen.need(a + b < len(X), "few rows")
        Z = np.sort(X, axis=0)
        L = np.stack([Z[a], Z[len(Z) - 1 - b]])
        arg = L.copy()
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(np.unique(Xin[:, s])) >= 2, "one distinct value")
    u = len(np.unique(Xin[:, s]))
    lo, hi = Xin[:, s].min(), Xin[:, s].max()
    xs = gen.at(c["xs"], lo, hi)
    xs = xs[(xs >= lo) & (xs <= hi)]  # inside the data: splines extrapolate wildly
    if len(xs) == 0:
        xs = np.array([lo, hi])
    phi = ref.shapley(f, Xin, Xin)[:, s]
    order = np.lexsort((phi, Xin[:, s]))
    want_x, want_y = Xin[order, s], phi[order]
    kw = {} if c["nof"] == "default" else {"nof_instances": c["nof"]}
    with sut("ShapDP"):
        e = ShapDP(X.copy(), f, axis_limits=arg, **kw)
        if c["fit"] == "all":
            ok = [j for j in range(X.shape[1]) if L[0, j] < L[1, j] and len(np.unique(gen.inside(X, L, j)[:, j])) >= 2]
            e.fit("all" if len(ok) == X.shape[1] else ok)
        elif c["fit"] == "one":
            e.fit(s)
        y, std = e.eval(s, xs.copy(), heterogeneity=True)
        y1 = e.eval(s, xs.copy())
        ev = e.feature_effect.get("feature_%d" % s, {})
    scale = max(np.abs(f(Xin)).max(), 1e-9)
    x, v = want_x, want_y
    if isinstance(ev, dict) and "xx" in ev and "yy" in ev:
        close("explained feature values", ev["xx"], want_x, 0, 0)
        o = np.lexsort((np.asarray(ev["yy"]), np.asarray(ev["xx"])))  # instances that share a value: in any order
        close("SHAP values", np.asarray(ev["yy"])[o], want_y, scale, 1e-9)
        x, v = np.asarray(ev["xx"]), np.asarray(ev["yy"])  # the same numbers up to rounding: knots then agree exactly
    sp = ref.spline(x, v)
    sd = ref.spline(x, np.abs(v - sp(x)))
    want, wstd = sp(xs), sd(xs)
    gen.need(np.isfinite(want).all() and np.isfinite(wstd).all(), "spline not finite")
    close("SHAP-DP curve", y, want, max(scale, np.abs(want).max()), 1e-8)
    close("SHAP-DP curve (no heterogeneity)", y1, want, max(scale, np.abs(want).max()), 1e-8)
    close("SHAP-DP heterogeneity", std, wstd, max(scale, np.abs(wstd).max()), 1e-8)
    labels = ["D=%d" % X.shape[1], "%s distinct values" % (u if u < 4 else "4+")]
    if len(Xin) < len(X):
        labels.append("instances dropped")
        if c["fit"] == "all":
            labels.append("all features fitted, instances dropped")
    if models.interacts(c["model"]):
        labels.append("interaction")
    if np.abs(v - sp(x)).max() > 1e-9:
        labels.append("residuals")
    return {"nt": bool(np.ptp(want_y) > 1e-9 and X.shape[1] > 1), "labels": labels}
