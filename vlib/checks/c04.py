"""ALE against a naive reference."""
import numpy as np
from hypothesis import strategies as st

from vlib import bins, gen, models, ref
from vlib.core import check as ensure, close, rejects, sut
from effector import ALE

CASES = {"quick": 4000, "thorough": 60000}
RULE = ("Random data set (continuous, gridded, clustered with gaps, unevenly spaced categories), model (also discontinuous), axis limits, fixed binning "
        "(name, default or object), query; non-trivial = at least two non-empty bins and local effects that vary.")


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(2, 45 if tier == "quick" else 120), big=True))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    return {"data": data, "model": draw(gen.term(D, smooth=False, focus=s)), "feature": s, "xs": draw(gen.query(big=True)),
            "limits": draw(gen.limits_spec(D)), "bins": draw(bins.spec(kinds=("fixed",), min_points=(0, 3))),
            "fit": draw(st.sampled_from(["explicit", "explicit", "default"]))}


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s = c["feature"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    lo, hi = L[0, s], L[1, s]
    b = c["bins"] if c["fit"] == "explicit" else {"k": "fixed", "name": True}
    ok = bins.possible(b, Xin[:, s], lo, hi)
    gen.need(ok is not None, "a point on a bin edge decides feasibility")
    with sut("ALE constructor"):
        ale = ALE(X.copy(), f, axis_limits=arg)
    if not ok:
        rejects("ALE on an impossible binning %s" % b, lambda: ale.fit(s, binning_method=bins.make(b)))
        return {"nt": False, "labels": ["impossible binning"]}
    xs = gen.at(c["xs"], lo, hi)
    with sut("ALE"):
        if c["fit"] == "explicit":
            ale.fit(s, binning_method=bins.make(b), centering=False)
        y, std = ale.eval(s, xs.copy(), heterogeneity=True)
        y1 = ale.eval(s, xs.copy())
        lim = np.asarray(ale.feature_effect["feature_%d" % s]["limits"], dtype=float)
        yk, sk = ale.eval(s, lim.copy(), heterogeneity=True)
    fb = bins.full(b)
    want_lim = ref.cat_limits(Xin[:, s]) if len(np.unique(Xin[:, s])) <= fb["cat"] else np.linspace(lo, hi, fb["n"] + 1)
    close("ALE bin edges", lim, want_lim, hi - lo, 1e-10)
    eff = ref.ale_local(f, Xin, lim, s)
    e = ref.Effect(Xin[:, s], eff, lim)
    corners = np.concatenate([[f(np.where(np.arange(X.shape[1]) == s, v, Xin)) for v in lim]])
    scale = max(np.max(np.abs(corners)), np.max(np.abs(yk)))
    close("ALE effect", y, e.y(xs), scale, 1e-8)
    close("ALE effect (no heterogeneity)", y1, e.y(xs), scale, 1e-8)
    close("ALE effect at the bin edges", yk, e.y(lim), scale, 1e-8)
    # a variance of rounding errors only becomes visible after the square root
    if (e.n > 1).any():  # otherwise no spread is defined
        close("ALE heterogeneity", std, e.std(xs), scale, 1e-7)
        close("ALE heterogeneity at the bin edges", sk, e.std(lim), scale, 1e-7)
    with sut("ALE"):
        far = ale.eval(s, np.array([lim[0] - 1e3, lim[-1] + 1e3]))
    close("ALE outside the bins", far, np.array([0.0, yk[-1]]), scale, 1e-8)
    labels = ["categorical" if len(np.unique(Xin[:, s])) <= fb["cat"] else "equal width"]
    if np.any(e.n == 0):
        labels.append("empty bins")
    if np.any(e.n == 1):
        labels.append("single-point bins")
    if np.isin(Xin[:, s], lim[1:-1]).any():
        labels.append("points on edges")
    if len(Xin) < len(X):
        labels.append("instances dropped")
    if np.ptp(np.diff(lim)) > 1e-9:
        labels.append("unequal widths")
    return {"nt": bool((e.n > 0).sum() > 1 and np.ptp(eff) > 1e-9), "labels": labels}
