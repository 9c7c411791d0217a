"""RHALE against a naive accumulation reference on the fitted bins."""
import numpy as np
from hypothesis import strategies as st

from vlib import bins, gen, models, ref
from vlib.core import check as ensure, close, rejects, sut
from effector import RHALE

CASES = {"quick": 4000, "thorough": 50000}
RULE = ("Random data set, model with analytic Jacobian, source of derivatives (data effects, Jacobian, numerical), binning, axis limits, query; "
        "non-trivial = at least two non-empty bins and varying derivatives.")
ASSUMPTIONS = ["numerical derivatives are compared with tolerance 1e-5 * (1 + max|f| + max|df/dx|)"]


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(2, 45 if tier == "quick" else 120), big=True))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    src = draw(st.sampled_from(["effects", "effects+jac", "jac", "jac", "numerical"]))
    return {"data": data, "model": draw(gen.term(D, smooth=src == "numerical", focus=s)), "feature": s, "src": src, "es": draw(gen.SEED),
            "xs": draw(gen.query(big=True)), "limits": draw(gen.limits_spec(D)), "bins": draw(bins.spec()),
            "fit": draw(st.sampled_from(["explicit", "explicit", "explicit", "default"]))}


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s, src = c["feature"], c["src"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    lo, hi = L[0, s], L[1, s]
    sel = (X[:, s] >= lo) & (X[:, s] <= hi)
    xin = X[sel, s]
    b = c["bins"] if c["fit"] == "explicit" else {"k": "greedy", "name": True}
    ok = bins.possible(b, xin, lo, hi)
    gen.need(ok is not None, "a point on a bin edge decides feasibility")
    J = f.jac(X)
    given = None
    if src.startswith("effects"):
        given = J + np.random.RandomState(c["es"]).randn(*X.shape)
        J = given
    with sut("RHALE constructor"):
        r = RHALE(X.copy(), f, f.jac if src in ("jac", "effects+jac") else None, axis_limits=arg,
                  data_effect=None if given is None else given.copy())
    if not ok:
        rejects("RHALE on an impossible binning %s" % b, lambda: r.fit(s, binning_method=bins.make(b)))
        return {"nt": False, "labels": ["impossible binning"]}
    xs = gen.at(c["xs"], lo, hi)
    with sut("RHALE"):
        if c["fit"] == "explicit":
            r.fit(s, binning_method=bins.make(b), centering=False)
        y, std = r.eval(s, xs.copy(), heterogeneity=True)
        y1 = r.eval(s, xs.copy())
        lim = np.asarray(r.feature_effect["feature_%d" % s]["limits"], dtype=float)
        yk, sk = r.eval(s, lim.copy(), heterogeneity=True)
    ensure(np.all(np.diff(lim) > 0), "bin edges not increasing: %s", lim)
    eff = J[sel, s]
    e = ref.Effect(xin, eff, lim)
    width = lim[-1] - lim[0]
    scale, rtol = max(np.max(np.abs(eff)) * width, 1e-12), 1e-8
    if src == "numerical":
        scale, rtol = (1 + np.max(np.abs(f(X))) + np.max(np.abs(J))) * max(width, 1.0), 1e-5
    close("RHALE effect", y, e.y(xs), scale, rtol)
    close("RHALE effect (no heterogeneity)", y1, e.y(xs), scale, rtol)
    close("RHALE effect at the bin edges", yk, e.y(lim), scale, rtol)
    if (e.n > 1).any():  # otherwise no spread is defined
        close("RHALE heterogeneity", std, e.std(xs), scale, rtol * 10)
        close("RHALE heterogeneity at the bin edges", sk, e.std(lim), scale, rtol * 10)
    with sut("RHALE"):
        far = r.eval(s, np.array([lim[0] - 1e3, lim[-1] + 1e3]))
    close("RHALE outside the bins", far, np.array([0.0, yk[-1]]), scale, rtol)
    labels = [src, b["k"] + (" (name)" if b.get("name") else "")]
    if np.any(e.n == 0):
        labels.append("empty bins")
    if np.any(e.n == 1):
        labels.append("single-point bins")
    if np.isin(xin, lim[1:-1]).any():
        labels.append("points on edges")
    if sel.sum() < len(X):
        labels.append("instances dropped")
    return {"nt": bool((e.n > 0).sum() > 1 and np.ptp(eff) > 1e-9), "labels": labels}
