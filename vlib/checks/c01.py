"""PDP / ICE against a per-point reference."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check as ensure, close, sut
from effector import PDP
from effector.global_effect_pdp import pdp_1d_non_vectorized, pdp_1d_vectorized, pdp_nd_non_vectorized, pdp_nd_vectorized

CASES = {"quick": 4000, "thorough": 60000}
RULE = ("Random data set (2-40 rows, 1-4 columns: continuous, gridded, clustered, categorical, correlated), random term model, "
        "axis limits, query points and call order; non-trivial = at least 3 instances inside the limits and an ICE matrix that varies over instances and over query points.")


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(2, 40 if tier == "quick" else 90), big=True))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    return {"data": data, "model": draw(gen.term(D, smooth=False, focus=s)), "feature": s,
            "xs": draw(gen.query(big=True)), "limits": draw(gen.limits_spec(D)), "vec": draw(st.booleans()),
            "fit": draw(st.sampled_from(["no", "no", "yes", "centered"])),
            "hole": draw(st.one_of(*[st.none()] * 5, st.tuples(st.integers(0, D - 1), st.sampled_from([0.25, 0.5, 0.875])))),
            "nd": draw(st.lists(st.integers(0, D - 1), min_size=1, max_size=D, unique=True)),
            "ndq": draw(gen.query(max_size=4))}


class Holes:
    """a model that has no answer (NaN) where one of the features is large"""

    def __init__(self, f, j, t):
        self.f, self.j, self.t = f, j, t

    def __call__(self, x):
        return np.where(x[:, self.j] > self.t, np.nan, self.f(x))

    def jac(self, x):
        return np.where(x[:, [self.j]] > self.t, np.nan, self.f.jac(x))


def most(a):
    a = np.abs(a)
    return float(np.max(a[np.isfinite(a)], initial=0.0))


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    if c.get("hole"):
        j, fr = c["hole"]
        f = Holes(f, j, gen.at([fr], X[:, j].min(), X[:, j].max())[0])
    s = c["feature"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(Xin) > 0, "no instance inside the axis limits")
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    want = ref.ice(f, Xin, xs, s)
    scale = most(want)

    with sut("PDP"):
        pdp = PDP(X.copy(), f, axis_limits=arg, nof_instances="all")
        if c["fit"] == "yes":
            pdp.fit(s, centering=False, use_vectorized=c["vec"])
        elif c["fit"] == "centered":
            pdp.fit("all" if all(L[0, j] < L[1, j] and len(gen.inside(X, L, j)) for j in range(X.shape[1])) else s,
                    centering=True, use_vectorized=c["vec"])
        y = pdp.eval(s, xs.copy(), use_vectorized=c["vec"])
        yh, std = pdp.eval(s, xs.copy(), heterogeneity=True, use_vectorized=c["vec"])
        ice = pdp.eval(s, xs.copy(), return_all=True, use_vectorized=c["vec"])
        ice2 = pdp.eval(s, xs.copy(), return_all=True, use_vectorized=not c["vec"])
    close("ICE matrix (vectorized=%s)" % c["vec"], ice, want, scale, 1e-9)
    close("ICE matrix (vectorized=%s)" % (not c["vec"]), ice2, want, scale, 1e-9)
    close("PDP", y, want.mean(axis=1), scale, 1e-9)
    close("PDP with heterogeneity", yh, want.mean(axis=1), scale, 1e-9)
    close("PDP heterogeneity", std, ref.pstd(want), scale, 1e-9)

    # helper functions: one feature, outputs and Jacobian columns
    wj = ref.dice(f.jac, X, xs, s)
    wf = ref.ice(f, X, xs, s)
    for name, fn in (("vectorized", pdp_1d_vectorized), ("non-vectorized", pdp_1d_non_vectorized)):
        with sut("pdp_1d " + name):
            m = fn(f, X.copy(), xs, s, False, False)
            mean, sig, err = fn(f, X.copy(), xs, s, True, False)
            al = fn(f, X.copy(), xs, s, False, False, True)
            mj = fn(f.jac, X.copy(), xs, s, False, True)
            alj = fn(f.jac, X.copy(), xs, s, False, True, True)
        sc = most(wf)
        close("pdp_1d %s mean" % name, m, wf.mean(axis=1), sc, 1e-9)
        close("pdp_1d %s mean (heterogeneity)" % name, mean, wf.mean(axis=1), sc, 1e-9)
        close("pdp_1d %s std" % name, sig, ref.pstd(wf), sc, 1e-9)
        close("pdp_1d %s stderr" % name, err, ref.pstd(wf) / np.sqrt(len(X)), sc, 1e-9)
        close("pdp_1d %s all" % name, al, wf, sc, 1e-9)
        sj = most(wj)
        close("pdp_1d %s jacobian mean" % name, mj, wj.mean(axis=1), sj, 1e-9)
        close("pdp_1d %s jacobian all" % name, alj, wj, sj, 1e-9)

    # several features at once
    feats = c["nd"]
    lo, hi = X.min(axis=0), X.max(axis=0)
    P = np.stack([gen.at(c["ndq"], lo[j], hi[j]) for j in feats], axis=-1)
    if len(feats) > 1:
        P[:, 1] = P[::-1, 1]
    wn = np.zeros((len(P), len(X)))
    for k in range(len(P)):
        Z = X.copy()
        for j, ft in enumerate(feats):
            Z[:, ft] = P[k, j]
        wn[k] = f(Z)
    sn = most(wn)
    for name, fn in (("vectorized", pdp_nd_vectorized), ("non-vectorized", pdp_nd_non_vectorized)):
        with sut("pdp_nd " + name):
            m = fn(f, X.copy(), P.copy(), list(feats), False, False)
            mean, sig, err = fn(f, X.copy(), P.copy(), list(feats), True, False)
        close("pdp_nd %s mean" % name, m, wn.mean(axis=1), sn, 1e-9)
        close("pdp_nd %s mean (heterogeneity)" % name, mean, wn.mean(axis=1), sn, 1e-9)
        close("pdp_nd %s std" % name, sig, ref.pstd(wn), sn, 1e-9)
        close("pdp_nd %s stderr" % name, err, ref.pstd(wn) / np.sqrt(len(X)), sn, 1e-9)

    nt = len(Xin) >= 3 and len(xs) > 1 and np.ptp(want, axis=0).max() > 1e-9 and np.ptp(want, axis=1).max() > 1e-9
    labels = ["limits given" if c["limits"] else "limits inferred"]
    if len(Xin) < len(X):
        labels.append("instances dropped")
    if len(feats) > 1:
        labels.append("several features")
    if np.isnan(want).any():
        labels.append("model without an answer for some rows")
        nt = nt or not np.isnan(want).all()
    return {"nt": bool(nt), "labels": labels}
