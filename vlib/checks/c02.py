"""d-PDP / d-ICE against analytic derivatives."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check as ensure, close, sut
from effector import DerPDP
from effector.global_effect_pdp import pdp_1d_non_vectorized, pdp_1d_vectorized

CASES = {"quick": 4000, "thorough": 60000}
RULE = ("Random data set, model term (smooth when no Jacobian is supplied), axis limits, query points; the supplied Jacobian may be a multiple "
        "of the true one; non-trivial = at least 3 instances inside the limits and derivatives that vary over instances.")
ASSUMPTIONS = ["finite-difference derivatives are compared with tolerance 1e-6 * (1 + max|f| + max|df/dx|)"]


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(2, 40 if tier == "quick" else 90), big=True))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    jac = draw(st.booleans())
    return {"data": data, "model": draw(gen.term(D, smooth=not jac, focus=s)), "feature": s, "jac": jac,
            "js": draw(st.sampled_from([1.0, 1.0, 2.0, -0.5])), "xs": draw(gen.query(big=True)), "limits": draw(gen.limits_spec(D)),
            "vec": draw(st.booleans()), "fit": draw(st.sampled_from(["no", "yes", "centered"]))}


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s = c["feature"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(Xin) > 0, "no instance inside the axis limits")
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    js = c["js"] if c["jac"] else 1.0
    jac = (lambda x: js * f.jac(x)) if c["jac"] else None
    want = js * ref.dice(f.jac, Xin, xs, s)
    full = js * ref.dice(f.jac, X, xs, s)
    if c["jac"]:
        scale, rtol = max(np.max(np.abs(full)), 1e-12), 1e-9
    else:
        scale, rtol = 1.0 + np.max(np.abs(full)) + np.max(np.abs(ref.ice(f, X, xs, s))), 1e-6
    with sut("DerPDP"):
        d = DerPDP(X.copy(), f, jac, axis_limits=arg, nof_instances="all")
        if c["fit"] == "yes":
            d.fit(s, centering=False, use_vectorized=c["vec"])
        elif c["fit"] == "centered":
            d.fit(s, centering=True, use_vectorized=c["vec"])
        y = d.eval(s, xs.copy(), use_vectorized=c["vec"])
        yh, std = d.eval(s, xs.copy(), heterogeneity=True, use_vectorized=c["vec"])
        dice = d.eval(s, xs.copy(), return_all=True, use_vectorized=c["vec"])
        dice2 = d.eval(s, xs.copy(), return_all=True, use_vectorized=not c["vec"])
    close("d-ICE matrix (vectorized=%s)" % c["vec"], dice, want, scale, rtol)
    close("d-ICE matrix (vectorized=%s)" % (not c["vec"]), dice2, want, scale, rtol)
    close("d-PDP", y, want.mean(axis=1), scale, rtol)
    close("d-PDP with heterogeneity", yh, want.mean(axis=1), scale, rtol)
    close("d-PDP heterogeneity", std, ref.pstd(want), scale, rtol)
    if not c["jac"]:
        for name, fn in (("vectorized", pdp_1d_vectorized), ("non-vectorized", pdp_1d_non_vectorized)):
            with sut("pdp_1d derivatives " + name):
                al = fn(f, X.copy(), xs, s, False, False, True, True)
                mean, sig, err = fn(f, X.copy(), xs, s, True, False, False, True)
            close("pdp_1d %s derivatives" % name, al, full, scale, rtol)
            close("pdp_1d %s derivative mean" % name, mean, full.mean(axis=1), scale, rtol)
            close("pdp_1d %s derivative std" % name, sig, ref.pstd(full), scale, rtol)
            close("pdp_1d %s derivative stderr" % name, err, ref.pstd(full) / np.sqrt(len(X)), scale, rtol)
    nt = len(Xin) >= 3 and np.ptp(want, axis=1).max() > 1e-6
    labels = ["analytic" if c["jac"] else "numerical", "limits given" if c["limits"] else "limits inferred"]
    if len(Xin) < len(X):
        labels.append("instances dropped")
    return {"nt": bool(nt), "labels": labels}
