"""Unit changes x -> a*x+b of the features leave the effects in place."""
import numpy as np
from hypothesis import strategies as st

from effector.interaction import HIndex, REPID
from vlib import bins, gen, hist, models
from vlib.core import check as ensure, close, sut

CASES = {"quick": 1400, "thorough": 16000}
RULE = ("Random global method (or interaction index), data, model with Jacobian, binning, axis limits, centering; every feature gets its own unit: a power of two (2^-60..2^60), and in a third "
        "of the cases an offset (dyadic data, so the re-expressed data are exact); non-trivial = a non-flat effect and a unit other than 1.")
ASSUMPTIONS = ["units are powers of two so that model inputs are reproduced exactly; with offsets only equal-width bins are compared and no instance lies on a bin edge",
               "SHAP-DP is compared up to 1e-5 (spline fit)", "derivative-based methods get the Jacobian"]


@st.composite
def strategy(draw, tier="quick"):
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "ale", "rhale", "rhale", "shap", "h", "repid"]))
    shift = draw(st.integers(0, 2)) == 0
    shap = m == "shap"
    data = draw(gen.dataset(n=(8, 16) if shap else (4, 40), d=(2, 3) if m == "h" else (1, 3), kinds=hist.SHAPK if shap else gen.ALL, big=m in ("pdp", "dpdp", "ale", "rhale") and "mid"))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    k = st.sampled_from([0, 1, -3, 7, -12, 20, -27, 27, -40, 40, -60, 60])
    b = st.sampled_from([0.0, 1.0, -17.0, 256.0, 1000.0, -1024.0] + ([] if shap else [2.0 ** 17, -2.0 ** 20]))
    c = {"m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale") or shift, focus=s)), "feature": s, "limits": draw(gen.limits_spec(D)),
         "k": draw(st.lists(k, min_size=D, max_size=D)), "b": draw(st.lists(b, min_size=D, max_size=D)) if shift else None,
         "xs": draw(gen.query(-0.3, 1.3, 5)), "c": draw(st.sampled_from(hist.CENT)), "out": draw(st.sampled_from([1.0, 1.0, 2.0 ** -30, 2.0 ** 30])),
         "effects": draw(st.booleans()), "es": draw(gen.SEED)}
    if m in ("ale", "rhale"):
        kinds = ("fixed",) if m == "ale" or shift else ("fixed", "greedy", "dp", "greedy", "dp")
        c["bins"] = draw(bins.spec(kinds, names=True, max_dp=6, min_points=(0, draw(st.sampled_from([3, 3, 8])))))
    return c


def check(c):
    m, s = c["m"], c["feature"]
    X = gen.build(c["data"])
    if c["b"] is not None:
        X = np.round(X * 1024) / 1024
    D = X.shape[1]
    for j in range(D):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    _, L = gen.axis_limits(c["limits"], X)
    a = np.array([2.0 ** k for k in c["k"]])
    b = np.zeros(D) if c["b"] is None else np.array(c["b"]) * a
    Y, LY = X * a + b, L * a + b
    ensure(np.array_equal((Y - b) / a, X) and np.array_equal((LY - b) / a, L), "harness: unit change is not exact")
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(Xin) > 0 and len(np.unique(Xin[:, s])) > (4 if m == "shap" else 1), "too few instances inside the limits")
    f = models.Model(c["model"], c["out"])
    g = models.Units(f, a, b)
    labels = [m, "offset" if c["b"] is not None else "scale only", "unit 2^%d" % c["k"][s]]
    rel = 0.0 if c["b"] is None else 1e-12 * float(np.max(np.abs(b) / (a * (L[1] - L[0]))))
    J = None
    corners = [np.where(np.arange(D) == s, v, X) for v in L[:, s]] + [X]
    mag = max(np.abs(f(z)).max() for z in corners)
    dmag = max(np.abs(f.jac(z)[:, s]).max() for z in corners)

    if m in ("h", "repid"):
        def run(Z, fn):
            with sut(m + " in other units" if fn is g else m):
                if m == "h":
                    h = HIndex(Z.copy(), fn, "all")
                    return [h.eval_pairwise(i, j) for i in range(D) for j in range(i)] + [h.eval_one_vs_all(i) for i in range(D)]
                r = REPID(Z.copy(), fn, fn.jac, "all")
                return [r.eval_one_vs_all(i) for i in range(D)]
        p, q = np.array(run(X, f)), np.array(run(Y, g))
        ok = np.isfinite(p)
        if m == "h":
            ok &= np.abs(p) < 100
            close("H-index in other units", q[ok], p[ok], 1, 1e-6 + rel * 1e3)
        else:
            close("REPID index in other units", q, p, mag, 1e-8 + rel * 1e3)
        return {"nt": bool(np.any(np.abs(p[ok]) > 1e-9) and np.any(a != 1)), "labels": labels}

    kw, kwY = dict(axis_limits=L.copy(), nof_instances="all"), dict(axis_limits=LY.copy(), nof_instances="all")
    if c["limits"] is None:
        kw["axis_limits"] = kwY["axis_limits"] = None
    if m == "rhale":
        J = f.jac(X) + (c["out"] * np.random.RandomState(c["es"]).randn(*X.shape) if c["effects"] else 0.0)
        dmag = max(dmag, np.abs(J[:, s]).max())
        if c["effects"]:
            kw["data_effect"], kwY["data_effect"] = J.copy(), J / a
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    if c["b"] is not None:
        xs = np.round(xs * 1024) / 1024
    xsY = xs * a[s] + b[s]
    if m in ("ale", "rhale"):
        bs = bins.full(c["bins"])
        if c["b"] is not None and len(np.unique(Xin[:, s])) > bs["cat"]:
            edges = np.linspace(L[0, s], L[1, s], bs["n"] + 1)[1:-1]
            if len(edges):
                gap = np.abs(Xin[:, s][:, None] - edges[None, :]).min()
                gen.need(gap > 1e-6 * (L[1, s] - L[0, s]), "an instance on a bin edge")
        ok = bins.possible(c["bins"], Xin[:, s], L[0, s], L[1, s])
        gen.need(ok is not None, "possibility of the binning depends on rounding")

    def run(Z, fn, k, pts, lim):
        what = m if fn is f else m + " in other units"
        with sut(what):
            e = hist.build(m, Z.copy(), fn, **k)
            if m in ("ale", "rhale"):
                e.fit(s, binning_method=bins.make(c["bins"]), centering=c["c"])
            y, std = e.eval(s, pts.copy(), heterogeneity=True, centering=c["c"])
            edges = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float) if m in ("ale", "rhale") else None
        return np.asarray(y), np.asarray(std), edges
    if m in ("ale", "rhale") and not ok:
        # rejected in every unit
        for Z, fn, k in ((X, f, kw), (Y, g, kwY)):
            try:
                hist.build(m, Z.copy(), fn, **k).fit(s, binning_method=bins.make(c["bins"]), centering=c["c"])
            except Exception:
                continue
            ensure(False, "%s.fit with the impossible binning %s accepted %s", m, c["bins"], "in other units" if fn is g else "")
        return {"nt": bool(np.any(a != 1)), "labels": labels + ["rejected binning"]}
    y, std, ed = run(X, f, kw, xs, L)
    y2, std2, ed2 = run(Y, g, kwY, xsY, LY)
    sc = max(mag, dmag * (L[1, s] - L[0, s]), np.abs(y).max())
    if m == "dpdp":
        y2, std2 = y2 * a[s], std2 * a[s]
        sc = max(dmag, np.abs(y).max())
    if m == "shap":
        # smoothing decisions of the spline fit compare sums of residuals: leave room where they are close
        sc = max(sc, np.abs(std).max())
        close("%s effect in other units" % m, y2, y, sc, 1e-5)
        close("%s heterogeneity in other units" % m, std2, std, sc, 1e-5)
    else:
        if ed is not None:
            close("bin edges in other units", (ed2 - b[s]) / a[s], ed, L[1, s] - L[0, s], 1e-10 + rel)
        close("%s effect in other units" % m, y2, y, sc, 1e-9 + rel * 1e3)
        close("%s heterogeneity in other units" % m, std2, std, sc, 1e-7 + rel * 1e3)
    return {"nt": bool(np.ptp(y) > 0 or np.abs(y).max() > 0) and bool(np.any(a != 1) or c["b"] is not None), "labels": labels}
