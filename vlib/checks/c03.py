"""Centering: constants, per-ICE centering, heterogeneity under centering."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check as ensure, close, sut
from effector import ALE, RHALE, PDP, DerPDP, ShapDP
from effector import binning_methods as bm

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("Random method, data set, model, axis limits, centering mode, number of centering points, query; "
        "non-trivial = the uncentered effect varies by more than 1e-6 over the query and axis start.")
ASSUMPTIONS = ["(RH)ALE: the mean along the axis may be off by the midpoint-rule error bound of a 99-cell grid",
               "SHAP-DP: the mean along the axis is the trapezoid rule on the requested centering points"]


@st.composite
def strategy(draw, tier="quick"):
    m = draw(st.sampled_from(["pdp", "pdp", "dpdp", "ale", "rhale", "ale", "rhale", "shap"]))
    if m == "shap":
        data = draw(gen.dataset(n=(6, 20), d=(1, 3), kinds=["unif", "norm", "skew", "lins"]))
    else:
        data = draw(gen.dataset(n=(3, 40), big=True))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    return {"m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("rhale", "dpdp"), focus=s)), "feature": s,
            "xs": draw(gen.query(big=True)), "limits": draw(gen.limits_spec(D)),
            "mode": draw(st.sampled_from([True, "zero_integral", "zero_start"])),
            "points": draw(st.sampled_from([None, None, 2, 5, 17, 30, 101, 150, 257, 640, 1500, "all"])), "fit": draw(st.booleans()), "jac": draw(st.booleans()),
            "vec": draw(st.booleans()), "bins": draw(st.sampled_from([2, 5, 20]))}


def build(c, X, f, arg):
    m = c["m"]
    if m == "pdp":
        return PDP(X.copy(), f, axis_limits=arg, nof_instances="all")
    if m == "dpdp":
        return DerPDP(X.copy(), f, f.jac if c["jac"] else None, axis_limits=arg, nof_instances="all")
    if m == "ale":
        return ALE(X.copy(), f, axis_limits=arg)
    if m == "rhale":
        return RHALE(X.copy(), f, f.jac, axis_limits=arg)
    return ShapDP(X.copy(), f, axis_limits=arg, nof_instances="all")


def check(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    s, m, mode = c["feature"], c["m"], c["mode"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(Xin) > 0, "no instance inside the axis limits")
    if m == "shap":
        gen.need(len(np.unique(Xin[:, s])) > 4, "few values inside the axis limits")
    lo, hi = L[0, s], L[1, s]
    xs = gen.at(c["xs"], lo, hi)
    start = mode == "zero_start"
    labels = [m, "zero_start" if start else "zero_integral"]

    if m in ("pdp", "dpdp"):
        P = c["points"] if c["fit"] else None
        if start:
            grid = np.array([lo])
        elif P == "all":
            grid = Xin[:, s]
        else:
            grid = np.linspace(lo, hi, 100 if P is None else P)
        cur = (lambda z: ref.ice(f, Xin, z, s)) if m == "pdp" else (lambda z: ref.dice(f.jac, Xin, z, s))
        ice = cur(xs)
        g = cur(grid)
        want = ice - g.mean(axis=0)
        scale, rtol = max(np.abs(ice).max(), np.abs(g).max()), 1e-9
        if m == "dpdp" and not c["jac"]:
            scale, rtol = 1 + scale + max(np.abs(ref.ice(f, Xin, np.append(xs, grid), s)).max(), 0), 2e-6
        with sut("centered %s" % m):
            e = build(c, X, f, arg)
            if c["fit"]:
                kw = {} if P is None else {"points_for_centering": P}
                e.fit(s, centering=mode, use_vectorized=c["vec"], **kw)
            yy = e.eval(s, xs.copy(), centering=mode, return_all=True, use_vectorized=c["vec"])
            y, std = e.eval(s, xs.copy(), centering=mode, heterogeneity=True, use_vectorized=c["vec"])
            y1 = e.eval(s, xs.copy(), centering=mode)
            yu = e.eval(s, xs.copy(), centering=False)
        close("centered %s ICE" % m, yy, want, scale, rtol)
        close("centered %s" % m, y, want.mean(axis=1), scale, rtol)
        close("centered %s (no heterogeneity)" % m, y1, want.mean(axis=1), scale, rtol)
        close("%s heterogeneity of centered curves" % m, std, ref.pstd(want), scale, rtol)
        close("uncentered %s after centering" % m, yu, ice.mean(axis=1), scale, rtol)
        return {"nt": bool(np.ptp(ice, axis=0).max() > 1e-6), "labels": labels}

    with sut("centered %s" % m):
        e0 = build(c, X, f, arg)
        e = build(c, X, f, arg)
        kw = {}
        if m in ("ale", "rhale"):
            gen.need(len(np.unique(Xin[:, s])) > 1, "one unique value")
            bins = bm.Fixed(c["bins"], 0)
            e0.fit(s, binning_method=bins, centering=False)
            if c["fit"]:
                e.fit(s, binning_method=bins, centering=mode)
            else:
                e.fit(s, binning_method=bins, centering=False)
        elif c["fit"]:
            kw = {} if c["points"] is None else {"points_for_centering": c["points"]}
            e.fit(s, centering=mode, **kw)
        yu, su = e0.eval(s, xs.copy(), heterogeneity=True, centering=False)
        y, std = e.eval(s, xs.copy(), heterogeneity=True, centering=mode)
        y1 = e.eval(s, xs.copy(), centering=mode)
    if m == "shap":
        if not (np.isfinite(yu).all() and np.isfinite(y).all()):
            gen.need(False, "spline not finite")
        x0, x1 = Xin[:, s].min(), Xin[:, s].max()
        P = c["points"] if c["fit"] else None
        grid = np.array([x0]) if start else (np.sort(Xin[:, s]) if P == "all" else np.linspace(x0, x1, 100 if P is None else P))
        with sut("shap eval"):
            g = e0.eval(s, grid, centering=False)
        const = g[0] if start else np.sum((g[1:] + g[:-1]) / 2 * np.diff(grid)) / (x1 - x0)
        scale = max(np.abs(yu).max(), np.abs(g).max())
        close("centered SHAP-DP", y, yu - const, scale, 1e-8)
        close("centered SHAP-DP (no heterogeneity)", y1, yu - const, scale, 1e-8)
        close("SHAP-DP heterogeneity under centering", std, su, scale, 1e-9)
        return {"nt": bool(np.ptp(np.append(yu, g)) > 1e-6), "labels": labels}

    # (RH)ALE
    with sut("uncentered %s" % m):
        lim = np.asarray(e0.feature_effect["feature_%d" % s]["limits"], dtype=float)
        knots = np.unique(np.concatenate([[lo, hi], lim[(lim > lo) & (lim < hi)]]))
        yk0 = e0.eval(s, knots.copy(), centering=False)
        yk = e.eval(s, knots.copy(), centering=mode)
    scale = max(np.abs(yu).max(), np.abs(yk0).max(), np.abs(yk).max())
    shift = yk0 - yk
    close("centering must shift %s by one constant" % m, shift, np.full(len(shift), shift[0]), scale, 1e-8)
    close("centered %s" % m, y, yu - shift[0], scale, 1e-8)
    close("centered %s (no heterogeneity)" % m, y1, yu - shift[0], scale, 1e-8)
    close("%s heterogeneity under centering" % m, std, su, max(scale, 1e-12), 1e-9)
    if start:
        ensure(abs(yk[0]) <= 1e-9 * scale, "zero_start: %s at the start of the axis is %r", m, yk[0])
    else:
        mean = np.sum((yk[1:] + yk[:-1]) / 2 * np.diff(knots)) / (hi - lo)
        slopes = np.concatenate([[0.0], np.diff(yk0) / np.diff(knots), [0.0]])
        tol = 1.5 * (hi - lo) * np.sum(np.abs(np.diff(slopes))) / (8 * 99.0 ** 2) + 1e-9 * scale
        ensure(abs(mean) <= tol, "zero_integral: mean of centered %s along the axis is %r (tolerance %.3g)", m, mean, tol)
    return {"nt": bool(np.ptp(yk0) > 1e-6), "labels": labels}
