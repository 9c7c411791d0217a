"""Plots of the global methods: drawn artists against an independently evaluated object."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, plots, ref
from vlib.core import check as ensure, sut

CASES = {"quick": 700, "thorough": 9000}
RULE = ("Random global method, data, model, axis limits, earlier fit or none, and plot options (heterogeneity, centering, scale_x, scale_y, limits, number of points / ICE / SHAP values, "
        "average line, names); non-trivial = scaling in at least one axis together with heterogeneity, or an option besides the defaults, on a non-flat curve.")
ASSUMPTIONS = ["artists are identified by their legend labels; the default axis label may count features from 0 or 1",
               "'std_err' bands show the standard deviation, as 'std' does", "ICE and SHAP points may be drawn once more for the legend"]


@st.composite
def scale(draw):
    return draw(st.none() | st.fixed_dictionaries({"mean": gen.q(-5, 5, 2) | st.just(1000.0), "std": st.sampled_from([0.5, 2.0, 10.0, 0.001, 3.7])}))


@st.composite
def strategy(draw, tier="quick"):
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "ale", "rhale", "shap"]))
    shap = m == "shap"
    data = draw(gen.dataset(n=(8, 16) if shap else (4, 30), d=(1, 3), kinds=hist.SHAPK if shap else gen.ALL, big=not shap and "mid"))
    if not shap and draw(st.integers(0, 9)) == 3:
        data["n"] = draw(st.integers(65, 400))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    c = {"m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=s)), "feature": s,
         "limits": draw(gen.limits_spec(D)), "names": draw(st.booleans()), "target": draw(st.sampled_from([None, "price"])),
         "avg_output": draw(st.sampled_from([None, None, 2.5, 0.0])), "o": draw(hist.plot_call(m, s)), "fit": None,
         "effects": draw(st.booleans()), "es": draw(gen.SEED)}
    if draw(st.booleans()):
        c["fit"] = draw(hist.fit_call(m, s))
    o = c["o"]
    o["sx"], o["sy"] = draw(scale()), draw(scale())
    o["ylim"] = draw(st.sampled_from([None, None, [-2.0, 3.5]]))
    if m in ("ale", "rhale"):
        o["dylim"] = draw(st.sampled_from([None, None, [-7.0, 1.5]]))
    else:
        o["points"] = draw(st.sampled_from([None, None, 2, 7, 50]))
    if m in ("pdp", "dpdp"):
        o["nice"] = draw(st.sampled_from(["all", "all", 1, 2, 5, 1000]))
    if shap:
        o["nshap"] = draw(st.sampled_from(["all", "all", 1, 3, 1000]))
    return c


def check(c):
    X = gen.build(c["data"])
    s, m, o = c["feature"], c["m"], c["o"]
    f = models.Model(c["model"])
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    gen.need(len(Xin) > (3 if m == "shap" else 0) and len(np.unique(Xin[:, s])) > 1, "too few instances inside the limits")
    if m == "shap":
        gen.need(len(np.unique(Xin[:, s])) > 4, "too few values for a spline")
    D = X.shape[1]
    names = ["feat %s" % "abc"[j] for j in range(D)] if c["names"] else None
    kw = dict(axis_limits=arg, nof_instances="all", avg_output=c["avg_output"], feature_names=names, target_name=c["target"])
    J = None
    if m == "rhale":
        J = f.jac(X) + (np.random.RandomState(c["es"]).randn(*X.shape) if c["effects"] else 0.0)
        if c["effects"]:
            kw["data_effect"] = J

    def make():
        k = {a: (np.array(b) if isinstance(b, np.ndarray) else list(b) if isinstance(b, list) else b) for a, b in kw.items()}
        e = hist.build(m, X.copy(), f, **k)
        if c["fit"] is not None:
            hist.do(e, m, c["fit"], L)
        return e

    try:
        fresh = make()
        fresh.eval(s, L[:, s].copy(), centering=o["c"])
    except Exception:
        gen.need(False, "the effect itself is not defined here (impossible binning)")
    what = "%s plot" % m
    pk = {"heterogeneity": o["h"], "centering": o["c"], "scale_x": o["sx"], "scale_y": o["sy"], "show_avg_output": o["avg"]}
    if o.get("ylim") is not None:
        pk["y_limits"] = list(o["ylim"])
    if o.get("dylim") is not None:
        pk["dy_limits"] = list(o["dylim"])
    if o.get("points") is not None:
        pk["nof_points"] = o["points"]
    if "nice" in o:
        pk["nof_ice"] = o["nice"]
    if "nshap" in o:
        pk["nof_shap_values"] = o["nshap"]
    e = make()
    with sut(what):
        e.plot(s, **pk)
    P = plots.read(what)
    local = lim = None
    if m in ("ale", "rhale"):
        lim = np.asarray(fresh.feature_effect["feature_%d" % s]["limits"], dtype=float)
        local = ref.ale_local(f, Xin, lim, s) if m == "ale" else J[(X[:, s] >= L[0, s]) & (X[:, s] <= L[1, s]), s]
    corners = [np.where(np.arange(D) == s, v, Xin) for v in np.concatenate([L[:, s], [Xin[:, s].mean()], [] if lim is None else lim])]
    mag = max(np.abs(f.jac(z)).max() if m == "dpdp" else np.abs(f(z)).max() for z in corners)
    if m == "rhale":
        mag = max(mag, np.abs(J).max() * np.ptp(lim))
    XX = X if m != "shap" else X
    plots.compare(what, P, m, o, fresh, s, Xin if m in ("ale", "rhale") else XX, f, L, names, c["target"],
                  c["avg_output"] if c["avg_output"] is not None else float(np.mean(f(X))), local, lim, mag, rtol=1e-6 if m == "shap" else 1e-9)
    labels = [m, "heterogeneity %r" % (o["h"],)] + [k for k in ("sx", "sy") if o[k] is not None]
    if c["fit"] is not None:
        labels.append("fitted before")
    return {"nt": bool(np.ptp(P.y) > 1e-9 and (o["sx"] or o["sy"] or o["h"])), "labels": labels}
