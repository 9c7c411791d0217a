"""nof_instances: distinct rows, consistent with the published result."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, ref
from vlib.core import check as ensure, close, rejects, sut
from effector import binning_methods as bm
from effector.interaction import HIndex, REPID

CASES = {"quick": 1200, "thorough": 15000}
RULE = ("Random class, data set with distinct rows, nof_instances below, equal to or above the number of rows, 'all' or invalid, state of the random generator, supplied derivatives; "
        "non-trivial = a strict subset was selected, or an invalid value was rejected.")
ASSUMPTIONS = []


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(["global", "global", "global", "regional", "regional", "index", "invalid", "fit"]))
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "rhale", "shap"]))
    fitn = k == "fit"
    if fitn:
        k, m = "regional", draw(st.sampled_from(["pdp", "dpdp"]))
    if k == "index":
        m = draw(st.sampled_from(["h", "repid"]))
    shap = m == "shap"
    data = draw(gen.dataset(n=(8, 16) if shap else (6, 40), d=(2, 2) if shap else (1, 4) if k == "global" else (2, 3), kinds=hist.SHAPK if shap else gen.ALL))
    # one column with distinct values makes rows identifiable
    D = len(data["cols"])
    idc = draw(st.integers(0, D - 1))
    data["cols"][idc] = {"k": "lins", "lo": draw(gen.q(-2, 2, 2)), "w": draw(st.sampled_from([1.0, 4.0]))}
    if k == "global" and not shap and draw(st.integers(0, 11)) == 5:
        data["n"] = draw(st.integers(1001, 2300))  # more rows than any default number of instances
    if k == "global" and shap and D == 2 and draw(st.integers(0, 3)) == 1:
        data["n"] = draw(st.integers(1001, 1060))
    large = k == "regional" and not shap and not fitn and draw(st.integers(0, 6)) == 5
    if large:
        data["n"] = draw(st.integers(300, 1500))
    n = data["n"]
    ni = draw(st.integers(5 if shap else 2, n + 3) | st.sampled_from([n - 1, n, n + 1, 1000, 1000 if n < 1000 else n // 2 + 500]) | st.just("all"))
    if large and draw(st.integers(0, 3)):
        ni = draw(st.sampled_from([100, 300, 500, 1000, 1000, 1000, "all"]))
    s = draw(st.integers(0, D - 1))
    if fitn and s == idc:
        s = (s + 1) % D
    return {"k": k, "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=s)), "feature": s, "id": idc, "n": ni,
            "rng": draw(gen.SEED), "limits": draw(gen.limits_spec(D)) if k == "global" and not shap and draw(st.booleans()) else None,
            "effects": draw(st.booleans()), "es": draw(gen.SEED), "xs": draw(gen.query(0, 1, 4)), "c": draw(st.sampled_from([False, True, "zero_start"])),
            "bad": draw(st.sampled_from(["most", "", 2.5, None, [3], -3])), "bins": draw(st.sampled_from([2, 6])), "avg": draw(st.booleans()),
            "fitn": draw(st.integers(2, n + 3) | st.sampled_from([n - 1, n])) if fitn else None, "vec": draw(st.booleans())}


def rows_of(sub, X, idc):
    """indices in X of the rows of sub; they must be distinct rows of X"""
    ensure(sub.ndim == 2 and sub.shape[1] == X.shape[1], "explained data have shape %s", sub.shape)
    order = np.argsort(X[:, idc])
    pos = np.searchsorted(X[order, idc], sub[:, idc])
    ensure(np.all(pos < len(X)), "explained rows are not rows of the data")
    idx = order[pos]
    ensure(np.array_equal(X[idx], sub), "explained rows are not rows of the data")
    ensure(len(set(idx.tolist())) == len(idx), "a row is explained twice: %s", sorted(idx.tolist()))
    return idx


def check(c):
    X = gen.build(c["data"])
    m, s, k = c["m"], c["feature"], c["k"]
    N, D = X.shape
    f = models.Model(c["model"])
    want_n = N if c["n"] == "all" else min(N, c["n"])
    np.random.seed(c["rng"])
    if k == "invalid":
        build = hist.build_regional if c["avg"] else hist.build
        rejects("nof_instances=%r for %s" % (c["bad"], m), lambda: build(m, X.copy(), f, nof_instances=c["bad"]))
        return {"nt": True, "labels": ["invalid value"]}
    if k == "index":
        return index(c, X, f, want_n)
    given = f.jac(X) + np.random.RandomState(c["es"]).randn(N, D) if c["effects"] and m == "rhale" else None
    kw = {"nof_instances": c["n"]}
    if k == "global":
        arg, L = gen.axis_limits(c["limits"], X)
        if given is not None:
            kw["data_effect"] = given.copy()
        with sut("%s with nof_instances=%s" % (m, c["n"])):
            e = hist.build(m, X.copy(), f, axis_limits=arg, **kw)
        idx = rows_of(e.data, X, c["id"])
        ensure(len(idx) == want_n, "%s explains %d rows of %d with nof_instances=%s", m, len(idx), N, c["n"])
        if want_n == N:
            ensure(set(idx.tolist()) == set(range(N)), "not all rows explained")
        sub = X[idx]
        if arg is None:
            close("inferred axis limits", e.axis_limits, np.stack([sub.min(0), sub.max(0)]), 0, 0)
        close("average output", e.avg_output, np.mean(f(sub)), np.abs(f(sub)).max(), 1e-12)
        L = np.asarray(e.axis_limits)
        xin = gen.inside(sub, L, s)[:, s]
        gen.need(L[0, s] < L[1, s] and len(np.unique(xin)) > 1, "one unique value")
        gen.need(m != "shap" or len(np.unique(xin)) == len(xin) and len(xin) > 4, "ties")
        xs = gen.at(c["xs"], L[0, s], L[1, s])
        kw2 = {"nof_instances": "all"}
        if given is not None:
            kw2["data_effect"] = given[idx].copy()
        with sut("%s on the selected rows" % m):
            fresh = hist.build(m, sub.copy(), f, axis_limits=None if arg is None else arg.copy(), **kw2)
            if m in ("ale", "rhale"):
                for o in (e, fresh):
                    o.fit(s, binning_method=bm.Fixed(c["bins"], 0), centering=c["c"])
            got = np.stack(e.eval(s, xs.copy(), heterogeneity=True, centering=c["c"]))
            want = np.stack(fresh.eval(s, xs.copy(), heterogeneity=True, centering=c["c"]))
        big = max(np.abs(f(X)).max(), np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 0)
        close("%s effect against the same method on the selected rows" % m, got, want, big, 1e-9)
        if m == "pdp":
            close("PDP of the selected rows", got[0] if c["c"] is False else fresh.eval(s, xs.copy()), ref.ice(f, gen.inside(sub, L, s), xs, s).mean(axis=1), big, 1e-9)
        if given is not None:
            with sut("RHALE"):
                lim = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float)
                y, sd = e.eval(s, lim.copy(), heterogeneity=True)
            sel = (sub[:, s] >= L[0, s]) & (sub[:, s] <= L[1, s])
            r = ref.Effect(sub[sel, s], given[idx][sel, s], lim)
            close("RHALE of the selected rows with their own derivatives", y, r.y(lim), np.abs(given).max() * np.ptp(lim), 1e-9)
        return {"nt": want_n < N, "labels": [m, "subset" if want_n < N else "all rows"] + (["own derivatives"] if given is not None else [])}

    # regional
    if c["fitn"] is not None and c["id"] != s:
        return at_fit(c, X, f)
    if given is not None:
        kw["instance_effects"] = given.copy()
    for j in range(D):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    with sut("regional %s with nof_instances=%s" % (m, c["n"])):
        r = hist.build_regional(m, X.copy(), f, **kw)
    idx = rows_of(r.data, X, c["id"])
    ensure(len(idx) == want_n, "regional %s explains %d rows of %d with nof_instances=%s", m, len(idx), N, c["n"])
    sub = X[idx]
    close("regional axis limits", r.axis_limits, np.stack([X.min(0), X.max(0)]), 0, 0)
    if m == "rhale":
        J = given if given is not None else f.jac(X)
        close("derivatives of the selected rows", r.instance_effects, J[idx], np.abs(J).max(), 1e-12)
    if len(np.unique(sub[:, s])) < 2 or len(sub) < 6:
        return {"nt": want_n < N, "labels": ["regional " + m]}
    with sut("regional %s fit" % m):
        kw2 = {"binning_method": bm.Fixed(3, 0)} if m in ("ale", "rhale") else {}
        r.fit(s, heter_small_enough=0.0, nof_candidate_splits_for_numerical=2, min_points_per_subregion=2, split_categorical_features=True, **kw2)
        t = r.tree_full["feature_%d" % s]
    if t is not None:
        root = t.get_root().data
        close("root data", root["data"], sub, 0, 0)
        ensure(root["nof_instances"] == want_n, "root has %s instances", root["nof_instances"])
        if root["data_effect"] is not None:
            close("root derivatives", root["data_effect"], (given if given is not None else f.jac(X))[idx], 1.0, 1e-12)
        if m == "shap" and len(np.unique(sub[:, s])) < 5:
            return {"nt": want_n < N, "labels": ["regional " + m]}
        xs = np.linspace(sub[:, s].min(), sub[:, s].max(), 3)
        with sut("regional %s eval" % m):
            got = np.stack(r.eval(s, 0, xs.copy(), True, c["c"]))
            kw3 = {"data_effect": (given if given is not None else f.jac(X))[idx]} if m == "rhale" else {}
            want = np.stack(hist.build(m, sub.copy(), f, nof_instances="all", **kw3).eval(s, xs.copy(), True, c["c"]))
        close("regional %s at the root against the global method on the selected rows" % m, got, want,
              np.abs(f(X)).max() + np.abs(want[np.isfinite(want)]).max() if np.isfinite(want).any() else 0, 1e-9)
    return {"nt": want_n < N, "labels": ["regional " + m, "subset" if want_n < N else "all rows"]}


class Watch:
    """records the distinct rows (by identifying column) every call of the model is about"""

    def __init__(self, fn, idc):
        self.fn, self.idc, self.calls = fn, idc, []

    def __call__(self, Z):
        self.calls.append(np.unique(Z[:, self.idc]))
        return self.fn(Z)


def at_fit(c, X, f):
    """nof_instances of the fit of regional PDP methods: rows used per heterogeneity"""
    m, s, k, N = c["m"], c["feature"], c["fitn"], len(X)
    for j in range(X.shape[1]):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    kw = dict(heter_pcg_drop_thres=0.0, heter_small_enough=0.0, nof_candidate_splits_for_numerical=2, min_points_per_subregion=2,
              split_categorical_features=True, centering=c["c"], use_vectorized=c["vec"])

    def fitted(nof):
        w, wj = Watch(f, c["id"]), Watch(f.jac, c["id"])
        w.jac = wj
        with sut("regional %s fit with nof_instances=%s" % (m, nof)):
            r = hist.build_regional(m, X.copy(), w, nof_instances="all")
            w.calls, wj.calls = [], []
            r.fit(s, nof_instances=nof, **kw)
        return r, w.calls + wj.calls
    r, calls = fitted(k)
    ensure(len(calls) > 0, "the model was never asked")
    most = max(len(v) for v in calls)
    ensure(most <= min(k, N), "regional %s fitted with nof_instances=%d asks the model about %d rows at once", m, k, most)
    ensure(most == min(k, N), "regional %s fitted with nof_instances=%d uses at most %d of %d rows", m, k, most, N)
    for v in calls:
        ensure(np.isin(v, X[:, c["id"]]).all(), "regional %s asks about rows that are not in the data", m)
    a = r.tree_full["feature_%d" % s]
    ensure(a is not None and a.get_root().data["nof_instances"] == N, "the tree does not describe all instances")
    close("root data", a.get_root().data["data"], X, 0, 0)
    if k >= N:
        b = fitted("all")[0].tree_full["feature_%d" % s]
        big = np.abs(f(X)).max() + np.abs(f.jac(X)).max()
        ensure(len(a.nodes) == len(b.nodes), "nof_instances=%d and 'all' give different trees of %d rows", k, N)
        h = [np.array([n.data["heterogeneity"] for n in t.nodes], dtype=float) for t in (a, b)]
        close("root heterogeneity", h[0][0], h[1][0], big, 1e-9)
        if [n.name for n in a.nodes] == [n.name for n in b.nodes]:  # else (almost) equal candidates
            close("heterogeneities with nof_instances=%d and 'all'" % k, h[0], h[1], big, 1e-9)
    return {"nt": k < N, "labels": ["regional %s, instances per fit" % m, "subset" if k < N else "all rows"]}


def index(c, X, f, want_n):
    s = c["feature"]
    with sut("interaction index"):
        h = HIndex(X.copy(), f, nof_instances=c["n"]) if c["m"] == "h" else REPID(X.copy(), f, f.jac, nof_instances=c["n"])
    idx = rows_of(h.data, X, c["id"])
    ensure(len(idx) == want_n, "%s explains %d rows with nof_instances=%s", c["m"], len(idx), c["n"])
    sub = X[idx]
    gen.need(len(np.unique(sub[:, s])) > 1, "one unique value")
    with sut("interaction index"):
        got = h.eval_one_vs_all(s)
        want = (HIndex(sub.copy(), f, "all") if c["m"] == "h" else REPID(sub.copy(), f, f.jac, "all")).eval_one_vs_all(s)
    close("index on the selected rows", got, want, 1e-6 * max(np.abs(f(X)).max(), 1e-9), 1e-9)
    return {"nt": want_n < len(X), "labels": ["index " + c["m"]]}
