"""Symmetries of data and model; query points are independent."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models
from vlib.core import check as ensure, close, sut
from effector import binning_methods as bm

CASES = {"quick": 3200, "thorough": 30000}
RULE = ("Random method, data set, model, axis limits, centering and one relation (row order, column order, duplication, numeric type, output shift/scale, "
        "sum of models, separate queries); non-trivial = the effect is not identically zero and the model not constant and the relation changes the inputs.")
ASSUMPTIONS = ["RHALE relations other than separate queries and power-of-two scaling use Fixed bins (rounding may flip ties of the optimising binnings)",
               "SHAP-DP: output scaling, duplication and sums are outside (its smoothing spline is not homogeneous)"]


@st.composite
def strategy(draw, tier="quick"):
    m = draw(st.sampled_from(["pdp", "pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    rel = draw(st.sampled_from(["rows", "cols", "shift", "queries", "dtype"] if m == "shap" else
                               ["rows", "cols", "dup", "dtype", "shift", "shift", "shift", "scale", "sum", "queries"]))
    if m == "shap":
        data = draw(gen.dataset(n=(5, 14), d=(1, 3), kinds=hist.SHAPK))
    elif rel == "dtype":
        data = draw(gen.dataset(n=(3, 35), kinds=["grid", "cat", "grid"], big="mid"))
    else:
        data = draw(gen.dataset(n=(3, 35), big="mid"))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    return {"m": m, "rel": rel, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=s)),
            "model2": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=s)), "feature": s, "xs": draw(gen.query(-0.2, 1.2)),
            "limits": draw(gen.limits_spec(D)) if m != "shap" else None, "c": draw(st.sampled_from([False, True, "zero_start"])),
            "bins": draw(st.sampled_from([1, 3, 8, 20])), "any_bins": draw(hist.binning("rhale" if m == "rhale" else "ale")),
            "perm": draw(gen.SEED), "a": draw(st.sampled_from([2.0, -0.5, 3.0, 1024.0, -1e-3, 2.0 ** -30, -1e-9, 2.0 ** -60, 1e12])), "b": draw(gen.q(-10, 10, 2)) if m == "shap" else draw(gen.q(-10, 10, 2) | st.sampled_from([2.0 ** 21, -2.0 ** 24, 1e9, 2.0 ** 30])),
            "dt": draw(st.sampled_from(["int64", "int32", "float32", "int8"])), "jac": draw(st.booleans()),
            "narrow": draw(st.sampled_from([0, 0, -24, -30])) if m == "shap" and rel != "dtype" else 0}


class Sum:
    def __init__(self, f, g):
        self.f, self.g = f, g

    def __call__(self, x):
        return self.f(x) + self.g(x)

    def jac(self, x):
        return self.f.jac(x) + self.g.jac(x)


class Cols:
    """model on permuted columns: column perm[j] of the original sits at position j"""

    def __init__(self, f, perm):
        self.f, self.inv = f, np.argsort(perm)

    def __call__(self, x):
        return self.f(x[:, self.inv])

    def jac(self, x):
        return self.f.jac(x[:, self.inv])[:, np.argsort(self.inv)]


def check(c):
    X = gen.build(c["data"])
    m, rel, s = c["m"], c["rel"], c["feature"]
    D = X.shape[1]
    if rel == "dtype":
        if m == "shap":
            X = X.astype(np.float32).astype(float)
        else:
            X = np.round(X)
            for j in range(D):
                gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Xin = gen.inside(X, L, s)
    u = len(np.unique(Xin[:, s]))
    gen.need(u > 1, "one unique value inside the limits")
    if m == "shap":
        gen.need(u == len(Xin) and u >= 5, "ties or too few instances")
    model = lambda t, *k: models.Model(t, *k)
    if c.get("narrow"):
        # a feature whose values lie close together
        X = np.round(X * 1024) / 1024
        gen.need(len(np.unique(X[:, s])) == len(X), "ties")
        unit, off = np.where(np.arange(D) == s, 2.0 ** c["narrow"], 1.0), np.where(np.arange(D) == s, 5.0, 0.0)
        gen.need(np.array_equal((X * unit + off - off) / unit, X), "inexact")
        X, L = X * unit + off, L * unit + off
        Xin = X
        model = lambda t, *k: models.Units(models.Model(t, *k), unit, off)
    f = model(c["model"])
    lo, hi = L[0, s], L[1, s]
    if m == "shap":
        lo, hi = Xin[:, s].min(), Xin[:, s].max()
    xs = gen.at(c["xs"], lo, hi)
    if m == "shap":
        xs = np.clip(xs, lo, hi)
    fixed = bm.Fixed(c["bins"], 0, 15)

    def effect(X, f, s, q, arg=arg, bins=fixed):
        e = hist.build(m, X, f, axis_limits=None if arg is None else arg.copy(), nof_instances="all")
        if m in ("ale", "rhale"):
            e.fit(s, binning_method=bins, centering=c["c"])
        return np.stack(e.eval(s, np.array(q, dtype=float), heterogeneity=True, centering=c["c"]))

    labels = [m, rel]
    with sut("%s" % m):
        base = effect(X.copy(), f, s, xs)
    gen.need(np.isfinite(base).all(), "no spread defined")
    big = max(np.abs(base).max(), np.abs(f(X)).max() if m != "dpdp" else np.abs(f.jac(X)).max(), 1e-9)
    tol = 1e-6 if m == "shap" else 1e-9
    with sut("%s (%s)" % (m, rel)):
        if rel == "rows":
            p = np.random.RandomState(c["perm"]).permutation(len(X))
            close("%s after permuting the rows" % m, effect(X[p], f, s, xs), base, big, tol)
            nt = len(X) > 1
        elif rel == "cols":
            p = np.random.RandomState(c["perm"]).permutation(D)
            a2 = None if arg is None else arg[:, p]
            got = effect(X[:, p], Cols(f, p), int(np.argsort(p)[s]), xs, arg=a2)
            close("%s after permuting the columns" % m, got, base, big, tol)
            nt = D > 1 and not np.array_equal(p, np.arange(D))
        elif rel == "dup":
            e0 = effect(np.concatenate([X, X]), f, s, xs)
            n = len(base)
            if m in ("ale", "rhale"):
                # a bin with one point has no spread of its own, with its duplicate it has: only the mean is comparable
                n = 1
            close("%s of duplicated data" % m, e0[:n], base[:n], big, tol)
            nt = True
        elif rel == "dtype":
            dt = "float32" if m == "shap" else c["dt"]
            if dt == "int8" and np.abs(X).max() > 100:
                dt = "int32"
            close("%s of %s data" % (m, dt), effect(X.astype(dt), f, s, xs), base, big, tol)
            nt = True
        elif rel == "shift":
            got = effect(X.copy(), model(c["model"], 1.0, c["b"]), s, xs)
            want = base.copy()
            if m == "pdp" and c["c"] is False:
                want[0] += c["b"]
            # the outputs are rounded in units of the constant; ALE's spread is a slope, rounded in these units per bin width
            unit = 1e-12 * abs(c["b"])
            close("%s after adding %r to the model" % (m, c["b"]), got[0], want[0], big, tol, unit)
            if m == "ale":
                v = np.unique(Xin[:, s])
                unit = unit / min((hi - lo) / c["bins"], np.diff(v).min() / 2 if u <= 15 else np.inf)
            close("%s heterogeneity after adding %r to the model" % (m, c["b"]), got[1], want[1], big, tol, unit)
            labels.append("large constant" if abs(c["b"]) > 1e6 else "constant")
            nt = c["b"] != 0
        elif rel == "scale":
            a = c["a"]
            bins = fixed
            if m == "rhale" and a in (1024.0, 2.0 ** -30, 2.0 ** -60):
                bins = hist.make_bins(c["any_bins"])  # exact scaling keeps every comparison of the optimising binnings
                base = effect(X.copy(), f, s, xs, bins=bins)
                gen.need(np.isfinite(base).all(), "no spread defined")
            got = effect(X.copy(), model(c["model"], a, 0.0), s, xs, bins=bins)
            close("%s after scaling the model output by %g" % (m, a), got, np.stack([a * base[0], abs(a) * base[1]]), abs(a) * big, tol)
            nt = True
        elif rel == "sum":
            g = model(c["model2"])
            eg, es = effect(X.copy(), g, s, xs), effect(X.copy(), Sum(f, g), s, xs)
            close("%s of a sum of models" % m, es[0], base[0] + eg[0], big + np.abs(eg).max() + np.abs(g(X)).max(), tol)
            nt = True
        else:
            bins = hist.make_bins(c["any_bins"])
            e = hist.build(m, X.copy(), f, axis_limits=None if arg is None else arg.copy(), nof_instances="all")
            if m in ("ale", "rhale"):
                e.fit(s, binning_method=bins, centering=c["c"])
            kw = dict(heterogeneity=True, centering=c["c"])
            whole = np.stack(e.eval(s, xs.copy(), **kw))
            single = np.concatenate([np.stack(e.eval(s, np.array([v]), **kw)) for v in xs], axis=1)
            rev = np.stack(e.eval(s, xs[::-1].copy(), **kw))[:, ::-1]
            if np.isfinite(whole).all():
                close("%s at separate query points" % m, single, whole, big, 1e-12)
                close("%s at reversed query points" % m, rev, whole, big, 1e-12)
            nt = len(xs) > 1
    return {"nt": bool(nt and np.abs(base).max() > 1e-9 and (len(models.uses(c["model"])) > 0)), "labels": labels + (["narrow feature"] if c.get("narrow") else [])}
