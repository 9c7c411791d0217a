"""Building blocks: helper functions and the data transformer against naive formulas."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import check as ensure, close, rejects, sut
from effector import helpers, utils, utils_integrate
from effector.partitioning import DataTransformer

CASES = {"quick": 5000, "thorough": 60000}
RULE = ("Random arguments for one documented building block (points also exactly on bin edges and outside, empty and one-point bins, missing values anywhere, integer and float types, "
        "non-contiguous arrays); non-trivial = at least two points or bins.")
ASSUMPTIONS = ["instances lie within the bin limits where the helper states so", "bin limits are strictly increasing"]
WHAT = ["local", "filter", "bin", "bin", "nans", "acc", "acc", "ale", "jac", "integrate", "expect", "helpers", "transformer", "transformer", "transformer"]
VALS = st.integers(-12, 12).map(lambda i: i / 2)


@st.composite
def limits(draw):
    start = draw(st.integers(-6, 4)) / 2
    w = draw(st.lists(st.sampled_from([0.5, 1.0, 0.25, 2.0, 3.0]), min_size=1, max_size=6))
    return [start] + [start + float(x) for x in np.cumsum(w)]


@st.composite
def points(draw, L, n=(1, 14), outside=False):
    """fractions of the range or exact edges"""
    lo, hi = L[0], L[-1]
    v = st.sampled_from(L) | st.integers(0, 16).map(lambda i: lo + (hi - lo) * i / 16.0)
    if outside:
        v = v | st.sampled_from([lo - 1.0, hi + 0.5, lo - 0.25, hi + 3.0])
    return draw(st.lists(v, min_size=n[0], max_size=n[1]))


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(WHAT))
    c = {"k": k, "int": draw(st.integers(0, 3)) == 0, "view": draw(st.integers(0, 3)) == 0}
    if k in ("local", "jac"):
        D = draw(st.integers(1, 3))
        c["model"] = draw(gen.term(D))
        c["f"] = draw(st.integers(0, D - 1))
        c["L"] = draw(limits())
        n = draw(st.integers(1, 10))
        c["x"] = [[draw(st.sampled_from(c["L"]) | st.integers(0, 8).map(lambda i: c["L"][0] + (c["L"][-1] - c["L"][0]) * i / 8.0)) if j == c["f"] else draw(VALS)
                   for j in range(D)] for _ in range(n)]
        c["eps"] = draw(st.sampled_from([None, 1e-6, 1e-4, 1e-2]))
        c["over"] = draw(st.sampled_from([None, None, None, "left", "right"]))
    elif k in ("filter", "bin", "ale"):
        c["L"] = draw(limits())
        c["x"] = draw(points(c["L"], outside=k == "filter"))
        c["e"] = draw(st.lists(VALS, min_size=len(c["x"]), max_size=len(c["x"])))
        c["none"] = draw(st.booleans())
    elif k == "nans":
        c["x"] = draw(st.lists(st.none() | VALS, min_size=1, max_size=12))
    elif k == "acc":
        c["L"] = draw(limits())
        c["x"] = draw(points(c["L"], outside=True))
        c["e"] = draw(st.lists(VALS, min_size=len(c["L"]) - 1, max_size=len(c["L"]) - 1))
        c["sq"] = draw(st.booleans())
    elif k == "integrate":
        c["coef"] = draw(st.lists(VALS, min_size=1, max_size=4))
        c["a"] = draw(VALS)
        c["b"] = c["a"] + draw(st.sampled_from([0.5, 1.0, 4.0]))
        c["n"] = draw(st.integers(2, 200))
    elif k == "expect":
        D = draw(st.integers(2, 3))
        c["s"] = draw(st.integers(0, D - 1))
        c["xs"] = draw(VALS)
        c["lim"] = [[a, a + draw(st.sampled_from([0.5, 1.0, 3.0]))] for a in draw(st.lists(VALS, min_size=D, max_size=D))]
        c["terms"] = draw(st.lists(st.tuples(VALS, st.lists(st.integers(0, 2), min_size=D, max_size=D)).map(list), min_size=1, max_size=3))
        c["p"] = draw(st.lists(st.tuples(VALS, VALS).map(list), min_size=D - 1, max_size=D - 1))
    elif k == "helpers":
        c["data"] = draw(gen.dataset(n=(1, 20), d=(1, 4)))
        D = len(c["data"]["cols"])
        c["f"] = draw(st.integers(0, D - 1))
        c["limits"] = draw(gen.limits_spec(D))
        c["n"] = draw(st.integers(1, 30) | st.just("all"))
        c["feats"] = draw(st.just("all") | st.integers(0, D - 1) | st.lists(st.integers(0, D - 1), max_size=3))
        c["sy"] = draw(st.none() | st.fixed_dictionaries({"mean": VALS, "std": st.sampled_from([0.5, 2.0])}))
        c["avg"] = draw(st.none() | VALS)
        c["model"] = draw(gen.term(D))
    else:
        D = draw(st.integers(1, 4))
        c["x"] = draw(st.lists(st.lists(st.integers(-3, 3), min_size=D, max_size=D), min_size=1, max_size=12))
        c["den"] = draw(st.sampled_from([1, 2, 8]))
        sp = []
        for i in range(D):
            depth = draw(st.sampled_from([0, 0, 0, 1, 1, 1, 2, 3, 4, 5]))
            sp.append([{"feature": draw(st.integers(0, D - 1)), "position": draw(st.integers(-3, 3)) / c["den"] + draw(st.sampled_from([0.0, 0.0, 0.03])),
                        "type": draw(st.sampled_from(["cat", "cont"]))} for _ in range(depth)])
        c["splits"] = sp
    return c


def arr(c, v, keep=False):
    """array of the drawn values, sometimes of integer type or a non-contiguous view"""
    a = np.array(v, dtype=float)
    if c["int"] and not keep and np.all(a == np.round(a)):
        a = a.astype(int)
    if c["view"]:
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        a = big[::2]
    return a


def unchanged(what, *pairs):
    for a, b in pairs:
        ensure(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "%s modified its argument: %s -> %s", what, b, a)


def check(c):
    k = c["k"]
    nt = globals()["do_" + k](c)
    return {"nt": nt, "labels": [k]}


def do_local(c):
    X, L, s = arr(c, c["x"]), arr(c, c["L"]), c["f"]
    f = models.Model(c["model"])
    a, b = X.copy(), L.copy()
    if c["over"]:
        # limits that leave an instance out are refused
        lo, hi = float(X[:, s].min()), float(X[:, s].max())
        bad = np.array([lo + 0.25, hi + 1.0]) if c["over"] == "left" else np.array([lo - 1.0, hi - 0.25])
        rejects("compute_local_effects with limits that do not cover the data", lambda: utils.compute_local_effects(X, f, bad, s))
    with sut("compute_local_effects"):
        got = utils.compute_local_effects(X, f, L, s)
    unchanged("compute_local_effects", (X, a), (L, b))
    Xf = X.astype(float)
    want = ref.ale_local(f, Xf, L.astype(float), s)
    ensure(np.shape(got) in ((len(X),), ()) and np.size(got) == len(X), "compute_local_effects returned shape %s for %d instances", np.shape(got), len(X))
    Z = np.repeat(Xf, 2, axis=0)
    Z[::2, s], Z[1::2, s] = L[0], L[-1]
    big = max(np.abs(f(Xf)).max(), np.abs(f(Z)).max()) / np.diff(L.astype(float)).min()
    close("local effects", np.ravel(got), want, big, 1e-12)
    return len(X) > 1


def do_jac(c):
    X = arr(c, c["x"])
    f = models.Model(c["model"])
    a = X.copy()
    eps = 1e-8 if c["eps"] is None else c["eps"]
    with sut("compute_jacobian_numerically"):
        got = utils.compute_jacobian_numerically(f, X) if c["eps"] is None else utils.compute_jacobian_numerically(f, X, c["eps"])
    unchanged("compute_jacobian_numerically", (X, a))
    ensure(got.shape == X.shape, "Jacobian of shape %s for data of shape %s", got.shape, X.shape)
    X = X.astype(float)
    want = np.zeros(X.shape)
    big = max(np.abs(f(X)).max(), np.abs(f(X + 1)).max(), np.abs(f.jac(X)).max(), 1.0)
    for j in range(X.shape[1]):
        P = X.copy()
        P[:, j] += eps
        want[:, j] = (f(P) - f(X)) / eps
    close("numerical Jacobian", got, want, 0, 1e-9, 1e-13 * big / eps)
    # the derivatives of a row do not depend on the other rows
    far = np.vstack([X, np.where(np.arange(X.shape[1]) % 2 == len(X) % 2, 2.0 ** 50, -1.0)])
    with sut("compute_jacobian_numerically"):
        more = utils.compute_jacobian_numerically(f, far, eps)
    close("numerical Jacobian with one more row", more[:-1], got, 0, 1e-9, 2e-13 * big / eps)
    return X.size > 1


def do_filter(c):
    x, e = arr(c, c["x"]), None if c["none"] else arr(c, c["e"])
    L = arr(c, c["L"])
    lim = L[:2]
    a, b = x.copy(), None if e is None else e.copy()
    with sut("filter_points_in_bin"):
        gx, ge = utils.filter_points_in_bin(x, e, lim)
    unchanged("filter_points_in_bin", (x, a))
    keep = [i for i, v in enumerate(c["x"]) if lim[0] <= v <= lim[1]]
    close("filtered points", gx, np.array(c["x"], dtype=float)[keep], 0, 0)
    if e is None:
        ensure(ge is None, "effects appear from nowhere")
    else:
        unchanged("filter_points_in_bin", (e, b))
        close("effects of the filtered points", ge, np.array(c["e"], dtype=float)[keep], 0, 0)
    return len(x) > 1


def do_bin(c):
    x, e, L = arr(c, c["x"]), arr(c, c["e"]), arr(c, c["L"])
    old = [v.copy() for v in (x, e, L)]
    with sut("compute_bin_effect / compute_bin_variance"):
        mean, n = utils.compute_bin_effect(x, e, L)
        m0 = mean.copy()
        var, est = utils.compute_bin_variance(x, e, L, mean)
    unchanged("bin statistics", (x, old[0]), (e, old[1]), (L, old[2]), (mean, m0))
    rn, rm, rv = ref.bin_stats(c["x"], c["e"], c["L"])
    close("points per bin", n, rn, 0, 0)
    close("bin effect", mean, rm, 6, 1e-12)
    close("bin variance", var, rv, 36, 1e-12)
    close("variance of the bin estimator", est, np.where(rn > 1, rv / np.maximum(rn, 1), np.nan), 36, 1e-12)
    return len(x) > 1


def do_nans(c):
    x = arr(c, [np.nan if v is None else v for v in c["x"]], keep=True)
    a = x.copy()
    with sut("fill_nans"):
        got = utils.fill_nans(x)
    unchanged("fill_nans", (x, a))
    close("filled series", got, ref.interp_missing(a), 6, 1e-12)
    return len(x) > 1


def do_acc(c):
    x, L, e = arr(c, c["x"]), arr(c, c["L"]), arr(c, c["e"])
    dx = np.diff(L)
    old = [v.copy() for v in (x, L, e, dx)]
    with sut("compute_accumulated_effect"):
        got = utils.compute_accumulated_effect(x, L, e, dx, c["sq"]) if c["sq"] else utils.compute_accumulated_effect(x, L, e, dx)
    unchanged("compute_accumulated_effect", (x, old[0]), (L, old[1]), (e, old[2]), (dx, old[3]))
    want = []
    for v in c["x"]:
        s = 0.0
        for a, b, w in zip(c["L"], c["L"][1:], c["e"]):
            if v > a:
                s += w * (min(v, b) - a) ** (2 if c["sq"] else 1)
        want.append(s)
    close("accumulated effect", got, np.array(want), 100, 1e-12)
    return len(e) > 1


def do_ale(c):
    x, e, L = arr(c, c["x"]), arr(c, c["e"]), arr(c, c["L"])
    old = [v.copy() for v in (x, e, L)]
    with sut("compute_ale_params"):
        p = utils.compute_ale_params(x, e, L)
    unchanged("compute_ale_params", (x, old[0]), (e, old[1]), (L, old[2]))
    n, m, v = ref.bin_stats(c["x"], c["e"], c["L"])
    close("limits", p["limits"], c["L"], 0, 0)
    close("bin widths", p["dx"], np.diff(c["L"]), 1, 1e-12)
    close("points per bin", p["points_per_bin"], n, 0, 0)
    close("bin effect", p["bin_effect"], ref.interp_missing(m), 6, 1e-12)
    close("bin variance", p["bin_variance"], ref.interp_missing(v), 36, 1e-12)
    close("variance of the bin estimator", p["bin_estimator_variance"], ref.interp_missing(np.where(n > 1, v / np.maximum(n, 1), np.nan)), 36, 1e-12)
    return len(x) > 1


def do_integrate(c):
    a, b = c["a"], c["b"]
    co = c["coef"]

    def anti(v):
        return sum(w * v ** (i + 1) / (i + 1) for i, w in enumerate(co))

    def g(v):
        return sum(w * np.asarray(v, dtype=float) ** i for i, w in enumerate(co)) + 0.0 * np.asarray(v)
    exact = anti(b) - anti(a)
    big = sum(abs(w) * max(abs(a), abs(b), 1.0) ** (i + 1) for i, w in enumerate(co))
    with sut("integration helpers"):
        q = utils_integrate.integrate_1d_quad(lambda v: g(v)[0], a, b)
        l = utils_integrate.integrate_1d_linspace(g, a, b)
        rq, rl = utils_integrate.integrate_1d_quad(lambda v: g(v)[0], b, a), utils_integrate.integrate_1d_linspace(g, b, a)
        m = utils_integrate.mean_1d_linspace(g, a, b, c["n"])
        m100 = utils_integrate.mean_1d_linspace(g, a, b)
    close("integral (quad)", q, exact, big, 1e-9)
    # the midpoint rule is exact up to the second derivative
    d2 = sum(abs(w) * i * (i - 1) * max(abs(a), abs(b)) ** max(i - 2, 0) for i, w in enumerate(co))
    close("integral (midpoints)", l, exact, big, 1e-9, d2 * (b - a) ** 3 / 24 / 999 ** 2)
    close("integral backwards (quad)", rq, -exact, big, 1e-9)
    close("integral backwards (midpoints)", rl, -exact, big, 1e-9, d2 * (b - a) ** 3 / 24 / 999 ** 2)
    close("mean (midpoints)", m, exact / (b - a), big / min(b - a, 1), 1e-9, d2 * (b - a) ** 2 / 24 / (c["n"] - 1) ** 2)
    close("mean (default number of points)", m100, exact / (b - a), big / min(b - a, 1), 1e-9, d2 * (b - a) ** 2 / 24 / 99 ** 2)
    return True


def do_expect(c):
    """expectation over the other one or two features, against Gauss-Legendre quadrature (exact for these polynomials)"""
    D, s, lim = len(c["lim"]), c["s"], np.array(c["lim"], dtype=float).T
    other = [j for j in range(D) if j != s]

    def f(x):
        ensure(x.shape == (1, D), "the function is asked about an array of shape %s", x.shape)
        return sum(w * np.prod(x ** np.array(e), axis=1) for w, e in c["terms"])

    def p(*v):
        return np.prod([a + b * t for (a, b), t in zip(c["p"], v)])

    t, w = np.polynomial.legendre.leggauss(6)
    want = size = 0.0
    for i in itertools.product(range(6), repeat=D - 1):
        x = np.zeros((1, D))
        x[0, s] = c["xs"]
        for j, k in zip(other, i):
            x[0, j] = lim[0, j] + (lim[1, j] - lim[0, j]) * (t[k] + 1) / 2
        v = f(x)[0] * p(*x[0, other]) * np.prod([w[k] * (lim[1, j] - lim[0, j]) / 2 for j, k in zip(other, i)])
        want, size = want + v, size + abs(v)
    lim0 = lim.copy()
    with sut("expectation helpers"):
        if D == 2:
            got = utils_integrate.expectation_1D(c["xs"], f, p, s, lim[0, other[0]], lim[1, other[0]])
        else:
            got = utils_integrate.expecation_2D(c["xs"], f, p, s, lim)
    unchanged("expectation", (lim, lim0))
    close("expectation over the other features, feature %d of %d" % (s, D), got[0], want, max(size, 1e-6), 1e-7)
    return True


def do_helpers(c):
    X = gen.build(c["data"])
    D = X.shape[1]
    X0 = X.copy()
    f = models.Model(c["model"])
    with sut("axis_limits_from_data"):
        A = helpers.axis_limits_from_data(X)
    close("axis limits", A, np.stack([X0.min(0), X0.max(0)]), 0, 0)
    _, L = gen.axis_limits(c["limits"], X)
    L0 = L.copy()
    with sut("drop_points_outside_axis_limits"):
        Z = helpers.drop_points_outside_axis_limits(X, L, c["f"])
    close("points inside the axis limits", Z, np.array([r for r in X0 if L0[0, c["f"]] <= r[c["f"]] <= L0[1, c["f"]]]).reshape(-1, D), 0, 0)
    with sut("prep_nof_instances"):
        n, idx = helpers.prep_nof_instances(c["n"], len(X))
    idx = [int(i) for i in np.asarray(idx)]
    want = len(X) if c["n"] == "all" else min(c["n"], len(X))
    ensure(len(idx) == want and len(set(idx)) == want and all(0 <= i < len(X) for i in idx), "nof_instances=%s of %d rows gives indices %s", c["n"], len(X), idx)
    with sut("prep_features"):
        feats = helpers.prep_features(c["feats"], D)
    ensure(list(feats) == (list(range(D)) if c["feats"] == "all" else [c["feats"]] if isinstance(c["feats"], int) else list(c["feats"])), "features %s become %s", c["feats"], feats)
    with sut("get_feature_names"):
        names = helpers.get_feature_names(D)
    ensure(list(names) == ["x_%d" % i for i in range(D)], "default names %s", names)
    with sut("prep_avg_output"):
        v = helpers.prep_avg_output(X, f, c["avg"], c["sy"])
    base = float(np.mean(f(X0))) if c["avg"] is None else c["avg"]
    close("average output", v, base if c["sy"] is None else base * c["sy"]["std"] + c["sy"]["mean"], np.abs(f(X0)).max() * 2 + 10, 1e-12)
    for a, b in ((True, "zero_integral"), (False, False), ("zero_start", "zero_start"), ("zero_integral", "zero_integral")):
        with sut("prep_centering"):
            g = helpers.prep_centering(a)
        ensure(g == b and type(g) is type(b), "centering %r becomes %r", a, g)
    unchanged("helpers", (X, X0), (L, L0))
    return len(X) > 1


def do_transformer(c):
    X = np.array(c["x"], dtype=float) / c["den"]
    N, D = X.shape
    splits = {"feat_%d" % i: [dict(s) for s in sp] for i, sp in enumerate(c["splits"])}
    if c["int"] and c["den"] == 1:
        X = X.astype(int)
    X0 = X.copy()
    with sut("DataTransformer"):
        t = DataTransformer(splits)
        out = t.transform(X)
        names = list(t.new_names)
    unchanged("DataTransformer", (X, X0))
    ensure(splits == {"feat_%d" % i: [dict(s) for s in sp] for i, sp in enumerate(c["splits"])}, "the transformer modified the splits")
    cols, want_names = [], []
    for i in range(D):
        sp = c["splits"][i]
        if not sp:
            cols.append(X0[:, i].astype(float))
            want_names.append("x%d" % i)
            continue
        active = np.zeros(N, dtype=int)
        for sides in itertools.product([True, False], repeat=len(sp)):
            col = np.zeros(N)
            for r in range(N):
                ok = all(((X0[r, s["feature"]] == s["position"]) if s["type"] == "cat" else (X0[r, s["feature"]] <= s["position"])) == side for s, side in zip(sp, sides))
                if ok:
                    col[r] = X0[r, i]
                    active[r] += 1
            cols.append(col)
            want_names.append("x%d | " % i + " & ".join(
                "x%d%s%.2f" % (s["feature"], {("cat", True): "=", ("cat", False): "!=", ("cont", True): "<=", ("cont", False): ">"}[s["type"], side], s["position"])
                for s, side in zip(sp, sides)))
        assert np.all(active == 1)
    ensure(out.shape == (N, len(cols)), "transformed data have shape %s, expected %s", out.shape, (N, len(cols)))
    ensure(names == want_names, "column names %s, expected %s", names, want_names)
    close("transformed data", out, np.stack(cols, axis=1), 0, 0)
    return N > 1 and any(c["splits"])
