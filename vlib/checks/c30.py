"""Relations between different methods (and levels) on the same model and data."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, reg
from vlib.core import check as ensure, close, sut
from effector import binning_methods as bm
from effector import PDP, DerPDP, ALE, RHALE, ShapDP
from effector.interaction import HIndex

CASES = {"quick": 1800, "thorough": 20000}
RULE = ("Random relation (PDP against integrated d-PDP; one-bin ALE against PDP; ALE, RHALE, PDP and d-PDP of models linear in the feature; ALE against PDP on fully crossed data; "
        "PDP of subregions against their parent; H-indices of models of two features; SHAP values of two features against PDPs; SHAP values summed over features), data, model, axis limits and options; "
        "non-trivial = the compared effects vary and the model has an interaction.")
ASSUMPTIONS = ["integrals of derivatives are taken by Gauss-Legendre quadrature of polynomial models (exact)"]

REL = ["integral", "integral", "onebin", "onebin", "linear", "linear", "crossed", "levels", "levels", "hindex", "shap2", "efficiency"]


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(REL))
    if k == "levels":
        c = draw(reg.case(methods=["pdp", "pdp", "dpdp"], n=(20, 50), depth=2, nc=3, smooth_only=True))
        c = draw(reg.roomy(c))
        c["drop"], c["small"] = 0.0, 0.0
        return {"k": k, "r": c, "xs": draw(gen.query(-0.2, 1.2, 5)), "c": draw(st.sampled_from([False, False, "zero_start"]))}
    if k in ("shap2", "efficiency"):
        data = draw(gen.dataset(n=(4, 16), d=(2, 2) if k == "shap2" else (2, 4), kinds=hist.SHAPK + ["grid", "cat"]))
        if k == "efficiency" and draw(st.integers(0, 4)) == 0:
            data = draw(gen.dataset(n=(4, 7), d=(11, 12), kinds=hist.SHAPK))  # explained by random permutations
    else:
        data = draw(gen.dataset(n=(3, 30), d=(2, 4) if k == "hindex" else (1, 4), big="mid"))
    D = len(data["cols"])
    s = draw(st.integers(0, D - 1))
    c = {"k": k, "data": data, "feature": s, "limits": draw(gen.limits_spec(D)), "model": draw(gen.term(D, smooth=k in ("integral", "linear"), focus=s)),
         "xs": draw(gen.query(0, 1, 6)), "vec": draw(st.booleans()), "jac": draw(st.booleans()), "bins": draw(st.sampled_from([1, 2, 5, 9])), "c": draw(st.sampled_from(["zero_integral", "zero_start"])),
         "es": draw(gen.SEED)}
    if D > 10:
        c["model"] = ["add", [c["model"], draw(gen.joint(D, s))]]
    if k == "linear":  # sum of terms x_s * g(rest) and h(rest)
        rest = [j for j in range(D) if j != s]

        def other():
            a = draw(gen.atom(D, True))
            return [a[0], draw(st.sampled_from(rest))] + list(a[2:]) if rest else ["c", draw(gen.q(-2, 2, 2))]
        ts = [["scale", draw(gen.COEF), ["mul", ["x", s], other()]] for _ in range(draw(st.integers(1, 2)))]
        ts += [["scale", draw(gen.COEF), other()] for _ in range(draw(st.integers(0, 2)))] + [["scale", draw(gen.COEF), ["x", s]]]
        c["model"] = ["add", ts]
    if k == "hindex":
        j = draw(st.sampled_from([j for j in range(D) if j != s]))
        c["j"] = j
        c["model"] = only(c["model"], [s, j])
    if k == "crossed":
        c["rows"] = draw(st.integers(1, 6))
    return c


def only(t, feats):
    """the same term with every feature replaced by one of feats"""
    k = t[0]
    if k == "add":
        return ["add", [only(x, feats) for x in t[1]]]
    if k == "mul":
        return ["mul", only(t[1], feats), only(t[2], feats)]
    if k == "scale":
        return ["scale", t[1], only(t[2], feats)]
    if k == "c":
        return t
    return [k, feats[0] if t[1] == feats[0] else feats[(t[1] + 1) % len(feats)]] + list(t[2:])


def check(c):
    return globals()["rel_" + c["k"]](c)


def setup(c, smooth=False):
    X = gen.build(c["data"])
    s = c["feature"]
    arg, L = gen.axis_limits(c["limits"], X)
    gen.need(L[0, s] < L[1, s], "degenerate limits")
    Z = gen.inside(X, L, s)
    gen.need(len(Z) > 0, "no instance inside the limits")
    return X, Z, L, {"axis_limits": arg, "nof_instances": "all"}, models.Model(models.poly(c["model"]) if smooth else c["model"])


def size(f, X, L, s):
    G = np.vstack([X] + [np.where(np.arange(X.shape[1]) == s, v, X) for v in np.linspace(L[0, s], L[1, s], 7)])
    return float(max(np.abs(f(G)).max(), np.abs(f.jac(G)[:, s]).max() * (L[1, s] - L[0, s]), 1e-300))


def res(c, X, *effects):
    return {"nt": bool(X.shape[1] > 1 and models.interacts(c["model"]) and any(np.ptp(e) > 1e-9 for e in effects)), "labels": [c["k"]]}


def rel_integral(c):
    X, Z, L, kw, f = setup(c, smooth=True)
    s = c["feature"]
    xs = np.sort(gen.at(c["xs"], L[0, s], L[1, s]))
    start = L[0, s]
    with sut("PDP and d-PDP"):
        p, d = PDP(X, f, **kw), DerPDP(X, f, f.jac, **kw)
        P = p.eval(s, np.concatenate([[start], xs]), return_all=True, use_vectorized=c["vec"])
        P0, H0 = p.eval(s, xs, heterogeneity=True, centering="zero_start", use_vectorized=not c["vec"])
    node, w = np.polynomial.legendre.leggauss(8)  # exact up to degree 15
    curves = np.zeros((len(xs), len(Z)))
    for i, x in enumerate(xs):
        pts = start + (x - start) * (node + 1) / 2
        with sut("d-PDP"):
            curves[i] = (w[:, None] * d.eval(s, pts, return_all=True, use_vectorized=c["vec"])).sum(0) * (x - start) / 2
    sc = size(f, X, L, s)
    ensure(P.shape == (len(xs) + 1, len(Z)), "PDP returned curves of shape %s for %d points and %d instances", P.shape, len(xs) + 1, len(Z))
    close("ICE curves and integrated d-ICE curves", P[1:] - P[0], curves, sc, 1e-8)
    close("PDP from its start and integrated d-PDP", P0, curves.mean(1), sc, 1e-8)
    close("PDP heterogeneity and spread of the integrated d-ICE curves", H0, curves.std(1), sc, 1e-7)
    return res(c, X, P0)


def rel_onebin(c):
    X, Z, L, kw, f = setup(c)
    s = c["feature"]
    gen.need(len(np.unique(Z[:, s])) > 1, "one value")
    hi = L[1, s:s + 1]
    with sut("one-bin ALE and PDP"):
        a = ALE(X, f, **kw)
        a.fit(s, binning_method=bm.Fixed(1, 0, 0), centering="zero_start")
        y, h = a.eval(s, np.array([L[0, s], L[1, s]]), heterogeneity=True, centering="zero_start")
        p = PDP(X, f, **kw)
        yp, hp = p.eval(s, np.array([L[0, s], L[1, s]]), heterogeneity=True, centering="zero_start", use_vectorized=c["vec"])
    sc = size(f, X, L, s)
    close("one-bin ALE and PDP at the ends of the range", y, yp, sc, 1e-8)
    close("heterogeneity of one-bin ALE and PDP at the ends of the range", h, hp, sc, 1e-7)
    return res(c, X, yp)


def rel_linear(c):
    X, Z, L, kw, f = setup(c)
    s = c["feature"]
    gen.need(len(np.unique(Z[:, s])) > 1, "one value")
    xs = gen.at(c["xs"], L[0, s], L[1, s])
    b = bm.Fixed(c["bins"], 0, 0)
    jac = f.jac if c["jac"] else None
    with sut("ALE, RHALE, PDP and d-PDP"):
        a, r, p, d = ALE(X, f, **kw), RHALE(X, f, f.jac, **kw), PDP(X, f, **kw), DerPDP(X, f, jac, **kw)
        r1 = RHALE(X, f, f.jac, **kw)
        a.fit(s, binning_method=b, centering=c["c"])
        r.fit(s, binning_method=b, centering=c["c"])
        r1.fit(s, binning_method=bm.Fixed(1, 0, 0), centering="zero_start")
        ya, ha = a.eval(s, xs, heterogeneity=True, centering=c["c"])
        yr, hr = r.eval(s, xs, heterogeneity=True, centering=c["c"])
        y1, h1 = r1.eval(s, xs, heterogeneity=True, centering="zero_start")
        yp, hp = p.eval(s, xs, heterogeneity=True, centering="zero_start", use_vectorized=c["vec"])
        yd, hd = d.eval(s, xs, heterogeneity=True, use_vectorized=c["vec"])
    sc = size(f, X, L, s)
    w = L[1, s] - L[0, s]
    close("ALE and RHALE of a model linear in the feature", ya, yr, sc, 1e-8)
    close("heterogeneity of ALE and RHALE of a model linear in the feature", ha, hr, sc, 1e-6)
    close("one-bin RHALE and PDP of a model linear in the feature", y1, yp, sc, 1e-8)
    close("heterogeneity of one-bin RHALE and PDP of a model linear in the feature", h1, hp, sc, 1e-6)
    tol = 1e-8 if c["jac"] else 1e-7 * (1 + 1 / w)  # numerical derivatives: 1e-16 / 1e-6
    close("PDP of a model linear in the feature and its d-PDP", (xs - L[0, s]) * yd, yp, sc, 10 * tol)
    close("heterogeneity of the PDP of a model linear in the feature and of its d-PDP", (xs - L[0, s]) * hd, hp, sc, 100 * tol)
    return res(c, X, yp)


def rel_crossed(c):
    """every row of the other features occurs once in every bin: ALE is the PDP at the bin edges"""
    X = gen.build(c["data"])
    s, K = c["feature"], c["bins"]
    R = X[: c["rows"]]
    rs = np.random.RandomState(c["es"])
    lo = X[:, s].min()
    w = max(np.ptp(X[:, s]), 0.5)
    blocks = []
    for b in range(K):
        B = R.copy()
        B[:, s] = lo + w * (b + 0.05 + 0.9 * rs.rand(len(R))) / K
        blocks.append(B)
    Z = np.vstack(blocks)
    Z = Z[rs.permutation(len(Z))]
    gen.need(len(np.unique(Z[:, s])) > 1, "one value")
    L = np.stack([Z.min(0) - 1.0, Z.max(0) + 1.0])
    L[:, s] = [lo, lo + w]
    f = models.Model(c["model"])
    edges = np.linspace(lo, lo + w, K + 1)
    with sut("ALE and PDP of crossed data"):
        a, p = ALE(Z, f, axis_limits=L, nof_instances="all"), PDP(Z, f, axis_limits=L, nof_instances="all")
        a.fit(s, binning_method=bm.Fixed(K, 0, 0), centering="zero_start")
        ya = a.eval(s, edges, centering="zero_start")
        yp = p.eval(s, edges, centering="zero_start", use_vectorized=c["vec"])
    jumps = any(abs(e - t) < 1e-9 for e in edges for t in thresholds(c["model"], s))
    gen.need(not jumps, "a jump of the model on a bin edge")
    close("ALE and PDP at the bin edges of crossed data", ya, yp, size(f, Z, L, s), 1e-8)
    return res(c, Z, yp)


def thresholds(t, s):
    k = t[0]
    if k == "add":
        return [x for u in t[1] for x in thresholds(u, s)]
    if k == "mul":
        return thresholds(t[1], s) + thresholds(t[2], s)
    if k == "scale":
        return thresholds(t[2], s)
    return [t[2]] if k == "step" and t[1] == s else []


def rel_levels(c):
    r = c["r"]
    F = reg.fit(r)
    s = r["feature"]
    tree = F.pruned
    if tree is None:
        return {"nt": False, "labels": ["levels", "no tree"]}
    lo, hi = F.X[:, s].min(), F.X[:, s].max()
    xs = gen.at(c["xs"], lo, hi)
    nt = False
    sc = reg.scale_of(F)
    for n in tree.nodes:
        kids = [k for k in tree.nodes if k.parent_node is n]
        if not kids:
            continue
        vals = []
        for k in [n] + kids:
            Z = k.data["data"]
            if Z[:, s].min() == Z[:, s].max():
                break
            with sut("regional %s eval of node %d" % (r["m"], k.idx)):
                # every curve is taken from the same start: the pieces have different ranges
                y, h = F.r.eval(s, k.idx, xs.copy(), heterogeneity=True, centering=False)
            vals.append((len(Z), y, h))
        if len(vals) != len(kids) + 1:
            continue
        N, y, h = vals[0]
        ensure(sum(v[0] for v in vals[1:]) == N, "node %d has %d instances, its parts %s", n.idx, N, [v[0] for v in vals[1:]])
        mean = sum(v[0] * v[1] for v in vals[1:]) / N
        var = sum(v[0] * (v[2] ** 2 + (v[1] - mean) ** 2) for v in vals[1:]) / N
        close("effect of node %d and the weighted effects of its parts" % n.idx, y, mean, sc, 1e-8)
        close("squared heterogeneity of node %d and that of its parts" % n.idx, h ** 2, var, sc ** 2, 1e-8)
        nt |= bool(np.abs(vals[1][1] - vals[2][1]).max() > 1e-9) if len(kids) > 1 else False
    return {"nt": nt, "labels": ["levels", "regional " + r["m"], "split" if nt else "no split"]}


def rel_hindex(c):
    """a model of features s and j only: pairwise and both one-vs-all indices measure the same"""
    X = gen.build(c["data"])
    s, j, D = c["feature"], c["j"], X.shape[1]
    f = models.Model(c["model"])
    y = f(X)
    sc = max(np.abs(f(np.array([[x if k == s else z if k == j else 0.0 for k in range(D)] for x in X[:, s] for z in X[:, j]]))).max(), 1e-300)
    gen.need(np.std(y) > 1e-4 * sc, "nearly constant output")
    with sut("H-index"), hist.captured():
        h = HIndex(X, f, "all")
        a, b, p = h.eval_one_vs_all(s), h.eval_one_vs_all(j), h.eval_pairwise(s, j)
        rest = [h.eval_one_vs_all(k) for k in range(D) if k not in (s, j)]
        pairs = [h.eval_pairwise(k, l) for k in range(D) for l in range(k) if not {k, l} <= {s, j} and ({k, l} & {s, j})]
    close("H-index of two features one-vs-all, first and second", a, b, 1.0, 1e-6)
    # pairwise: the same numerator and denominator
    close("H-index of two features, pairwise and one-vs-all", p, a, 1.0, 1e-6)
    for v in rest:
        ensure(abs(v) < 1e-6, "one-vs-all H-index %r of a feature the model ignores", v)
    for (k, l), v in zip([(k, l) for k in range(D) for l in range(k) if not {k, l} <= {s, j} and ({k, l} & {s, j})], pairs):
        used = (set([k, l]) & {s, j}).pop()
        pd = np.array([f(np.where(np.arange(D) == used, x, X)).mean() for x in X[:, used]])
        if np.std(pd) > 1e-4 * sc:
            ensure(abs(v) < 1e-6, "H-index %r of features %d and %d, one of which the model ignores", v, k, l)
    return {"nt": models.interacts(c["model"]) and a > 1e-6, "labels": ["hindex", "D=%d" % D]}


def values(X, f, s):
    """SHAP values of feature s per instance: the fitted pairs, matched to instances by the feature's value"""
    e = ShapDP(X.copy(), f, nof_instances="all")
    e.fit(s)
    ev = e.feature_effect["feature_%d" % s]
    return np.asarray(ev["xx"]), np.asarray(ev["yy"])


def rel_shap2(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    for j in (0, 1):
        gen.need(np.ptp(X[:, j]) > 0, "constant feature")
    y = f(X)
    L = np.stack([X.min(0), X.max(0)])
    for s in (0, 1):
        o = 1 - s
        with sut("SHAP-DP and PDP"):
            xx, yy = values(X, f, s)
            ps = PDP(X, f, nof_instances="all").eval(s, X[:, s], use_vectorized=c["vec"])
            po = PDP(X, f, nof_instances="all").eval(o, X[:, o], use_vectorized=c["vec"])
        want = 0.5 * (ps - y.mean() + y - po)
        k = np.lexsort((want, X[:, s]))
        close("explained values", xx, X[k, s], 0, 0)
        k2 = np.lexsort((yy, xx))
        close("SHAP values of feature %d of two and partial dependences" % s, yy[k2], want[k], max(size(f, X, L, s), size(f, X, L, o)), 1e-8)
    return res(c, X, y)


def rel_efficiency(c):
    X = gen.build(c["data"])
    f = models.Model(c["model"])
    D = X.shape[1]
    total = np.zeros(len(X))
    for s in range(D):
        gen.need(np.ptp(X[:, s]) > 0, "constant feature")
        gen.need(len(np.unique(X[:, s])) == len(X), "ties")
    for s in range(D):
        with sut("SHAP-DP"):
            xx, yy = values(X, f, s)
        close("explained values", xx, np.sort(X[:, s]), 0, 0)
        total[np.argsort(X[:, s])] += yy
    y = f(X)
    L = np.stack([X.min(0), X.max(0)])
    close("sum of the SHAP values over the features", total, y - y.mean(), max(size(f, X, L, s) for s in range(D)), 1e-8)
    return res(c, X, y)
