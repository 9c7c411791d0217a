"""H-index and REPID against naive definitions, for any order of queries."""
import numpy as np
from hypothesis import strategies as st

from effector.interaction import HIndex, REPID
from vlib import gen, models, ref
from vlib.core import check as ensure, close, sut

CASES = {"quick": 1600, "thorough": 20000}
RULE = ("Random data (also integer / single precision), model (a third additive) and instance limit; a random sequence of pairwise, one-vs-all, REPID queries, fits and plots; "
        "non-trivial = some queried index is larger than 1e-6, or the model is additive and not constant.")
ASSUMPTIONS = ["pairs whose joint partial dependence is constant (0/0) are not judged",
               "the H-index follows Friedman and Popescu: model output and partial dependences centered at the data points"]


@st.composite
def strategy(draw, tier="quick"):
    data = draw(gen.dataset(n=(3, 24), d=(2, 4), kinds=gen.ALL, big="mid"))
    D = len(data["cols"])
    add = draw(st.integers(0, 2)) == 0
    t = draw(gen.additive(D, smooth=False))["t"] if add else draw(gen.term(D, smooth=False, focus=draw(st.integers(0, D - 1))))
    if draw(st.booleans()):
        t = ["add", [t, ["c", draw(gen.q(-30, 30, 2))]]]
    pair = st.lists(st.integers(0, D - 1), min_size=2, max_size=2, unique=True)
    op = st.one_of(st.tuples(st.just("pair"), pair), st.tuples(st.just("one"), st.integers(0, D - 1)), st.tuples(st.just("repid"), st.integers(0, D - 1)),
                   st.tuples(st.just("fit"), st.booleans()), st.tuples(st.just("plot"), st.booleans()), st.tuples(st.just("rfit"), st.none() | st.integers(0, D - 1) | st.lists(st.integers(0, D - 1), min_size=1, max_size=D, unique=True)), st.tuples(st.just("rplot"), st.none()))
    ops = draw(st.lists(op, min_size=2, max_size=6))
    return {"data": data, "model": t, "add": add, "ops": [list(o) for o in ops], "ninst": draw(st.sampled_from(["all", "all", "all", 1000, 5])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f8", "i8", "f4"])), "out": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6]))}


def shown(ax, i, j, value):
    """the number written into cell (i, j) of the matrix is its value"""
    texts = [t.get_text() for t in ax.texts if tuple(t.get_position()) == (j, i)]
    ensure(len(texts) == 1, "cell (%d, %d) of the matrix shows %s", i, j, texts)
    ensure(np.isnan(value) or abs(float(texts[0]) - value) <= 0.0051 + 1e-9 * abs(value), "cell (%d, %d) shows %s, its value is %r", i, j, texts[0], value)


def rows_named(ax, D):
    """bar i is at the tick of feature i"""
    ticks = dict(zip([float(t) for t in ax.get_yticks()], [t.get_text() for t in ax.get_yticklabels()]))
    for i, p in enumerate(ax.patches):
        y = p.get_y() + p.get_height() / 2
        ensure(ticks.get(float(round(y, 6))) == "feature %d" % (i + 1), "the bar of feature %d is at the tick %r", i, ticks.get(float(round(y, 6))))


def check(c):
    import matplotlib.pyplot as plt

    X = gen.build(c["data"])
    if c["dtype"] == "i8":
        X = np.round(X * 4)
    X = X.astype(c["dtype"])
    f = models.Model(c["model"], c["out"])
    with sut("interaction objects"):
        h = HIndex(X.copy(), f) if c["ninst"] == 1000 else HIndex(X.copy(), f, nof_instances=c["ninst"])
        r = REPID(X.copy(), f, f.jac, c["ninst"])
    Z, ZR = np.array(h.data, dtype=float), np.array(r.data, dtype=float)
    N, D = Z.shape
    for d, nm in ((Z, "HIndex"), (ZR, "REPID")):
        want = len(X) if c["ninst"] == "all" else min(len(X), c["ninst"])
        ensure(len(d) == want, "%s uses %d instances, expected %d", nm, len(d), want)
    eps = 1e-7 if c["dtype"] == "f4" else 1e-12

    def pd(cols):
        out = []
        for row in Z:
            W = Z.copy()
            W[:, cols] = row[cols]
            out.append(np.mean(f(W)))
        out = np.array(out)
        return out - out.mean()

    memo = {}

    def pair(i, j):
        k = (min(i, j), max(i, j))
        if k not in memo:
            a, b, ab = pd([k[0]]), pd([k[1]]), pd(list(k))
            memo[k] = (np.mean((ab - a - b) ** 2), np.mean(ab ** 2))
        return memo[k]

    def one(i):
        if i not in memo:
            y = f(Z)
            y = y - y.mean()
            memo[i] = (np.mean((y - pd([i]) - pd([j for j in range(D) if j != i])) ** 2), np.mean(y ** 2))
        return memo[i]

    corners = np.array(np.meshgrid(*[[Z[:, j].min(), Z[:, j].max()] for j in range(D)])).reshape(D, -1).T
    scale = max(np.abs(f(Z)).max(), np.abs(f(corners)).max(), 1e-300)
    state = {"big": False, "add": False}

    def judge(what, got, nd):
        nom, den = nd
        if den <= (1e-6 * scale) ** 2:
            return
        tol = (eps * scale) * np.sqrt(max(nom, (eps * scale) ** 2)) * 100 / den + 100 * eps
        close(what, got, nom / den, 0, max(1e-9, 100 * eps), tol)
        if c["add"]:
            ensure(got <= tol + 1e-12, "%s is %r for an additive model", what, got)
            state["add"] = True
        if nom / den > 1e-6:
            state["big"] = True

    def repid(i):
        lo, hi = ZR[:, i].min(), ZR[:, i].max()
        g = np.linspace(lo, hi, 21)
        xs = (g[1:] + g[:-1]) / 2
        Y = ref.ice(f, ZR, xs, i) - ref.ice(f, ZR, np.array([lo]), i)
        return float(np.mean(ref.pstd(Y)))

    def judge_r(i, got):
        v = repid(i)
        close("REPID index of feature %d" % i, got, v, scale, max(1e-8, 100 * eps))
        if v > 1e-6 * scale:
            state["big"] = True

    def constant(i):
        return ZR[:, i].min() == ZR[:, i].max()

    def matrix_ok():
        M = np.asarray(h.interaction_matrix)
        ensure(np.array_equal(M, M.T, equal_nan=True), "the interaction matrix is not symmetric: %s", M)

    for op, a in c["ops"]:
        if op == "pair":
            i, j = a
            with sut("pairwise H-index"):
                got = h.eval_pairwise(i, j)
                calls = f.calls
                again, other = h.eval_pairwise(i, j), h.eval_pairwise(j, i)
                calls = f.calls - calls
            judge("H-index of features %d, %d" % (i, j), got, pair(i, j))
            ensure(again == got and other == got or np.isnan(got), "H-index of features %d, %d: %r, then %r, reversed %r", i, j, got, again, other)
            ensure(calls == 0 or np.isnan(got), "H-index of features %d, %d is computed again", i, j)
            ensure(h.interaction_matrix[i, j] == got or np.isnan(got), "matrix entry (%d, %d) is %r, the index %r", i, j, h.interaction_matrix[i, j], got)
            matrix_ok()
        elif op == "one":
            with sut("one-vs-all H-index"):
                got = h.eval_one_vs_all(a)
                calls = f.calls
                again = h.eval_one_vs_all(a)
                calls = f.calls - calls
            judge("one-vs-all H-index of feature %d" % a, got, one(a))
            ensure(again == got and calls == 0 or np.isnan(got), "one-vs-all H-index of feature %d is computed again", a)
            ensure(h.one_vs_all_matrix[a] == got or np.isnan(got), "matrix entry %d is %r, the index %r", a, h.one_vs_all_matrix[a], got)
        elif op == "repid":
            if constant(a):
                continue
            with sut("REPID"):
                got = r.eval_one_vs_all(a)
                calls = f.calls
                again = r.eval_one_vs_all(a)
                calls = f.calls - calls
            judge_r(a, got)
            ensure(again == got and calls == 0, "REPID index of feature %d: %r, then %r", a, got, again)
        elif op in ("fit", "plot"):
            with sut("HIndex.%s" % op):
                h.fit(pairwise_matrix=a or D > 3, one_vs_all=not a) if op == "fit" else h.plot(interaction_matrix=a, one_vs_all=not a)
            if op == "plot":
                img = plt.figure(plt.get_fignums()[-1]).axes[0]
                if a:
                    data = np.array(img.images[0].get_array(), dtype=float)
                    for i in range(D):
                        for j in range(D):
                            if i != j:
                                shown(img, i, j, data[i, j])
                                judge("plotted H-index of features %d, %d" % (i, j), data[i, j], pair(i, j))
                else:
                    ensure(len(img.patches) == D, "%d bars for %d features", len(img.patches), D)
                    rows_named(img, D)
                    for i, p in enumerate(img.patches):
                        judge("plotted H-index of feature %d" % i, p.get_width(), one(i))
                plt.close("all")
            if a:
                matrix_ok()
                for i in range(D):
                    for j in range(i):
                        judge("fitted H-index of features %d, %d" % (i, j), h.interaction_matrix[i, j], pair(i, j))
            else:
                for i in range(D):
                    judge("fitted one-vs-all H-index of feature %d" % i, h.one_vs_all_matrix[i], one(i))
        else:
            if any(constant(i) for i in range(D)):
                continue
            with sut("REPID." + op[1:]):
                (r.fit() if a is None else r.fit(a)) if op == "rfit" else r.plot()
            if op == "rplot":
                img = plt.figure(plt.get_fignums()[-1]).axes[0]
                ensure(len(img.patches) == D, "%d bars for %d features", len(img.patches), D)
                rows_named(img, D)
                for i, p in enumerate(img.patches):
                    judge_r(i, p.get_width())
                plt.close("all")
            for i in range(D) if a is None else [a] if isinstance(a, int) else a:
                judge_r(i, r.one_vs_all_matrix[i])
    labels = ["additive" if c["add"] else "general", c["dtype"]] + sorted({o[0] for o in c["ops"]})
    return {"nt": state["big"] or state["add"], "labels": labels}
