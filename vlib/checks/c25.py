"""Categorical features: inference, declaration, splitting."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, reg
from vlib.core import check as ensure, close, rejects, sut
from effector import utils

CASES = {"quick": 700, "thorough": 10000}
RULE = ("Random data mixing discrete (two to dozens of values, also thousands of rows with most values in few of them, also exactly at the categorical limit, integer or float type) and continuous features, limit, declared or inferred types, "
        "regional method and split options; non-trivial = the feature of interest or a conditioning feature is categorical.")
ASSUMPTIONS = ["declared types other than 'cat' mean numerical ('cont' and 'numerical' are used)"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(methods=["pdp", "pdp", "pdp", "dpdp", "ale", "ale", "rhale", "shap"], depth=2, nc=5))
    if draw(st.booleans()):
        c = draw(reg.roomy(c))
    D = len(c["data"]["cols"])
    s = c["feature"]
    if c["m"] != "shap" and draw(st.integers(0, 2)) == 0:
        c["data"]["cols"][s] = draw(gen.col(["cat"]))
    for j in range(D):
        if j != s and draw(st.integers(0, 1)) == 0:
            c["data"]["cols"][j] = draw(gen.col(["cat"]))
    c["cat"] = draw(st.booleans())
    c["types"] = draw(st.none() | st.none() | st.lists(st.sampled_from(["cat", "cont", "numerical"]), min_size=D, max_size=D))
    # types are those of all the data, whichever rows are used
    c["ninst"] = draw(st.integers(10, 20)) if draw(st.integers(0, 3)) == 0 else None
    return {"r": c, "lim": draw(st.none() | st.tuples(st.integers(0, D - 1), st.integers(-1, 1))), "int": draw(st.booleans()),
            "long": {"n": draw(st.integers(300, 3000)), "late": draw(st.sampled_from([1, 3, 30, 250])), "seed": draw(gen.SEED)} if draw(st.integers(0, 3)) == 0 else None,
            "perm": draw(gen.SEED), "only": draw(st.booleans()), "two": draw(st.booleans())}


class Relabelled:
    """the model for data whose column j had its values replaced by other labels"""

    def __init__(self, f, j, old, new):
        self.f, self.j, self.old, self.new = f, j, old, new

    def back(self, x):
        x = np.array(x, dtype=float)
        o = np.argsort(self.new)
        k = o[np.minimum(np.searchsorted(self.new[o], x[:, self.j]), len(o) - 1)]
        x[:, self.j] = self.old[k]
        return x

    def __call__(self, x):
        return self.f(self.back(x))

    def jac(self, x):
        return self.f.jac(self.back(x))


def long_data(c, lim, m):
    """many rows; most values of some columns occur in the first, last or middle rows only"""
    n, late = c["n"], c["late"]
    rng = np.random.RandomState(c["seed"])
    few = float(max(1, lim - 2))
    Z = np.stack([np.r_[np.zeros(n - late), np.arange(late) + 1.0], np.r_[np.arange(late) + 1.0, np.zeros(n - late)],
                  np.r_[np.zeros(n // 2 - late // 2), np.arange(late) + 1.0, np.zeros(n - late - (n // 2 - late // 2))],
                  np.minimum(np.arange(n) // 7, few), rng.rand(n)], axis=1)
    want = ["cat" if len(set(Z[:, j].tolist())) < lim else "cont" for j in range(5)]
    with sut("get_feature_types"):
        ensure(list(utils.get_feature_types(Z, lim)) == want, "inferred types of %d rows with limit %d: %s, expected %s", n, lim, list(utils.get_feature_types(Z, lim)), want)
        e = hist.build_regional(m, Z, Plain(), nof_instances=30, cat_limit=lim)
        ensure([t == "cat" for t in e.feature_types] == [t == "cat" for t in want], "regional %s, %d rows, limit %d: types %s, expected %s", m, n, lim, e.feature_types, want)


class Plain:
    def __call__(self, x):
        return x[:, 0] * 1.0

    def jac(self, x):
        return np.concatenate([np.ones((len(x), 1)), np.zeros((len(x), x.shape[1] - 1))], axis=1)


def check(c):
    r = dict(c["r"])
    X = gen.build(r["data"])
    s, m = r["feature"], r["m"]
    D = X.shape[1]
    if c["lim"] is not None:
        r["cat_limit"] = max(2, len(np.unique(X[:, c["lim"][0]])) + c["lim"][1])
    lim = r["cat_limit"]
    n_uniq = [len(set(X[:, j].tolist())) for j in range(D)]
    inferred = ["cat" if n < lim else "cont" for n in n_uniq]
    with sut("get_feature_types"):
        Z = np.round(X * 8).astype(int) if c["int"] else X.copy()
        got = list(utils.get_feature_types(Z, lim))
        want = ["cat" if len(set(Z[:, j].tolist())) < lim else "cont" for j in range(D)]
    ensure(got == want, "inferred types %s with limit %d and %s unique values", got, lim, [len(set(Z[:, j].tolist())) for j in range(D)])

    if c["long"] is not None:
        long_data(c["long"], lim, m)

    # keep the search small where everything would be categorical
    top = 25 if m != "shap" else 4
    types = r["types"] if r["types"] is not None else None
    eff = [("cat" if t == "cat" else "cont") for t in types] if types is not None else inferred
    foc = [j for j in range(D) if j != s] if r["foc"] == "all" else list(r["foc"])
    gen.need(all(eff[j] != "cat" or n_uniq[j] <= top for j in foc), "too many categories")
    r["types"] = types
    F = reg.prepare(r)
    declared = list(F.ctor["feature_types"]) if F.ctor["feature_types"] is not None else None
    eff = [("cat" if t == "cat" else "cont") for t in declared] if declared is not None else inferred
    with sut("regional %s" % m):
        have = list(F.r.feature_types)
    ensure([t == "cat" for t in have] == [t == "cat" for t in eff], "feature types %s, expected %s (limit %d, %s unique values)", have, eff, lim, n_uniq)
    if r["ninst"]:
        X = F.X
        r["limits"] = r["limits"] or "some rows"
    key = "feature_%d" % s
    xs = np.linspace(X[:, s].min(), X[:, s].max(), 3)
    with sut("regional %s fit" % m):
        F.r.fit(s, **reg.fit_kw(F.c))
        tree = F.r.tree_full[key]
    labels = (["some rows"] if r["ninst"] else []) + [m, "foi " + eff[s]] + (["declared"] if declared is not None else ["inferred"])
    nt = eff[s] == "cat" or any(eff[j] == "cat" for j in foc)
    if eff[s] == "cat" and not r["cat"]:
        ensure(tree is None and F.r.tree_pruned[key] is None, "a categorical feature of interest was partitioned without being asked")
        rejects("evaluating a categorical feature that was not partitioned", lambda: F.r.eval(s, 0, xs))
        return {"nt": nt, "labels": labels + ["not partitioned"]}
    if len(X) < r["mp"]:
        return {"nt": False, "labels": labels}
    ensure(tree is not None, "feature of interest (%s, splitting categorical: %s) was not partitioned", eff[s], r["cat"])
    lv = reg.levels(tree)
    for l in lv[1:]:
        for n in l:
            d = n.data
            j = d["feature"]
            ensure(j in foc, "split on feature %d, allowed %s", j, foc)
            ensure((d["feature_type"] == "cat") == (eff[j] == "cat"), "feature %d is %s but was split as %s", j, eff[j], d["feature_type"])
            ensure(d["comparison"] in (("==", "!=") if eff[j] == "cat" else ("<=", ">")), "%s feature split with %s", eff[j], d["comparison"])
            pos = np.asarray(d["candidate_split_positions"], dtype=float)
            if eff[j] == "cat":
                close("candidate positions of a categorical feature", pos, np.array(sorted(set(X[:, j].tolist()))), 0, 0)
                ensure(d["position"] in set(X[:, j].tolist()), "split at %r, not a value of the feature", d["position"])
            else:
                close("candidate positions of a numerical feature", pos, np.array(reg.candidates(dict_F(F, eff), j)), np.abs(X[:, j]).max(), 1e-12)
                ensure(X[:, j].min() < d["position"] < X[:, j].max(), "split at %r, not inside the range", d["position"])
            ensure(d["position"] in pos, "split at %r, not a candidate", d["position"])
            close("range", d["range"], [X[:, j].min(), X[:, j].max()], 0, 0)
    if declared is None and c["two"] and not r["ninst"]:
        # declaring what would be inferred changes nothing
        r2 = dict(F.c, types=list(inferred))
        G = reg.prepare(r2)
        with sut("regional %s fit" % m):
            G.r.fit(s, **reg.fit_kw(r2))
            t2 = G.r.tree_full[key]
        a = [(n.level, n.data.get("feature"), n.data.get("position"), n.data["nof_instances"]) for n in tree.nodes]
        b = [(n.level, n.data.get("feature"), n.data.get("position"), n.data["nof_instances"]) for n in t2.nodes]
        ensure(a == b, "declaring the inferred types changes the tree: %s / %s", a, b)
        labels.append("declared = inferred")
    cats = [j for j in foc if eff[j] == "cat"]
    if cats and m in ("pdp", "dpdp") and len(lv) > 1 and r["limits"] is None:
        # only equality of the values of a categorical conditioning feature matters
        j = cats[c["perm"] % len(cats)]
        old = np.array(sorted(set(X[:, j].tolist())))
        rs = np.random.RandomState(c["perm"])
        new = rs.permutation(len(old)) * 1.5 - 2.0
        f2 = Relabelled(F.f, j, old, new)
        X2 = X.copy()
        X2[:, j] = new[np.searchsorted(old, X[:, j])]
        with sut("regional %s with relabelled categories" % m):
            o = hist.build_regional(m, X2, f2, nof_instances="all", feature_types=list(eff))
            o.fit(s, **reg.fit_kw(F.c))
            t2 = o.tree_full[key]
        ensure(t2 is not None, "no tree with relabelled categories")
        l2 = reg.levels(t2)
        def total(ns):
            w = np.array([n.data["nof_instances"] + 1.0 for n in ns])
            return float(np.sum(w / w.sum() * np.array([n.data["heterogeneity"] for n in ns])))
        scale = reg.scale_of(F)
        close("initial heterogeneity after relabelling the categories of feature %d" % j, total(l2[0]), total(lv[0]), scale, 1e-9)
        valid = [all(n.data["heterogeneity"] < 1e7 for n in l) for l in (lv[1], l2[1])]
        ensure(valid[0] == valid[1], "relabelling the categories of feature %d makes a split %s", j, "impossible" if valid[0] else "possible")
        if valid[0]:
            close("heterogeneity of the best split after relabelling the categories of feature %d" % j, total(l2[1]), total(lv[1]), scale, 1e-9)
        labels.append("relabelled")
    return {"nt": nt, "labels": labels}


def dict_F(F, eff):
    class G:
        pass
    g = G()
    g.X, g.types, g.c = F.X, eff, F.c
    return g
