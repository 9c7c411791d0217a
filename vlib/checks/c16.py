"""Pruning keeps the leading important levels; both thresholds are monotone."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, reg
from vlib.core import check as ensure, sut

CASES = {"quick": 800, "thorough": 10000}
RULE = ("Random regional method, data and model, first fitted with zero thresholds; the thresholds under test are then put just below, just above and between "
        "the relative drops and the initial heterogeneity that occur, and at random values; non-trivial = two thresholds led to pruned trees of different depth.")
ASSUMPTIONS = ["weights of a level's nodes are (instances+1)/sum(instances+1), as in the split search",
               "thresholds within 1e-9 (relative) of the compared value are not judged, except where both sides are exact (an initial heterogeneity equal to the threshold, "
               "a level left with exactly none)", "a level with an invalid subregion counts as not important",
               "trees with a negative heterogeneity (undershooting spline of SHAP-DP) are not judged"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=5, n=(14, 48)))
    if draw(st.integers(0, 7)):
        c = draw(reg.roomy(c))
    if c["m"] != "shap":
        D = len(c["data"]["cols"])
        c["depth"] = draw(st.sampled_from([1, 2, 2, 3, 3]))
        c["depth"] = min(c["depth"], (D - 1) if c["foc"] == "all" else len(c["foc"]))
    c["out"] = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -20, 2.0 ** 30]))
    thr = st.tuples(st.sampled_from(["abs", "level", "level", "level"]), st.integers(0, 2), st.sampled_from([0.5, 0.99, 0.999999, 1.000001, 1.01, 2.0]),
                    st.sampled_from([0.0, 0.01, 0.1, 0.3, 0.7, 0.99]))
    small = st.tuples(st.sampled_from(["zero", "zero", "rel", "abs"]), st.sampled_from([0.5, 0.999999, 1.0, 1.000001, 2.0]), st.sampled_from([0.01, 0.1, 1.0]))
    c["t"] = [list(x) for x in draw(st.lists(st.tuples(thr, small), min_size=1, max_size=4))]
    if c["m"] == "dpdp" and draw(st.integers(0, 2)) == 0:
        # a split that leaves exactly nothing: the relative drop is exactly one
        foi = c["feature"]
        o = draw(st.sampled_from([j for j in range(len(c["data"]["cols"])) if j != foi])) if c["foc"] == "all" else c["foc"][0]
        lo, gap = draw(st.integers(-3, 3)), draw(st.sampled_from([0.5, 1.0, 2.0]))
        c["data"]["cols"][o] = {"k": "cat", "o": lo, "gaps": [gap]}
        c["model"] = ["scale", draw(st.sampled_from([1.0, 3.0, -4.0])), ["mul", draw(st.sampled_from([["x", foi], ["sq", foi]])), ["step", o, lo + gap / 2]]]
        c["types"], c["limits"], c["mp"] = None, None, draw(st.sampled_from([2, 3]))
        c["t"][0] = [["abs", 0, 1.0, 1.0], c["t"][0][1]]
    c["drop"], c["small"] = 0.0, 0.0
    return c


def profile(tree):
    """weighted heterogeneity per level; None where it is not defined"""
    out = []
    for nodes in reg.levels(tree):
        h = np.array([n.data["heterogeneity"] for n in nodes], dtype=float)
        w = np.array([n.data["nof_instances"] for n in nodes], dtype=float) + 1
        out.append(None if np.any(h == reg.BIG) or np.any(np.isnan(h)) else float(np.sum(w / w.sum() * h)))
    return out


def expected(H, drop, small):
    """number of kept levels below the root, None if borderline"""
    if any(h is not None and h < 0 for h in H):
        return None  # SHAP-DP: the spline through the absolute residuals may undershoot
    if H[0] is None:
        return 0
    if H[0] != small and abs(H[0] - small) <= 1e-9 * small:
        return None
    if H[0] < small:
        return 0
    k = 0
    for a, b in zip(H, H[1:]):
        if b is None or a == 0:
            return k
        rel = (a - b) / a
        if abs(rel - drop) <= 1e-9 and not (b == 0.0 and drop == 1.0):
            return None
        if not rel > drop:
            return k
        k += 1
    return k


def depth(tree):
    return max(n.level for n in tree.nodes)


def check(c):
    F = reg.fit(c)
    labels = ["regional " + c["m"]]
    if F.full is None:
        return {"nt": False, "labels": labels + ["no tree"]}
    key = "feature_%d" % c["feature"]
    H = profile(F.full)
    drops = [(a - b) / a for a, b in zip(H, H[1:]) if a and b is not None]
    seen = []

    def judge(full, pruned, drop, small):
        H = profile(full)
        k = expected(H, drop, small)
        d = depth(pruned)
        if k is not None:
            ensure(d == k, "thresholds drop=%r small=%r: %d levels kept, expected %d; weighted heterogeneity per level %s", drop, small, d, k, H)
            want = [n.name for l in reg.levels(full)[: k + 1] for n in l]
            got = [n.name for n in pruned.nodes]
            ensure(got == want, "pruned nodes %s, expected %s", got, want)
            for a, b in zip(full.nodes, pruned.nodes):
                ensure(a.data["nof_instances"] == b.data["nof_instances"] and a.data.get("position") == b.data.get("position") and a.data.get("feature") == b.data.get("feature"),
                       "pruned node %d differs from the full tree's", a.idx)
        seen.append((drop, small, d, k is None))
        if drop == 1.0 and H[0] and 0.0 in H[1:]:
            labels.append("a drop of exactly one")
        if small and small == H[0]:
            labels.append("heterogeneity equal to the threshold")

    judge(F.full, F.pruned, 0.0, 0.0)
    for (kind, l, fac, val), (sk, sf, sv) in c["t"]:
        drop = val if kind == "abs" or not drops else max(0.0, drops[min(l, len(drops) - 1)] * fac)
        small = 0.0 if sk == "zero" or H[0] is None else H[0] * sf if sk == "rel" else sv * c["out"]
        o = dict(F.c, drop=drop, small=small)
        with sut("regional %s refit" % c["m"]):
            F.r.fit(c["feature"], **reg.fit_kw(o))
            full, pruned = F.r.tree_full[key], F.r.tree_pruned[key]
        ensure(len(full.nodes) == len(F.full.nodes), "the full tree has %d nodes with thresholds (%r, %r), %d with (0, 0)", len(full.nodes), drop, small, len(F.full.nodes))
        judge(full, pruned, drop, small)
    for d1, s1, n1, b1 in seen:
        for d2, s2, n2, b2 in seen:
            if d1 <= d2 and s1 <= s2 and not b1 and not b2:
                ensure(n2 <= n1, "raising the thresholds from (%r, %r) to (%r, %r) enlarged the pruned tree from %d to %d levels", d1, s1, d2, s2, n1, n2)
    labels += ["full depth %d" % depth(F.full)] + ["kept %d" % n for n in {x[2] for x in seen}]
    return {"nt": len({x[2] for x in seen}) > 1, "labels": labels}
