"""Accepted subregions: minimum size, no worse heterogeneity, same subregions at any output / feature scale."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, reg
from vlib.checks.c16 import profile
from vlib.core import check as ensure

CASES = {"quick": 800, "thorough": 10000}
RULE = ("Random regional method, data, polynomial/step model; output scales 2^-200..2^200 and feature units 2^-60..2^60 (powers of two, so both runs see the same mantissas); "
        "non-trivial = a split was accepted at one of the scales.")
ASSUMPTIONS = ["heterogeneity of a level is weighted by (instances+1)/sum(instances+1), as in the split search",
               "SHAP-DP fits a smoothing spline whose smoothing is not scale free: only the minimum size and the drop are checked for it"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=5, n=(14, 48)))
    if draw(st.integers(0, 5)):
        c = draw(reg.roomy(c))
    c["mp"] = draw(st.sampled_from([2, 3, 5, 8, 10, 14]))
    if c["m"] == "shap" and draw(st.booleans()):
        # enough points for a minimum that matters
        c.update(data=dict(c["data"], n=draw(st.integers(28, 40))), mp=draw(st.sampled_from([9, 12, 14, 16, 18])), nc=draw(st.integers(1, 3)), drop=0.0, small=0.0)
    if c["m"] != "shap" and draw(st.integers(0, 3)) == 0:
        # large minima
        c.update(data=dict(c["data"], n=draw(st.integers(70, 200))), mp=draw(st.sampled_from([20, 25, 31, 40, 50, 60, 101])), depth=min(c["depth"], 2))
    c["model"] = models.poly(c["model"])
    c["small"] = draw(st.sampled_from([0.0, 0.0, 0.0625, 0.125])) if c["m"] != "shap" else 0.0
    D = len(c["data"]["cols"])
    e = st.sampled_from([0, 0, 0, -60, -30, -12, 10, 30, 60])
    return {"c": c, "k": draw(st.sampled_from([-200, -60, -40, -24, -12, 12, 24, 27, 30, 40, 60, 200, 0])), "u": draw(st.lists(e, min_size=D, max_size=D)),
            "only_out": draw(st.booleans())}


def judge(F, c, what):
    if F.full is None:
        return []
    lev = reg.levels(F.pruned)
    masks = reg.masks_by_rule(F, F.pruned)
    for nn in lev[1:]:
        for n in nn:
            got = int(masks[n.idx].sum())
            ensure(got >= c["mp"] and n.data["nof_instances"] >= c["mp"],
                   "%s: accepted subregion %d (%s) has %d instances, at least %d were asked for", what, n.idx, n.name, got, c["mp"])
            ensure(np.isfinite(n.data["heterogeneity"]) and n.data["heterogeneity"] != reg.BIG, "%s: accepted subregion %d (%s) has heterogeneity %r", what, n.idx, n.name, n.data["heterogeneity"])
    H = profile(F.pruned)
    for l in range(1, len(H)):
        ensure(H[l - 1] is not None and H[l] < H[l - 1] * (1 + 1e-12), "%s: level %d changes weighted heterogeneity from %r to %r", what, l, H[l - 1], H[l])
    return [(n.level, n.data.get("feature"), n.data.get("comparison"), n.data["nof_instances"], None if n.parent_node is None else float(n.data["position"])) for n in F.pruned.nodes]


def check(case):
    c = case["c"]
    s, m = c["feature"], c["m"]
    F0 = reg.fit(dict(c, out=1.0))
    a = judge(F0, F0.c, "regional %s" % m)
    out = 2.0 ** case["k"]
    u = [1.0] * F0.D if case["only_out"] or m == "shap" else [2.0 ** k for k in case["u"]]
    h = out / u[s] if m == "dpdp" else out
    F1 = reg.fit(dict(c, out=out, units=u, small=c["small"] * h))
    b = judge(F1, F1.c, "regional %s, output scale %g, units %s" % (m, out, u))
    labels = ["regional " + m, "accepted levels %d" % (max((x[0] for x in a), default=0)), "output scale 2^%d" % case["k"]]
    if u != [1.0] * F0.D:
        labels.append("rescaled features")
    if m != "shap":
        back = [x[:4] + (None if x[4] is None else x[4] / u[x[1]],) for x in b]
        same = len(a) == len(back) and all(p[:4] == q[:4] and (p[4] == q[4] or abs(p[4] - q[4]) <= 1e-9 * np.ptp(F0.X[:, p[1]])) for p, q in zip(a, back))
        ensure(same, "regional %s: accepted subregions %s become %s at output scale 2^%d with feature units %s", m, a, back, case["k"], u)
    return {"nt": len(a) > 1 or len(b) > 1, "labels": labels}
