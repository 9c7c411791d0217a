"""Splits are the best candidates; node heterogeneity is the documented measure."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, reg
from vlib.core import check as ensure, close

CASES = {"quick": 640, "thorough": 8000}
RULE = ("Random regional method, data set, model, binning and fit options; at every level all candidates are evaluated by the reference; "
        "non-trivial = some level had at least two valid candidates with different drops.")
ASSUMPTIONS = ["weights of a level's nodes are (instances+1)/sum(instances+1)",
               "a candidate is invalid when a node's measure cannot be computed (fewer than min_points instances, constant feature, impossible binning)",
               "splits whose drops agree up to 1e-6 of the output scale are ties; a level without any valid candidate, and levels below it, are not judged"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=5 if tier == "quick" else 9, n=(14, 48), limits=True))
    if draw(st.integers(0, 3)):
        c = draw(reg.roomy(c))
    c["out"] = draw(st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -20, 2.0 ** 24]))
    return c


def check(c):
    F = reg.fit(c)
    s, X, c = c["feature"], F.X, F.c
    labels = ["regional " + c["m"]]
    if F.full is None:
        return {"nt": False, "labels": labels + ["no tree"]}
    lev = reg.levels(F.full)
    masks = reg.masks_by_rule(F, F.full)
    scale = reg.scale_of(F)
    tol = 1e-6 * scale if c["m"] != "shap" else 1e-4 * scale
    memo = {}

    def heter(mask):
        k = mask.tobytes()
        if k not in memo:
            memo[k] = reg.heter(F, mask)
        return memo[k]

    def node_ok(n):
        """compares the reported value; returns the reference value"""
        want, got = heter(masks[n.idx]), float(n.data["heterogeneity"])
        if want is None:
            ensure(got == reg.BIG or np.isnan(got), "node %d (%s): heterogeneity %r reported although it cannot be computed", n.idx, n.name, got)
        elif not np.isnan(want):
            ensure(got != reg.BIG or want == reg.BIG, "node %d (%s): reported as invalid, its heterogeneity is %r", n.idx, n.name, want)
            close("heterogeneity of node %d (%s)" % (n.idx, n.name), got, want, 0, 1e-6, tol * 1e-2)
        return want

    before = [node_ok(lev[0][0])]
    nt = False
    for l in range(1, len(lev)):
        nodes = lev[l]
        vals = [node_ok(n) for n in nodes]
        if any(b is None or np.isnan(b) for b in before):
            labels.append("stopped at an invalid level")
            break
        parents = [masks[n.idx] for n in lev[l - 1]]
        chosen, pos = nodes[0].data["feature"], float(nodes[0].data["position"])
        drops, got, unsure = [], None, False
        cands = [(j, p) for j in F.foc for p in reg.candidates(F, j)]
        rng = np.ptp(X[:, chosen])
        ensure(any(j == chosen and abs(p - pos) <= 1e-9 * max(rng, abs(pos)) for j, p in cands),
               "level %d: split at %r of feature %d is not a candidate %s", l, pos, chosen, [p for j, p in cands if j == chosen])
        for j, p in [(chosen, pos)] + cands:
            parts = [q for m in parents for q in reg.sides(F, j, p, F.types[j], m)]
            hs = []
            for q in parts:
                h = heter(q)
                hs.append(h)
                if h is None:
                    break
            if hs[-1] is None or any(np.isnan(h) for h in hs):
                if hs[-1] is not None:
                    unsure = True
                d = None
            else:
                w = np.array([q.sum() + 1.0 for q in parts])
                d = float(np.sum(w / w.sum() * (np.repeat(before, 2) - np.array(hs))))
            if got is None:
                got = (d,)
            elif d is not None:
                drops.append((d, j, p))
        labels.append("level %d with %s valid candidates" % (l, "no" if not drops else "one" if len(drops) == 1 else "several"))
        if unsure:
            labels.append("unsure candidate")
        if not drops:
            break
        best = max(drops)
        if got[0] is None:
            if any(v is not None and np.isnan(v) for v in vals):
                break
            ensure(False, "level %d: invalid split of feature %d at %r chosen although feature %d at %r is valid", l, chosen, pos, best[1], best[2])
        ensure(got[0] >= best[0] - tol, "level %d: split of feature %d at %r drops heterogeneity by %r, feature %d at %r by %r", l, chosen, pos, got[0], best[1], best[2], best[0])
        nt = nt or (len(drops) > 1 and max(drops)[0] - min(drops)[0] > 10 * tol)
        before = vals
    if len(lev) - 1 < c["depth"]:
        ensure(any(masks[n.idx].sum() < c["mp"] for n in lev[-1]), "search stopped at level %d of %d although every node has %d instances", len(lev) - 1, c["depth"], c["mp"])
    return {"nt": nt, "labels": labels}
