"""Regional eval at every accepted node equals the global method on that node's instances."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, reg
from vlib.core import check as ensure, close, rejects, sut

CASES = {"quick": 720, "thorough": 9000}
RULE = ("Random regional method, data, model, fit options (or none: the first eval fits), instance limit; every node of the accepted tree is evaluated with random "
        "centering, heterogeneity and query points; non-trivial = a node below the root was evaluated.")
ASSUMPTIONS = ["the reference is the global class itself (decided by C01-C08) on the rows that satisfy the node's rule, with default axis limits and binning",
               "where the global method rejects the node's data, the regional one has to reject it too"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=5, n=(14, 48)))
    if draw(st.integers(0, 4)):
        c = draw(reg.roomy(c))
    c["drop"], c["small"] = draw(st.sampled_from([0.0, 0.0, 0.1])), draw(st.sampled_from([0.0, 0.0, 0.0, 0.1]))
    c["ninst"] = draw(st.sampled_from([None, None, None, 12, 30])) if c["m"] != "shap" else None
    c["auto"] = draw(st.integers(0, 5)) == 0
    c["q"] = draw(st.lists(st.fixed_dictionaries({"xs": gen.query(-0.3, 1.3, 5), "h": st.booleans(), "c": st.sampled_from(hist.CENT)}), min_size=1, max_size=3))
    # fit the same feature again with other options and evaluate once more
    c["again"] = draw(st.none() | st.fixed_dictionaries({"drop": st.sampled_from([0.0, 0.2]), "mp": st.sampled_from([2, 4, 6]), "nc": st.integers(1, 4),
                                                        "cat": st.booleans(), "bins": st.sampled_from(reg.BINS[c["m"]]) if c["m"] in reg.BINS else st.none()}))
    c["bad"] = draw(st.sampled_from([0, 1, 5, 1000]))
    return c


def evaluate(c, F, s, m, labels, when=""):
    key = "feature_%d" % s
    F.full, F.pruned = F.r.tree_full[key], F.r.tree_pruned[key]
    masks = reg.masks_by_rule(F, F.pruned)
    nodes = F.pruned.nodes
    nt = False
    kw = {} if m in ("ale", "rhale") else {"nof_instances": "all"}
    for n in nodes[:7]:
        mask = masks[n.idx]
        Z = F.X[mask]
        gkw = dict(kw, data_effect=F.J[mask].copy()) if m == "rhale" else kw
        lo, hi = Z[:, s].min(), Z[:, s].max()
        what = "regional %s at node %d (%s)%s" % (m, n.idx, n.name, when)
        if m == "shap" and len(np.unique(Z[:, s])) < 2:
            labels.append("too few instances for a spline")
            continue
        for q in c["q"]:
            xs = gen.at(q["xs"], lo, hi)
            try:
                g = hist.build(m, Z.copy(), F.f, **gkw)
                want = g.eval(s, xs.copy(), heterogeneity=q["h"], centering=q["c"])
            except Exception:
                rejects(what + " (whose data the global method rejects)", lambda: F.r.eval(s, n.idx, xs.copy(), heterogeneity=q["h"], centering=q["c"]))
                labels.append("rejected by both")
                continue
            with sut(what):
                got = F.r.eval(s, n.idx, xs.copy(), heterogeneity=q["h"], centering=q["c"])
            scale = reg.scale_of(F)
            for a, b, nm in zip(got if q["h"] else [got], want if q["h"] else [want], ("effect", "heterogeneity")):
                ensure(not q["h"] or len(got) == 2, "%s: %d values returned", what, len(got))
                close("%s, %s with centering=%r" % (what, nm, q["c"]), a, b, scale, 1e-7 if m == "shap" else 1e-9)
            nt = nt or n.level > 0
    labels.append("accepted levels %d%s" % (max(n.level for n in nodes), when))
    return nt


def check(c):
    s, m = c["feature"], c["m"]
    key = "feature_%d" % s
    F = reg.prepare(c)
    labels = ["regional " + m, "fitted by eval" if c["auto"] else "fitted explicitly"]
    if not c["auto"]:
        with sut("regional %s fit" % m):
            F.r.fit(s, **reg.fit_kw(F.c))
    splittable = F.types[s] != "cat" or (c["cat"] and not c["auto"])
    if not splittable or (len(F.X) < c["mp"] and not c["auto"]):
        rejects("regional %s eval of feature %d, which has no tree" % (m, s), lambda: F.r.eval(s, 0, np.array([0.0])))
        return {"nt": False, "labels": labels + ["no tree"]}
    if c["auto"]:
        # the regional defaults ask for ten instances and one level
        gen.need(len(F.X) >= 10, "too few instances for the default fit")
        lo, hi = F.X[:, s].min(), F.X[:, s].max()
        try:
            F.r.eval(s, 0, np.array([lo, hi]))
        except Exception:
            pass
        ensure(key in F.r.tree_pruned, "the first eval does not fit feature %d", s)
    nt = evaluate(c, F, s, m, labels)
    if c.get("again"):
        cur = dict(F.c, **c["again"])
        with sut("regional %s fit with other options" % m):
            F.r.fit(s, **reg.fit_kw(cur))
        if F.r.tree_pruned[key] is None:
            rejects("regional %s eval of feature %d, which has no tree" % (m, s), lambda: F.r.eval(s, 0, np.array([0.0])))
            return {"nt": nt, "labels": labels + ["no tree after another fit"]}
        nt = evaluate(c, F, s, m, labels, " after another fit") or nt
    ids = {n.idx for n in F.pruned.nodes}
    nodes = F.pruned.nodes
    # nodes that are not in the accepted tree
    absent = [len(nodes) + c["bad"], -1] + [n.idx for n in F.full.nodes if n.idx not in ids][:1]
    for i in absent:
        rejects("regional %s eval at node %d of a tree with nodes %s" % (m, i, sorted(ids)), lambda: F.r.eval(s, i, np.array([F.X[:, s].min()])))
    if c["ninst"]:
        labels.append("instance limit")
    return {"nt": nt, "labels": labels}
