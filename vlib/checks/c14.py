"""Regional trees: invariants recomputed from the published rules."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, reg
from vlib.core import check as ensure, close, sut

CASES = {"quick": 1000, "thorough": 12000}
RULE = ("Random regional method, data set (ties, categories, declared types), model and fit options; "
        "non-trivial = the full tree has at least one split.")
ASSUMPTIONS = ["a level of the full tree whose subregions are all invalid may hold empty nodes; everything else holds for it too"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=5))
    D = len(c["data"]["cols"])
    if draw(st.integers(0, 2)) == 0:
        # tiny and huge units, codes and timestamps: neighbouring values differ by very little
        c["units"] = [2.0 ** draw(st.sampled_from([0, 0, -10, -40, -60, 10, 40])) for _ in range(D)]
        c["offs"] = [u * draw(st.sampled_from([0.0, 0.0, 100000.0, -3e5, 1e6])) for u in c["units"]]
    if draw(st.integers(0, 5)) == 0:
        c["names"] = "long"
    return c


def navigation(which, tree, lev):
    """the look-ups of a tree agree with its nodes, whatever order they are asked in"""
    def same(what, got, want):
        ensure([n.idx for n in got] == [n.idx for n in want], "%s tree: %s returns nodes %s, expected %s", which, what, [n.idx for n in got], [n.idx for n in want])
    with sut("tree look-up"):
        same("get_root()", [tree.get_root()], lev[0])
        for l, nn in enumerate(lev):
            same("get_level_nodes(%d)" % l, tree.get_level_nodes(l), nn)
            want = sum(n.data["heterogeneity"] * n.data["nof_instances"] for n in nn) / lev[0][0].data["nof_instances"]
            got = tree.get_level_stats(l)["heterogeneity"]
            close("%s tree: get_level_stats(%d)" % (which, l), got, want, max(abs(n.data["heterogeneity"]) for n in nn), 1e-9)
            for n in nn:
                ensure(sum(k.name == n.name for k in tree.nodes) == 1, "%s tree: two nodes are named %r", which, n.name)
                same("get_node(%r)" % n.name, [tree.get_node(n.name)], [n])
                kids = [k for k in tree.nodes if k.parent_node is not None and k.parent_node.idx == n.idx]
                same("get_children(%r)" % n.name, tree.get_children(n.name), kids)
                ensure(n.heterogeneity == n.data["heterogeneity"] or np.isnan(n.heterogeneity) and np.isnan(n.data["heterogeneity"]), "%s tree, node %d: attributes differ from data", which, n.idx)
        same("get_level_nodes below the tree", tree.get_level_nodes(len(lev)), [])
        ensure(tree.get_node("no such node") is None and tree.get_children("no such node") == [], "%s tree: look-up of an unknown name", which)


def check(c):
    F = reg.fit(c)
    s, X, c = c["feature"], F.X, F.c
    labels = ["regional " + c["m"]]
    if F.full is None:
        # a categorical feature that may not be split, or nothing to search
        allowed = F.types[s] == "cat" and not c["cat"] or len(X) < c["mp"]
        ensure(allowed, "feature %d has no tree although it may be split", s)
        ensure(F.pruned is None, "a pruned tree without a full tree")
        return {"nt": False, "labels": labels + ["no tree"]}
    ensure(F.types[s] != "cat" or c["cat"], "categorical feature %d was partitioned without being asked to", s)
    ensure(F.pruned is not None, "no pruned tree")
    pos_label = False
    for which, tree in (("full", F.full), ("pruned", F.pruned)):
        nodes = tree.nodes
        ensure([n.idx for n in nodes] == list(range(len(nodes))), "%s tree: node ids %s", which, [n.idx for n in nodes])
        roots = [n for n in nodes if n.parent_node is None]
        ensure(len(roots) == 1 and roots[0].level == 0, "%s tree: %d roots", which, len(roots))
        root = roots[0]
        ensure(root.name == F.names[s], "root name %r", root.name)
        close("root data", root.data["data"], X, 0, 0)
        ensure(root.data["nof_instances"] == len(X) and root.data["weight"] == 1, "root counts %s, weight %s", root.data["nof_instances"], root.data["weight"])
        if F.J is not None:
            close("root derivatives", root.data["data_effect"], F.J, np.abs(F.J).max(), 1e-12)
        lev = reg.levels(tree)
        ensure(len(lev) - 1 <= c["depth"], "%s tree has %d levels of splits, at most %d were asked for", which, len(lev) - 1, c["depth"])
        masks = reg.masks_by_rule(F, tree)
        for l, nn in enumerate(lev):
            total = np.zeros(len(X), dtype=int)
            for n in nn:
                total += masks[n.idx]
            ensure(np.all(total == 1), "%s tree: level %d does not partition the data", which, l)
            if l == 0:
                continue
            ensure(len(nn) == 2 * len(lev[l - 1]), "%s tree: level %d has %d nodes", which, l, len(nn))
            sp = {(n.data["feature"], float(n.data["position"]), n.data["feature_type"]) for n in nn}
            ensure(len(sp) == 1, "%s tree: level %d uses several splits %s", which, l, sp)
            foc, pos, typ = next(iter(sp))
            ensure(foc in F.foc, "%s tree: split on feature %d, allowed are %s", which, foc, F.foc)
            ensure(typ == F.types[foc], "%s tree: feature %d is %s, split as %s", which, foc, F.types[foc], typ)
            if np.any(X[:, foc] == pos) and typ == "cont":
                pos_label = True
            for j, n in enumerate(nn):
                parent = lev[l - 1][j // 2]
                ensure(n.parent_node is parent or n.parent_node.idx == parent.idx, "%s tree: parent of node %d is %d, expected %d", which, n.idx, n.parent_node.idx, parent.idx)
                cmpr = n.data["comparison"]
                ensure(cmpr == (("==", "!=") if typ == "cat" else ("<=", ">"))[j % 2], "node %d has comparison %s", n.idx, cmpr)
                mask = masks[n.idx]
                what = "%s tree, node %d (%s)" % (which, n.idx, n.name)
                ensure(n.data["nof_instances"] == mask.sum(), "%s: %s instances reported, %d satisfy the rule", what, n.data["nof_instances"], mask.sum())
                close(what + " data", n.data["data"], X[mask], 0, 0)
                if F.J is None:
                    ensure(n.data["data_effect"] is None, "%s: unexpected derivatives", what)
                else:
                    close(what + " derivatives", n.data["data_effect"], F.J[mask], np.abs(F.J).max(), 1e-12)
                close(what + " weight", n.data["weight"], mask.sum() / len(X), 1, 1e-12)
                ensure(n.level == l, "%s: level %d", what, n.level)
                ensure(n.nof_instances == n.data["nof_instances"] and n.weight == n.data["weight"], "%s: attributes differ from data", what)
                ensure(n.foc == foc and n.comparison == cmpr and n.foc_type == typ and n.foc_position == n.data["position"], "%s: attributes differ from data", what)
                sep = " | " if l == 1 else " and "
                pre = parent.name + sep + F.names[foc]
                ensure(n.name.startswith(pre) and cmpr in n.name[len(pre):], "%s: name does not extend %r", what, pre)
                num = float(n.name[len(pre):].replace(cmpr, " ").strip())
                ensure(abs(num - pos) <= 0.005 + 1e-9 * abs(pos), "%s: name shows %s, split is at %r", what, num, pos)
        navigation(which, tree, lev)
    fl, pl = reg.levels(F.full), reg.levels(F.pruned)
    ensure(len(pl) <= len(fl), "pruned tree deeper than the full tree")
    for a, b in zip(fl, pl):
        for n, k in zip(a, b):
            ensure(n.name == k.name and n.idx == k.idx and n.data["nof_instances"] == k.data["nof_instances"]
                   and (n.data["heterogeneity"] == k.data["heterogeneity"] or np.isnan(n.data["heterogeneity"])),
                   "pruned node %d differs from the full tree's", n.idx)
    labels += ["depth %d" % (len(fl) - 1), "pruned depth %d" % (len(pl) - 1)]
    if pos_label:
        labels.append("value at a numerical split position")
    if c["types"] is not None:
        labels.append("declared types")
    return {"nt": len(fl) > 1, "labels": labels}
