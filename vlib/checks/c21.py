"""Printed partition and node reports against the fitted trees."""
import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, reg
from vlib.checks.c19 import scale
from vlib.core import check as ensure, sut

CASES = {"quick": 800, "thorough": 10000}
RULE = ("Random regional method, data, model, fit options; one to three reports (partition tree or subregion description; accepted or all splits; scaling; one feature, a list or 'all'), "
        "parsed and compared line by line with the fitted trees; non-trivial = a report about a tree with at least one split.")
ASSUMPTIONS = ["the fitted trees themselves are decided by C14-C17", "numbers are printed with two decimals",
               "relative drops of a level whose previous heterogeneity is zero are not judged"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=4, n=(14, 48)))
    if draw(st.integers(0, 4)):
        c = draw(reg.roomy(c))
    c["drop"], c["small"] = draw(st.sampled_from([0.0, 0.0, 0.2])), draw(st.sampled_from([0.0, 0.0, 0.1]))
    c["out"] = draw(st.sampled_from([1.0, 1.0, 64.0]))
    D = len(c["data"]["cols"])
    c["reports"] = draw(st.lists(st.fixed_dictionaries({
        "k": st.sampled_from(["tree", "text"]), "imp": st.booleans(), "feats": st.sampled_from(["int", "int", "list", "two", "all"]),
        "sl": st.none() | st.lists(st.fixed_dictionaries({"mean": gen.q(-5, 5, 2) | st.just(1000.0), "std": st.sampled_from([0.5, 2.0, 10.0, 3.7])}), min_size=D, max_size=D)}),
        min_size=1, max_size=3))
    return c


def near(what, text, want):
    v = float(text)
    if np.isnan(want):
        ensure(np.isnan(v), "%s: %s printed, the value is %r", what, text, want)
        return
    ensure(abs(v - want) <= 0.005 + 1e-9 * abs(want), "%s: %s printed, the value is %r", what, text, want)


def level_heter(nodes):
    return float(sum(n.data["heterogeneity"] * n.data["nof_instances"] for n in nodes) / sum(n.data["nof_instances"] for n in nodes))


NODE = re.compile(r"^( *)Node id: *(\d+), name: (.*), heter: (\S+) \|\| nof_instances: *(\d+) \|\| weight: (\S+)$")
LEVEL = re.compile(r"^( *)Level (\d+), heter: (\S+?)(?: \|\| heter drop: (\S+) \((\S+?)%\))?$")


def tree_report(F, f, tree, text, sl, N):
    what = "show_partitioning of feature %d" % f
    parts = text.split("Feature %d - Statistics per tree level:" % f)
    ensure(len(parts) == 2, "%s: headings missing", what)
    lines = [l for l in parts[0].splitlines() if l.strip() and set(l.strip()) != {"-"}]
    stats = [l for l in parts[1].splitlines() if l.strip()]
    if tree is None:
        for ls in (lines, stats):
            ensure(ls == ["No splits found for feature %d" % f], "%s: no tree, but printed %s", what, ls)
        return
    got = [NODE.match(l) for l in lines]
    ensure(all(got) and len(got) == len(tree.nodes), "%s: %d nodes printed, the tree has %d: %s", what, len(got), len(tree.nodes), lines)
    byid = {n.idx: n for n in tree.nodes}
    stack, seen = [], set()
    for g in got:
        i = int(g[2])
        ensure(i in byid and i not in seen, "%s: node %d printed", what, i)
        seen.add(i)
        n = byid[i]
        w = "%s, node %d" % (what, i)
        reg.name_matches(F.names, f, w, n, sl, g[3])
        near(w + " heterogeneity", g[4], n.data["heterogeneity"])
        ensure(int(g[5]) == n.data["nof_instances"], "%s: %s instances printed, it has %d", w, g[5], n.data["nof_instances"])
        near(w + " weight", g[6], n.data["nof_instances"] / N)
        while stack and stack[-1][0] >= len(g[1]):
            stack.pop()
        parent = stack[-1][1] if stack else None
        ensure((n.parent_node.idx if n.parent_node else None) == parent, "%s: printed below node %s", w, parent)
        stack.append((len(g[1]), i))
    lev = reg.levels(tree)
    got = [LEVEL.match(l) for l in stats]
    ensure(all(got) and [int(g[2]) for g in got] == list(range(len(lev))), "%s: levels printed: %s", what, stats)
    for l, g in enumerate(got):
        h = level_heter(lev[l])
        near("%s, level %d heterogeneity" % (what, l), g[3], h)
        if l:
            p = level_heter(lev[l - 1])
            near("%s, level %d drop" % (what, l), g[4], p - h)
            if abs(p) > 1e-12 * F.scale and p > 0:
                near("%s, level %d drop in percent" % (what, l), g[5], 100 * (p - h) / p)
        else:
            ensure(g[4] is None, "%s: drop printed for the root level", what)


def text_report(F, f, tree, full, lines, sl, important):
    what = "describe_subregions of feature %d" % f
    if full is None:
        ensure(not any("split" in l and not l.lower().startswith("no ") for l in lines), "%s: no tree, but printed %s", what, lines)
        return
    if important and len(tree.nodes) == 1:
        ensure(lines == ["No important splits found for feature %d" % f], "%s: nothing was accepted, but printed %s", what, lines)
        return
    ensure(lines[0] == ("Important" if important else "All") + " splits for feature " + F.names[f], "%s: heading %r", what, lines[0])
    lev = reg.levels(tree)
    ensure(len(lines) == 1 + 7 * (len(lev) - 1), "%s: %d lines for %d levels", what, len(lines), len(lev) - 1)
    for l in range(1, len(lev)):
        b = lines[1 + 7 * (l - 1): 1 + 7 * l]
        n = lev[l][0]
        foc = n.data["feature"]
        w = "%s, level %d" % (what, l)
        ensure(b[0] == "- On feature %s (%s)" % (F.names[foc], F.types[foc]), "%s: %r printed, the split is on %s (%s)", w, b[0], F.names[foc], F.types[foc])

        def num(line, title):
            ensure(line.strip().startswith("- %s: " % title), "%s: line %r", w, line)
            return line.strip()[len(title) + 4:]
        pos = float(n.data["position"])
        near(w + " position", num(b[1], "Position of split"), pos if sl is None else pos * sl[foc]["std"] + sl[foc]["mean"])
        p, h = level_heter(lev[l - 1]), level_heter(lev[l])
        near(w + " heterogeneity before", num(b[2], "Heterogeneity before split"), p)
        near(w + " heterogeneity after", num(b[3], "Heterogeneity after split"), h)
        g = re.match(r"^(\S+) \((\S+) ?%\)$", num(b[4], "Heterogeneity drop"))
        ensure(g is not None, "%s: line %r", w, b[4])
        near(w + " drop", g[1], p - h)
        if abs(p) > 1e-12 * F.scale and p > 0:
            near(w + " drop in percent", g[2], 100 * (p - h) / p)
        for line, title, nn in ((b[5], "Number of instances before split", lev[l - 1]), (b[6], "Number of instances after split", lev[l])):
            ensure([int(v) for v in re.findall(r"\d+", num(line, title))] == [k.data["nof_instances"] for k in nn], "%s: %r, the nodes have %s", w, line, [k.data["nof_instances"] for k in nn])


SHOW = [("Node id", "idx"), ("name", "name"), ("parent name", None), ("level", "level"), ("heterogeneity", "heterogeneity"), ("weight", "weight"),
        ("nof_instances", "nof_instances"), ("foc", "feature"), ("foc_type", "feature_type"), ("foc_position", "position"), ("comparison", "comparison")]


def show_report(f, n):
    """Node.show states the facts of one node, in full precision"""
    what = "show() of node %d of feature %d" % (n.idx, f)
    with hist.captured() as out:
        with sut("Node.show"):
            n.show()
    lines = out.getvalue().splitlines()
    ensure(len(lines) == len(SHOW), "%s: %d lines", what, len(lines))
    for line, (title, key) in zip(lines, SHOW):
        ensure(line.startswith(title + ": "), "%s: line %r", what, line)
        text = line[len(title) + 2:].strip()
        if key is None:
            want = n.parent_node.name if n.parent_node is not None else None
        elif key in ("idx", "name", "level"):
            want = getattr(n, key)
        else:
            want = n.data.get(key)
        if isinstance(want, (float, np.floating)):
            ensure(float(text) == want or np.isnan(want) and np.isnan(float(text)), "%s: %r printed, the value is %r", what, line, want)
        else:
            ensure(text == str(want).strip(), "%s: %r printed, the value is %r", what, line, want)


def check(c):
    s, m = c["feature"], c["m"]
    F = reg.fit(c)
    F.scale = reg.scale_of(F)
    labels = ["regional " + m]
    nt = False
    for r in c["reports"]:
        feats = {"int": [s], "list": [s], "two": [s, (s + 1) % F.D], "all": list(range(F.D))}[r["feats"]]
        if m == "shap" and len(feats) > 1:
            feats = [s]
        arg = s if r["feats"] == "int" else "all" if len(feats) == F.D and r["feats"] == "all" else feats
        kw = {"only_important": r["imp"]}
        if r["sl"] is not None:
            kw["scale_x_list"] = [dict(d) for d in r["sl"]]
        with hist.captured() as out:
            with sut("regional %s report" % m):
                (F.r.show_partitioning if r["k"] == "tree" else F.r.describe_subregions)(arg, **kw)
        text = out.getvalue()
        keys = ["feature_%d" % f for f in feats]
        trees = [(F.r.tree_pruned if r["imp"] else F.r.tree_full)[k] for k in keys]
        if r["k"] == "tree":
            blocks = re.split(r"(?m)^Feature (\d+) - Full partition tree:\n", text)
            ensure([int(v) for v in blocks[1::2]] == feats and not blocks[0].strip(), "show_partitioning(%r) reports features %s", arg, blocks[1::2])
            for f, tree, b in zip(feats, trees, blocks[2::2]):
                tree_report(F, f, tree, b, r["sl"], len(F.X))
        else:
            lines, groups = [l for l in text.splitlines() if l.strip()], []
            for l in lines:
                if not l.lstrip().startswith("- ") or not groups:
                    groups.append([])
                groups[-1].append(l)
            for f, tree, k in zip(feats, trees, keys):
                full = F.r.tree_full[k]
                if full is None:
                    # silent, or one line saying so
                    g = groups.pop(0) if groups and groups[0][0].lower().startswith("no ") and groups[0][0].endswith("feature %d" % f) and not groups[0][0].startswith("No important") else []
                else:
                    ensure(groups, "describe_subregions says nothing about feature %d", f)
                    g = groups.pop(0)
                text_report(F, f, tree, full, g, r["sl"], r["imp"])
            ensure(not groups, "describe_subregions(%r) also prints %s", arg, groups[:1])
        for f, tree in zip(feats, trees):
            for n in tree.nodes if tree is not None else []:
                show_report(f, n)
        split = any(t is not None and len(t.nodes) > 1 for t in trees)
        nt = nt or split
        labels.append("%s report, %s" % (r["k"], "splits" if split else "no splits"))
        if r["sl"] is not None:
            labels.append("scaled")
        if len(feats) > 1:
            labels.append("several features")
    return {"nt": nt, "labels": labels}
