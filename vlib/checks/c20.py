"""Regional plots: the node's effect, its rule in user units, after any sequence of fits and plots."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, plots, ref, reg
from vlib.checks.c19 import scale
from vlib.core import check as ensure, close, rejects, sut

CASES = {"quick": 480, "thorough": 6000}
RULE = ("Random regional method, data, model; sequences of up to four fits and plots (or a plot that triggers the default fit), each plot of a random accepted node with random scaling, "
        "heterogeneity, centering and limits; non-trivial = a node below the root was plotted with scaling, or after a second fit or another plot.")
ASSUMPTIONS = ["the drawn curve is compared with the global class on the rows that satisfy the node's rule, fitted with the binning of the latest regional fit",
               "positions in names are rounded to two decimals"]


@st.composite
def strategy(draw, tier="quick"):
    c = draw(reg.case(depth=3, nc=4, n=(14, 40)))
    if draw(st.integers(0, 5)):
        c = draw(reg.roomy(c))
        c["data"]["n"] = min(c["data"]["n"], 60)
    c["drop"], c["small"] = 0.0, 0.0
    m, D = c["m"], len(c["data"]["cols"])
    c["target"] = draw(st.sampled_from([None, "price"]))
    ops = []
    for i in range(draw(st.integers(1, 4))):
        if i and draw(st.integers(0, 3)) == 0:
            ops.append({"op": "fit", "drop": draw(st.sampled_from([0.0, 0.2])), "mp": draw(st.sampled_from([2, 4, 6])), "nc": draw(st.integers(1, 4)),
                        "c": draw(st.sampled_from([False, True, "zero_start"])), "cat": draw(st.booleans()),
                        "bins": draw(st.sampled_from(reg.BINS[m])) if m in reg.BINS else None})
        o = {"op": "plot", "node": draw(st.integers(0, 7)), "h": draw(st.sampled_from({"pdp": [False, True, "std", "ice"], "dpdp": [False, True, "std", "ice"], "ale": [False, True],
             "rhale": [False, True], "shap": [False, True, "shap_values"]}[m])), "c": draw(st.sampled_from(hist.CENT)), "sy": draw(scale()), "avg": False,
             "ylim": draw(st.sampled_from([None, None, [-2.0, 3.5]])),
             "dylim": draw(st.sampled_from([None, None, [-7.0, 1.5]])) if m in ("ale", "rhale") else None,
             "sl": draw(st.none() | st.lists(st.fixed_dictionaries({"mean": gen.q(-5, 5, 2) | st.just(1000.0), "std": st.sampled_from([0.5, 2.0, 10.0, 3.7])}), min_size=D, max_size=D))}
        ops.append(o)
    c["ops"] = ops
    c["auto"] = draw(st.integers(0, 7)) == 0
    return c


def check(c):
    import matplotlib.pyplot as plt

    s, m = c["feature"], c["m"]
    key = "feature_%d" % s
    F = reg.prepare(c)
    kw = dict(F.ctor, target_name=c["target"])
    with sut("regional %s constructor" % m):
        F.r = hist.build_regional(m, F.X.copy(), F.f, **kw)
    cur = dict(F.c)
    labels = ["regional " + m]
    if c["auto"]:
        gen.need(len(F.X) >= 10 and F.types[s] != "cat", "no default fit")
        cur["bins"] = {"ale": None, "rhale": "greedy"}.get(m)
        labels.append("fitted by plot")
    else:
        with sut("regional %s fit" % m):
            F.r.fit(s, **reg.fit_kw(cur))
    plotted = 0
    nt = False
    for op in c["ops"]:
        if op["op"] == "fit":
            cur = dict(cur, **{k: v for k, v in op.items() if k != "op"})
            with sut("regional %s refit" % m):
                F.r.fit(s, **reg.fit_kw(cur))
            labels.append("refit")
            plotted += 1
            continue
        pk = {"heterogeneity": op["h"], "centering": op["c"], "scale_y": op["sy"]}
        if op["sl"] is not None:
            pk["scale_x_list"] = [dict(d) for d in op["sl"]]
        for a, b in (("ylim", "y_limits"), ("dylim", "dy_limits")):
            if op[a] is not None:
                pk[b] = list(op[a])
        if c["auto"] and key not in F.r.tree_pruned:
            # the node numbers are known only after the default fit: plot the root first
            try:
                F.r.plot(s, 0, **pk)
            except Exception:
                pass
            plt.close("all")
            ensure(key in F.r.tree_pruned, "the first plot does not fit feature %d", s)
        tree = F.r.tree_pruned[key]
        if tree is None:
            rejects("regional %s plot of feature %d, which has no tree" % (m, s), lambda: F.r.plot(s, 0, **pk))
            plt.close("all")
            labels.append("no tree")
            continue
        masks = reg.masks_by_rule(F, tree)
        n = tree.nodes[op["node"] % len(tree.nodes)]
        mask = masks[n.idx]
        Z = F.X[mask]
        what = "regional %s plot of node %d (%s)" % (m, n.idx, n.name)
        if m == "shap" and len(np.unique(Z[:, s])) < 2:
            labels.append("too few instances for a spline")
            continue
        gkw = {"nof_instances": "all"}
        if m == "rhale":
            gkw["data_effect"] = F.J[mask].copy()
        try:
            g = hist.build(m, Z.copy(), F.f, **gkw)
            if m in ("ale", "rhale"):
                g.fit(s, binning_method=reg.make_region_bins(reg.region_bins(cur)), centering=False)
            L = np.stack([Z.min(axis=0), Z.max(axis=0)])
            gen.need(L[0, s] < L[1, s], "constant feature in the node")
            before = g.eval(s, L[:, s].copy(), heterogeneity=True, centering=op["c"])
        except Exception:
            rejects(what + " (whose data the global method rejects)", lambda: F.r.plot(s, n.idx, **pk))
            plt.close("all")
            labels.append("rejected by both")
            continue
        xs = np.linspace(L[0, s], L[1, s], 5)

        def answer():
            try:
                return np.stack(F.r.eval(s, n.idx, xs.copy(), heterogeneity=True, centering=True))
            except Exception:
                return None
        ev = answer()
        names_before = [k.name for k in F.r.tree_pruned[key].nodes]
        plt.close("all")
        with sut(what):
            F.r.plot(s, n.idx, **pk)
        P = plots.read(what)
        local = lim = None
        if m in ("ale", "rhale"):
            lim = np.asarray(g.feature_effect[key]["limits"], dtype=float)
            local = ref.ale_local(F.f, Z, lim, s) if m == "ale" else F.J[mask][:, s]
        o = dict(op, sx=None if op["sl"] is None else op["sl"][s])
        plots.compare(what, P, m, o, g, s, Z, F.f, L, None, c["target"], None, local, lim, reg.scale_of(F), label=lambda t: reg.name_matches(F.names, s, what + ": axis label", n, op["sl"], t),
                      rtol=1e-6 if m == "shap" else 1e-9)
        plt.close("all")
        ev2 = answer()
        ensure((ev is None) == (ev2 is None), "%s changes whether the node can be evaluated", what)
        if ev is not None:
            close(what + " changes later evaluations", ev2, ev, reg.scale_of(F), 1e-9)
        ensure([k.name for k in F.r.tree_pruned[key].nodes] == names_before, "%s changes the node names", what)
        labels.append("level %d%s" % (n.level, " scaled" if op["sl"] else ""))
        nt = nt or (n.level > 0 and (op["sl"] is not None or plotted > 0))
        plotted += 1
    return {"nt": nt, "labels": labels}
