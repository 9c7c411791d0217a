"""Call histories on one object against a fresh object that only sees the last fit and the query."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models
from vlib.core import check as ensure, close, sut

CASES = {"quick": 900, "thorough": 12000}
RULE = ("Random method, data set, model and a history of 2-7 fit/eval/plot/report calls over all features followed by a query; "
        "non-trivial = the history has a call of another kind or option on the queried feature before the query.")
ASSUMPTIONS = ["nof_instances='all'; random choices of shown ICE/SHAP points do not enter results"]


@st.composite
def strategy(draw, tier="quick"):
    if draw(st.integers(0, 2)) == 0:
        return draw(regional_case(tier))
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    kinds = hist.SHAPK if m == "shap" else gen.ALL
    data = draw(gen.dataset(n=(5, 12) if m == "shap" else (4, 25), d=(1, 3), kinds=kinds, big=m != "shap" and "mid"))
    D = len(data["cols"])
    foi = draw(st.integers(0, D - 1))
    ops = []
    for _ in range(draw(st.integers(2, 4 if m == "shap" else 7))):
        f = foi if draw(st.integers(0, 3)) else draw(st.integers(0, D - 1))
        kind = draw(st.sampled_from(["fit", "fit", "eval", "eval", "plot"]))
        if kind == "fit":
            ops.append(draw(hist.fit_call(m, draw(st.sampled_from([f, f, "all", [f]])))))
        elif kind == "eval":
            ops.append(draw(hist.eval_call(m, f)))
        else:
            ops.append(draw(hist.plot_call(m, f)))
    q = draw(hist.eval_call(m, foi))
    near = draw(st.integers(0, 5))
    if near:
        # queries that resemble the last one: same ends, same number, same feature, other order or options
        q["xs"] = draw(st.lists(gen.q(0, 1, 20), min_size=3, max_size=6))
        for _ in range(min(near, 2)):
            o = dict(q, xs=list(q["xs"]))
            how = draw(st.sampled_from(["inner", "inner", "first", "last", "reverse", "feature", "options", "double", "scale"]))
            if how == "inner":
                o["xs"] = [o["xs"][0]] + draw(st.lists(gen.q(0, 1, 20), min_size=len(o["xs"]) - 2, max_size=len(o["xs"]) - 2)) + [o["xs"][-1]]
            elif how in ("first", "last"):
                o["xs"][0 if how == "first" else -1] = draw(gen.q(0, 1, 20))
            elif how == "reverse":
                o["xs"].reverse()
            elif how == "feature":
                o["f"] = draw(st.integers(0, D - 1))
            elif how == "double":
                o["xs"] = o["xs"] + o["xs"]
            elif how == "scale":
                o["xs"] = [x / 2 for x in o["xs"]]
            for key in ("h", "c") + (("all", "vec") if m in ("pdp", "dpdp") else ()):
                if how == "options" and draw(st.booleans()):
                    o[key] = draw(hist.eval_call(m, foi))[key]
            ops.append(o)
    return {"k": "global", "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=foi)),
            "jac": m not in ("dpdp", "rhale") or draw(st.integers(0, 3)) > 0,
            "limits": draw(gen.limits_spec(D)) if m != "shap" else None, "ops": ops, "q": q, "same_obj": draw(st.booleans())}


@st.composite
def regional_case(draw, tier):
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "rhale", "ale", "rhale", "shap"]))
    kinds = hist.SHAPK if m == "shap" else gen.ALL
    data = draw(gen.dataset(n=(12, 18) if m == "shap" else (14, 40), d=(2, 2) if m == "shap" else (2, 3), kinds=kinds))
    D = len(data["cols"])
    foi = draw(st.integers(0, D - 1))
    ops = []
    for _ in range(draw(st.integers(1, 2 if m == "shap" else 5))):
        f = foi if draw(st.integers(0, 3)) else draw(st.integers(0, D - 1))
        kind = draw(st.sampled_from(["fit", "fit", "fit", "eval", "plot", "show", "describe"]))
        if kind == "fit":
            o = draw(hist.rfit(m, D, f, m == "shap"))
            o["with"] = draw(st.integers(-2, 2)) if m != "shap" else 0
            before = [p for p in ops if p["op"] == "fit" and p["f"] == f]
            if before and draw(st.integers(0, 3)):
                # the previous fit of this feature with a single option changed
                key = draw(st.sampled_from([k for k in sorted(o) if k not in ("op", "f")]))
                o = dict(before[-1], **{key: o[key]})
            ops.append(o)
        elif kind == "eval":
            ops.append({"op": "eval", "f": f, "node": 0 if draw(st.booleans()) else draw(st.integers(0, 4)), "c": draw(st.sampled_from(hist.CENT)), "h": draw(st.booleans())})
        elif kind == "plot":
            ops.append({"op": "plot", "f": f, "node": draw(st.integers(0, 2)), "sx": draw(st.booleans()), "sy": draw(hist.scale()), "c": draw(st.sampled_from(hist.CENT)), "h": draw(st.booleans())})
        else:
            ops.append({"op": kind, "f": f, "imp": draw(st.booleans()), "sx": draw(st.booleans())})
    return {"k": "regional", "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"), focus=foi)),
            "foi": foi, "ops": ops, "node": draw(st.sampled_from([0, 1, 1, 2, 3, 4])), "c": draw(st.sampled_from(hist.CENT)), "h": draw(st.booleans()), "xs": draw(gen.query(0, 1, 4)),
            "plain": draw(st.booleans())}


def same(what, got, want, scale=0.0, tol=1e-10):
    got = got if isinstance(got, tuple) else (got,)
    want = want if isinstance(want, tuple) else (want,)
    ensure(len(got) == len(want), "%s: %d results instead of %d", what, len(got), len(want))
    for g, w in zip(got, want):
        w = np.asarray(w, dtype=float)
        s = float(np.max(np.abs(w[np.isfinite(w)]))) if np.isfinite(w).any() else 0.0
        close(what, g, w, max(s, scale), tol)


def check(c):
    return (check_global if c["k"] == "global" else check_regional)(c)


def check_global(c):
    X = gen.build(c["data"])
    m, D = c["m"], X.shape[1]
    arg, L = gen.axis_limits(c["limits"], X)
    for j in range(D):
        gen.need(L[0, j] < L[1, j], "degenerate limits")
        xin = gen.inside(X, L, j)[:, j]
        u = len(np.unique(xin))
        gen.need(u > 1, "one unique value inside the limits")
        if m == "shap":
            gen.need(u == len(xin) and u >= 4, "ties or too few instances")
    f = models.Model(c["model"])
    foi = c["q"]["f"]
    kw = {} if c["jac"] else {"model_jac": None}
    make = lambda: hist.build(m, X.copy(), models.Model(c["model"]), axis_limits=None if arg is None else arg.copy(), nof_instances="all", **kw)
    last, pool = {}, {}
    touched = False
    with sut("history on %s" % m):
        e = make()
        for o in c["ops"]:
            obj = None
            if c.get("same_obj") and o["op"] == "fit" and isinstance(o.get("bins"), list):
                # the caller's one binning object for these features, with its settings changed
                new = hist.make_bins(o["bins"])
                obj = pool.setdefault((str(o["f"]), type(new).__name__), new)
                obj.__dict__.update(new.__dict__)
            hist.do(e, m, o, L, obj)
            if o["op"] == "fit":
                for j in (range(D) if o["f"] == "all" else o["f"] if isinstance(o["f"], list) else [o["f"]]):
                    last[j] = dict(o, f=j)
            if o["f"] in (foi, "all", [foi]):
                touched = True
        got = hist.do(e, m, c["q"], L)
        again = hist.do(e, m, c["q"], L)
        fresh = make()
        if foi in last:
            hist.do(fresh, m, last[foi], L)
        want = hist.do(fresh, m, c["q"], L)
    # difference quotients amplify the rounding of the model
    tol = {} if c["jac"] else {"scale": 1.0 + float(np.abs(f(X)).max()), "tol": 1e-6}
    same("%s eval after a history of calls" % m, got, want, **tol)
    same("%s eval repeated" % m, again, want, **tol)
    kinds = {o["op"] for o in c["ops"]}
    labels = [m + ("" if c["jac"] else " (numerical derivatives)")] + ["with " + k for k in sorted(kinds)]
    if foi in last and last[foi]["c"] != c["q"]["c"]:
        labels.append("other centering than fitted")
    return {"nt": touched, "labels": labels}


def tree_facts(t):
    if t is None:
        return None
    return [(n.idx, n.name, n.level, n.data["nof_instances"], round(float(n.data["weight"]), 12), n.parent_node.name if n.parent_node is not None else None) for n in t.nodes]


def check_regional(c):
    X = gen.build(c["data"])
    m, D, foi = c["m"], X.shape[1], c["foi"]
    for j in range(D):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
        if m == "shap":
            gen.need(len(np.unique(X[:, j])) == len(X), "ties")
    scales = [{"mean": 10.0 * (j + 1), "std": 2.0 + j} for j in range(D)]
    make = lambda: hist.build_regional(m, X.copy(), models.Model(c["model"]), nof_instances="all")
    last, touched = {}, False

    def ids(r, f):
        t = r.tree_pruned.get("feature_%d" % f)
        return [] if t is None else [n.idx for n in t.nodes]

    with sut("history on regional %s" % m), hist.captured():
        r = make()
        for o in c["ops"]:
            f = o["f"]
            if o["op"] == "fit":
                g = (f + abs(o.get("with", 0))) % D
                if g == f:
                    r.fit(f, **hist.rkw(o))
                else:
                    r.fit([g, f] if o["with"] > 0 else [f, g], **hist.rkw(o))
                    last[g] = o
                last[f] = o
            elif o["op"] in ("show", "describe"):
                # reports of a heterogeneity-free tree may divide by zero: C21's business
                fn = r.show_partitioning if o["op"] == "show" else r.describe_subregions
                fn(f, only_important=o["imp"], scale_x_list=[dict(s) for s in scales] if o["sx"] else None)
            else:
                if not r.is_fitted[f]:
                    if m == "shap":
                        continue  # a default fit with 20 candidates is slow
                    r.refit(f)
                have = ids(r, f)
                if o["node"] not in have:
                    continue
                if o["op"] == "eval":
                    node = [n for n in r.tree_pruned["feature_%d" % f].nodes if n.idx == o["node"]][0].data["data"]
                    if len(np.unique(node[:, f])) < 2 or (m == "shap" and len(node) < 4):
                        continue
                    r.eval(f, o["node"], np.linspace(node[:, f].min(), node[:, f].max(), 3), o["h"], o["c"])
                else:
                    node = [n for n in r.tree_pruned["feature_%d" % f].nodes if n.idx == o["node"]][0].data["data"]
                    if len(np.unique(node[:, f])) < 2 or (m == "shap" and len(node) < 4):
                        continue
                    try:
                        r.plot(f, o["node"], o["h"], o["c"], scale_x_list=[dict(s) for s in scales] if o["sx"] else None, scale_y=o["sy"])
                    except AssertionError:
                        pass  # the binning asked for is impossible on the node's few points
                    import matplotlib.pyplot as plt
                    plt.close("all")
            if f == foi:
                touched = True
        fresh = make()
        if foi in last:
            fresh.fit(foi, **hist.rkw(last[foi]))
        elif m == "shap":
            gen.need(False, "default SHAP fit")
        else:
            fresh.refit(foi)
            r.refit(foi)
        facts = [tree_facts(fresh.tree_full["feature_%d" % foi]), tree_facts(fresh.tree_pruned["feature_%d" % foi])]
        got_facts = [tree_facts(r.tree_full["feature_%d" % foi]), tree_facts(r.tree_pruned["feature_%d" % foi])]
        labels = ["regional " + m] + ["with " + k for k in sorted({o["op"] for o in c["ops"]})]
        for a, b in ((r.tree_full, fresh.tree_full), (r.tree_pruned, fresh.tree_pruned)):
            a, b = a["feature_%d" % foi], b["feature_%d" % foi]
            if a is not None and b is not None and len(a.nodes) == len(b.nodes):
                h = [[float(n.data["heterogeneity"]) for n in x.nodes] for x in (a, b)]
                ensure(np.allclose(h[0], h[1], rtol=1e-6, atol=1e-9 * np.nanmax([1.0, abs(h[1][0])]), equal_nan=True), "heterogeneities after a history %s, after a fresh fit %s", h[0], h[1])
        ensure(got_facts == facts, "trees after a history differ from a fresh fit: %s instead of %s", got_facts, facts)
        if c["node"] not in ids(fresh, foi):
            return {"nt": touched and facts[1] is not None, "labels": labels}
        node = [n for n in fresh.tree_pruned["feature_%d" % foi].nodes if n.idx == c["node"]][0].data["data"]
        gen.need(len(np.unique(node[:, foi])) > 1, "constant feature in the node")
        xs = gen.at(c["xs"], node[:, foi].min(), node[:, foi].max())
        if m == "shap" and len(node) < 4:
            gen.need(False, "too few points for SHAP")
        want = fresh.eval(foi, c["node"], xs.copy(), c["h"], c["c"])
        got = r.eval(foi, c["node"], xs.copy(), c["h"], c["c"])
    same("regional %s eval after a history of calls" % m, got, want)
    labels.append("regional eval compared" + (" below the root" if c["node"] > 0 else ""))
    return {"nt": touched, "labels": labels}
