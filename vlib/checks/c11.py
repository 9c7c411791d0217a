"""Arguments before and after calls; repeat runs under other states of the random generator."""
import copy
import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models
from vlib.core import check as ensure, close, sut

CASES = {"quick": 700, "thorough": 10000}
RULE = ("Random class, data set, numeric type and a history of calls given the caller's own arrays, dictionaries, lists and binning objects; "
        "non-trivial = at least one of fit/plot/eval ran with a binning object, scaling dictionary, axis limits or supplied derivatives.")
ASSUMPTIONS = ["a model may hand out arrays it keeps (cached outputs and Jacobians): they count as the caller's data"]


@st.composite
def strategy(draw, tier="quick"):
    regional = draw(st.integers(0, 2)) == 0
    m = draw(st.sampled_from(["pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    kinds = hist.SHAPK if m == "shap" else gen.ALL
    if regional:
        data = draw(gen.dataset(n=(10, 14) if m == "shap" else (12, 30), d=(2, 2) if m == "shap" else (2, 3), kinds=kinds))
    else:
        data = draw(gen.dataset(n=(5, 12) if m == "shap" else (4, 25), d=(1, 3), kinds=kinds))
        if m == "shap" and draw(st.integers(0, 2)) == 0:
            data = draw(gen.dataset(n=(5, 7), d=(11, 12), kinds=kinds))  # explained by random permutations
    D = len(data["cols"])
    foi = draw(st.integers(0, D - 1))
    c = {"k": "regional" if regional else "global", "m": m, "data": data, "model": draw(gen.term(D, smooth=True, focus=foi)),
         "f": foi, "limits": draw(gen.limits_spec(D)) if m != "shap" else None, "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int64"])) if m != "shap" else "float64",
         "effects": m == "rhale" and draw(st.booleans()), "rng": draw(gen.SEED), "order": draw(st.sampled_from(["C", "C", "F"])), "cached": draw(st.booleans())}
    if D > 10:  # random permutations are exact for products of two features
        c["model"] = ["add", [c["model"], draw(gen.joint(D, foi))]]
    if regional:
        c["fit"] = draw(hist.rfit(m, D, foi, m == "shap"))
        c["foc"] = draw(st.permutations([j for j in range(D) if j != foi]))
        c["feats"] = [foi] if m == "shap" or draw(st.booleans()) else draw(st.permutations([foi, (foi + 1) % D]))
        c["sx"], c["sy"], c["h"], c["c"] = draw(st.booleans()), draw(hist.scale()), draw(st.booleans()), draw(st.sampled_from(hist.CENT))
    else:
        c["fit"] = draw(hist.fit_call(m, foi))
        c["ev"] = draw(hist.eval_call(m, foi))
        c["plot"] = draw(hist.plot_call(m, foi))
    return c


class Cached(models.Model):
    """keeps and hands out its last outputs, as a memoizing model would"""

    def __init__(self, term):
        super().__init__(term)
        self.kept = []

    def _memo(self, kind, x, fn):
        for k, xx, y, y0 in self.kept:
            if k == kind and xx.shape == x.shape and np.array_equal(xx, x):
                return y
        y = fn(x)
        self.kept.append((kind, np.array(x), y, y.copy()))
        return y

    def __call__(self, x):
        return self._memo("f", np.asarray(x), super().__call__)

    def jac(self, x):
        return self._memo("j", np.asarray(x), super().jac)

    def intact(self):
        return all(np.array_equal(y, y0) for _, _, y, y0 in self.kept)


def state(o):
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes())
    if hasattr(o, "__dict__"):
        return (type(o).__name__, repr(sorted(o.__dict__.items())))
    return repr(o)


def run(c, X, L, snap):
    """one full run; `snap` collects the caller's objects"""
    D, m, f = X.shape[1], c["m"], c["f"]
    np.random.seed(c["rng"] if snap is None else c["rng"] + 1)
    F = Cached(c["model"]) if c["cached"] else models.Model(c["model"])
    own = {"data": X}
    kw = {"nof_instances": "all"}
    if L is not None:
        own["axis_limits"] = kw["axis_limits"] = L
    own["feature_names"] = kw["feature_names"] = ["f%d" % (D - i) for i in range(D)]
    if c["effects"]:
        own["data effects"] = F.jac(X) * 1.0
        kw["data_effect" if c["k"] == "global" else "instance_effects"] = own["data effects"]
    bins = hist.make_bins(c["fit"]["bins"]) if c["fit"].get("bins") is not None else None
    if bins is not None:
        own["binning"] = bins
    if c["k"] == "regional":
        own["feature_types"] = kw["feature_types"] = ["cat" if len(np.unique(X[:, j])) < 6 else "cont" for j in range(D)]
    before = {}
    out = []

    def watch(name, o):
        own[name] = o
        before[name] = state(o)

    for k in list(own):
        before[k] = state(own[k])
    if c["k"] == "global":
        e = hist.build(m, X, F, **kw)
        hist.do(e, m, c["fit"], L if L is not None else np.stack([X.min(0), X.max(0)]).astype(float), bins)
        lim = L if L is not None else np.stack([X.min(0), X.max(0)]).astype(float)
        xs = gen.at(c["ev"]["xs"], lim[0, f], lim[1, f])
        watch("xs", xs)
        ekw = {"heterogeneity": True, "centering": c["ev"]["c"]}
        if "vec" in c["ev"]:
            ekw["use_vectorized"] = c["ev"]["vec"]
        out += list(e.eval(f, xs, **ekw))
        p = c["plot"]
        watch("scale_x", copy.deepcopy(p["sx"]))
        watch("scale_y", copy.deepcopy(p["sy"]))
        watch("y_limits", [-1.0, 1.0])
        pkw = {"heterogeneity": p["h"], "centering": p["c"], "scale_x": own["scale_x"], "scale_y": own["scale_y"], "show_avg_output": p["avg"], "y_limits": own["y_limits"]}
        if "nshap" in p:
            pkw["nof_shap_values"] = p["nshap"]
        e.plot(f, **pkw)
        out += list(e.eval(f, xs, **ekw))
    else:
        r = hist.build_regional(m, X, F, **kw)
        fk = hist.rkw(c["fit"], bins)
        watch("candidates", list(c["foc"]))
        if len(c["feats"]) == 1:
            fk["candidate_conditioning_features"] = own["candidates"]
        watch("features", list(c["feats"]))
        r.fit(own["features"], **fk)
        scales = [{"mean": 3.0 * (j + 1), "std": 2.0 + j} for j in range(D)]
        watch("scale_x_list", scales)
        watch("scale_y", copy.deepcopy(c["sy"]))
        with hist.captured() as txt:
            r.show_partitioning(f, only_important=False, scale_x_list=scales if c["sx"] else None)
            r.describe_subregions(f, only_important=False, scale_x_list=scales if c["sx"] else None)
        out.append(txt.getvalue())
        t = r.tree_pruned["feature_%d" % f]
        for n in ([] if t is None else t.nodes):
            d = n.data["data"]
            if len(np.unique(d[:, f])) < 2 or (m == "shap" and len(d) < 4):
                continue
            xs = np.linspace(d[:, f].min(), d[:, f].max(), 4)[[2, 0, 3, 1]]
            watch("xs of node %d" % n.idx, xs)
            out += list(r.eval(f, n.idx, xs, True, c["c"]))
            try:
                r.plot(f, n.idx, c["h"], c["c"], scale_x_list=scales if c["sx"] else None, scale_y=own["scale_y"])
            except AssertionError:
                pass  # impossible binning on the node's few points
            out += list(r.eval(f, n.idx, xs, True, c["c"]))
    import matplotlib.pyplot as plt
    plt.close("all")
    for k in before:
        ensure(state(own[k]) == before[k], "%s %s: the caller's %s was modified", c["k"], m, k)
    if c["cached"]:
        ensure(F.intact(), "%s %s: an array handed out by the model was modified", c["k"], m)
    return out


def check(c):
    X = gen.build(c["data"])
    m, f = c["m"], c["f"]
    if c["dtype"] == "int64":
        X = np.round(X * 4)
    X = X.astype(c["dtype"])
    X = np.asfortranarray(X) if c["order"] == "F" else X
    L = None
    if c["limits"] is not None:
        L, eff = gen.axis_limits(c["limits"], X.astype(float))
    else:
        eff = np.stack([X.min(0), X.max(0)]).astype(float)
    for j in range(X.shape[1]):
        gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    gen.need(eff[0, f] < eff[1, f], "degenerate limits")
    xin = gen.inside(X, eff, f)[:, f]
    gen.need(len(np.unique(xin)) > 1, "one unique value inside the limits")
    if m == "shap":
        gen.need(len(np.unique(xin)) == len(xin) and len(xin) >= 4, "ties or too few instances")
    X0 = X.copy(order="K")
    with sut("%s %s" % (c["k"], m)):
        a = run(c, X, L, None)
        b = run(c, X0, None if L is None else L.copy(), 1)
    ensure(len(a) == len(b), "two runs give different numbers of results")
    for u, v in zip(a, b):
        if isinstance(u, str):
            # numpy kernels may round differently with the memory alignment: last digits are not compared
            nu, nv = [[float(w) for w in re.findall(r"-?\d+\.?\d*", z)] for z in (u, v)]
            ensure(len(nu) == len(nv) and np.allclose(nu, nv, rtol=1e-3, atol=0.02), "two runs print different reports:\n%s\n%s", u, v)
            continue
        u, v = np.asarray(u), np.asarray(v)
        scale = max([1e-300] + [float(np.abs(z[np.isfinite(z)]).max()) for z in (u, v) if np.isfinite(z).any()] + [float(np.abs(models.feval(c["model"], X.astype(float))).max())])
        close("%s %s: second run with nof_instances='all'" % (c["k"], m), u, v, scale, 1e-11)
    return {"nt": bool(c["fit"].get("bins") is not None or L is not None or c["effects"] or c["k"] == "regional" or c.get("plot", {}).get("sx")),
            "labels": [c["k"] + " " + m, c["dtype"]] + (["cached model outputs"] if c["cached"] else []) + (["more than ten features"] if X.shape[1] > 10 else [])}
