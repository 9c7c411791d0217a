"""Objects are independent: what one computes does not depend on the others in the process."""
import gc
import random

import numpy as np
from hypothesis import strategies as st

from vlib import fresh, gen, hist, models
from vlib.core import Discard, Violation, check as ensure
from vlib.checks import c31

CASES = {"quick": 900, "thorough": 8000}
RULE = ("Two or three objects of random (often the same) classes on equal-shaped data, different or shared data, models and binning objects, their constructors and calls (fit, eval, plot, reports, "
        "interaction indices) merged in random order, objects dropped or kept, figures closed or left open; every result is compared with that of the same object alone in a process of its own. "
        "Non-trivial = two objects completed at least one call.")
ASSUMPTIONS = ["every call starts from its own state of numpy's global random generator, the same in both processes"]

CLASSES = ["pdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]


@st.composite
def actor(draw, i, first, mode):
    """one object and its calls; with `first`, variations of that object"""
    same = first is not None and (mode is not None or draw(st.integers(0, 3)) > 0)
    k = "regional" if mode in ("trees", "sizes") else "global" if mode == "plots" else "index" if mode == "index" else first["k"] if same else draw(st.sampled_from(["global"] * 5 + ["regional"] * 3 + ["index"]))
    m = first["m"] if same and (mode == "plots" or draw(st.integers(0, 4))) and k != "index" else draw(st.sampled_from(CLASSES))
    if k == "index":
        m = first["m"] if mode == "index" and first is not None else draw(st.sampled_from(["h", "repid"]))
    shap = m == "shap"
    if first is None or (shap and first["m"] != "shap"):
        n = (8, 12) if shap else (10, 19) if mode == "sizes" else (14, 30)
        data = draw(gen.dataset(n=n, d=(2, 2) if shap else (2, 3), kinds=["unif", "norm", "lins", "clus"] + ([] if shap else ["cat", "grid"])))
    else:
        data = dict(first["data"])
        how = draw(st.sampled_from(["same", "seed", "seed", "seed", "n"] if mode is None else ["same", "same", "seed"] if mode == "index" else ["seed", "seed", "n"]))
        if mode == "sizes":  # data sets of different sizes
            data["n"] = data["n"] + (draw(st.integers(1, 4)) if shap else draw(st.integers(5, 30)))
        elif how == "seed":
            data["seed"] = draw(gen.SEED)
        elif how == "n":
            data["n"] = data["n"] + 1
        if mode != "index" and draw(st.booleans()):
            data["cols"] = [draw(gen.col(["unif", "norm", "lins", "clus"] + ([] if shap else ["cat", "grid"]))) for _ in data["cols"]]
    D = len(data["cols"])
    foi = draw(st.integers(0, D - 1)) if first is None or mode is None and draw(st.integers(0, 4)) == 0 else min(first["feature"], D - 1)
    model = first["model"] if first is not None and D == len(first["data"]["cols"]) and draw(st.integers(0, 2)) == 0 else draw(gen.term(D, smooth=True, focus=foi))
    a = {"k": k, "m": m, "data": data, "model": model, "feature": foi, "ninst": draw(st.sampled_from(["all", "all", 8])),
         "limits": draw(gen.limits_spec(D)) if k == "global" and not shap and draw(st.booleans()) else None,
         "jac": draw(st.integers(0, 3)) > 0, "names": draw(st.sampled_from([None, None, "a", "b"])), "types": draw(st.integers(0, 3)) == 0}
    ops = []
    for _ in range(draw(st.integers(1, 3)) if mode is None else draw(st.integers(1, 2)) if mode in ("plots", "sizes") else draw(st.integers(2, 4))):
        if mode is None and first is not None and same and first["ops"] and k != "index" and m == first["m"] and draw(st.integers(0, 2)) == 0:
            o = dict(draw(st.sampled_from(first["ops"])))
            o.pop("rs", None)
            if o.get("f") in ("all", None) or o["f"] < D:
                ops.append(o)
                continue
        if k == "global":
            kind = "plot" if mode == "plots" else draw(st.sampled_from(["fit", "eval", "eval", "plot"]))
            ops.append(draw(hist.fit_call(m, draw(st.sampled_from([foi, foi, "all"])))) if kind == "fit" else draw((hist.eval_call if kind == "eval" else hist.plot_call)(m, foi)))
        elif k == "regional":
            kind = draw(st.sampled_from(["fit", "eval", "plot", "show", "describe"] if mode is None else ["fit"] if mode == "sizes" else ["eval", "eval", "plot", "plot", "describe"]))
            if kind == "fit" or not ops:
                ops.append(draw(hist.rfit(m, D, foi, shap)))
                if mode == "sizes":
                    ops[-1].update({"mp": 2, "small": 0.0, "cat": True})
                    ops[-1].pop("bins", None)  # the default
            else:
                ops.append({"op": kind, "f": foi, "node": draw(st.integers(0, 2)), "h": draw(st.booleans()), "c": draw(st.sampled_from(hist.CENT)), "imp": draw(st.booleans()),
                            "sx": draw(st.booleans()) or mode == "trees" and draw(st.booleans()), "sy": draw(hist.scale())})
        else:
            ops.append({"op": draw(st.sampled_from(["pair", "one", "fit", "plot"] if m == "h" else ["one", "fit", "plot"])), "f": foi})
    for o in ops:
        o["rs"] = draw(gen.SEED)
    a["ops"] = ops
    a["rs"] = draw(gen.SEED)
    return a


@st.composite
def strategy(draw, tier="quick"):
    mode = draw(st.sampled_from([None, None, None, None, None, "trees", "plots", "index", "sizes"]))
    actors = [draw(actor(0, None, mode))]
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        actors.append(draw(actor(i + 1, actors[0], mode)))
    left = [len(a["ops"]) + 1 for a in actors]  # the constructor comes first
    if draw(st.integers(0, 2)) == 0:  # one after the other
        order = [i for i, k in enumerate(left) for _ in range(k)]
    else:
        order = draw(st.permutations([i for i, k in enumerate(left) for _ in range(k)]))
    return {"actors": actors, "order": list(order), "share": draw(st.booleans()), "drop": draw(st.booleans()), "open": draw(st.integers(0, 3)) == 0 if mode != "plots" else draw(st.integers(0, 3)) > 0}


def seeded(seed):
    """seed the global random generators; their states"""
    np.random.seed(seed)
    random.seed(seed)
    return np.random.get_state(), random.getstate()


def disturbed(start):
    """what a call did to the global random generators, apart from drawing from them: their states must be
    ones that drawing numbers leads to from the states before the call"""
    key, pos = np.random.get_state()[1:3]
    clone = np.random.RandomState()
    clone.set_state(start[0])
    for _ in range(1000):
        k, p = clone.get_state()[1:3]
        if np.array_equal(k, key):
            if p <= pos:
                break
        clone.bytes(4 * (625 - p if p < 624 else 1))  # up to the first number of the next block
    else:
        return "numpy's generator was reset"
    if random.getstate() != start[1]:
        other = random.Random()
        other.setstate(start[1])
        for _ in range(20000):
            other.getrandbits(32)
            if other.getstate()[1] == random.getstate()[1]:
                break
        else:
            return "python's generator was reset"
    return ""


def settings():
    """settings of the process a library has no business to change"""
    import os
    import warnings
    return {"error handling of numpy": np.geterr(), "print options of numpy": np.get_printoptions(), "warning filters": list(warnings.filters),
            "working directory": os.getcwd(), "environment": dict(os.environ)}


def changed(was):
    now = settings()
    return "".join("%s changed" % k for k in was if was[k] != now[k])


class Runner:
    """performs the calls of one object"""

    def __init__(self, a, shared):
        self.a, self.shared = a, shared
        self.step = 0
        self.e = None

    def bins(self, o):
        b = o.get("bins")
        if b is None or isinstance(b, str):
            return None
        key = ("bins", str(b))
        if self.shared is None:
            return hist.make_bins(b)
        return self.shared.setdefault(key, hist.make_bins(b))

    def get(self, key, make):
        if self.shared is None:
            return make()
        return self.shared.setdefault(key, make())

    def next(self):
        a = self.a
        import json
        try:
            if self.step == 0:
                return self.construct()
            o = a["ops"][self.step - 1]
            start, was = seeded(o["rs"]), settings()
            with hist.captured() as out:
                r = self.perform(o)
            return {"result": r, "printed": out.getvalue(), "process of the user": disturbed(start) or changed(was)}
        except Exception as ex:
            return {"error": type(ex).__name__}
        finally:
            self.step += 1

    def construct(self):
        import json
        a = self.a
        X = self.get(("data", json.dumps(a["data"], sort_keys=True)), lambda: gen.build(a["data"]))
        f = self.get(("model", json.dumps(a["model"])), lambda: models.Model(a["model"]))
        D = X.shape[1]
        arg, L = gen.axis_limits(a["limits"], X)
        self.X, self.L, self.f = X, L, f
        start, was = seeded(a["rs"]), settings()
        names = None if a["names"] is None else self.get(("names", a["names"], D), lambda: [a["names"] + str(j) for j in range(D)])
        kw = {"nof_instances": a["ninst"]}
        m = a["m"]
        if a["k"] == "index":
            from effector.interaction import HIndex, REPID
            self.e = HIndex(X, f, nof_instances=a["ninst"]) if m == "h" else REPID(X, f, f.jac, a["ninst"])
            return {"result": np.array(self.e.data), "process of the user": disturbed(start) or changed(was)}
        kw["feature_names"] = names
        if a["k"] == "global":
            kw["axis_limits"] = arg
        cls = (c31.GLOBAL if a["k"] == "global" else c31.REGIONAL)[m]
        if m in ("dpdp", "rhale"):
            kw["model_jac"] = f.jac if a["jac"] or m == "rhale" else None
        if a["k"] == "regional" and a["types"]:
            kw["feature_types"] = self.get(("types", D), lambda: ["cont"] * D)
        self.e = cls(X, f, **kw)
        return {"result": [np.array(self.e.data), np.array(self.e.axis_limits, dtype=float)] + ([] if a["k"] == "regional" else [float(self.e.avg_output)]),
                "process of the user": disturbed(start) or changed(was)}

    def perform(self, o):
        a, m, e = self.a, self.a["m"], self.e
        if a["k"] == "global":
            if o["op"] == "plot":
                return self.drawn(lambda: self.plot_global(o))
            r = hist.do(e, m, o, self.L, self.bins(o))
            return None if r is None else [np.asarray(v, dtype=float) for v in (r if isinstance(r, tuple) else (r,))]
        if a["k"] == "index":
            D = self.X.shape[1]
            if o["op"] == "pair":
                return float(e.eval_pairwise(o["f"], (o["f"] + 1) % D))
            if o["op"] == "one":
                return float(e.eval_one_vs_all(o["f"]))
            if o["op"] == "fit":
                e.fit()
                return [np.array(e.one_vs_all_matrix, dtype=float)] + ([np.array(e.interaction_matrix, dtype=float)] if m == "h" else [])
            return self.drawn(e.plot)
        f, key = o["f"], "feature_%d" % o["f"]
        sx = [{"mean": 10.0 * (j + 1), "std": 2.0 + j} for j in range(self.X.shape[1])] if o.get("sx") else None
        if o["op"] == "fit":
            e.fit(f, **hist.rkw(o, self.bins(o)))
            return [trees(e.tree_full[key]), trees(e.tree_pruned[key])]
        if o["op"] in ("show", "describe"):
            (e.show_partitioning if o["op"] == "show" else e.describe_subregions)(f, only_important=o["imp"], scale_x_list=sx)
            return [trees(e.tree_pruned[key])]
        if o["op"] == "eval":
            r = e.eval(f, o["node"], np.linspace(self.X[:, f].min(), self.X[:, f].max(), 4), o["h"], o["c"])
            return [np.asarray(v, dtype=float) for v in (r if isinstance(r, tuple) else (r,))]
        return self.drawn(lambda: e.plot(f, o["node"], o["h"], o["c"], scale_x_list=sx, scale_y=o["sy"]))

    def plot_global(self, o):
        kw = {"heterogeneity": o["h"], "centering": o["c"], "scale_x": o["sx"], "scale_y": o["sy"], "show_avg_output": o["avg"]}
        if "nice" in o:
            kw["nof_ice"] = o["nice"]
        if "nshap" in o:
            kw["nof_shap_values"] = o["nshap"]
        self.e.plot(o["f"], **kw)

    def drawn(self, plot):
        import matplotlib.pyplot as plt
        if not self.leave_open:
            plt.close("all")
        old = set(plt.get_fignums())
        was = c31.figures(old)
        rc = {k: v for k, v in plt.rcParams.items() if not k.startswith("backend")}
        plot()
        now = {k: v for k, v in plt.rcParams.items() if not k.startswith("backend")}
        out = c31.figures(set(plt.get_fignums()) - old)
        touched = False
        try:
            c31.same("", was, c31.figures(old))
        except Violation:
            touched = True
        return [out, "figures of others changed" if touched else "", "settings changed: %s" % [k for k in rc if rc[k] != now.get(k)] if rc != now else ""]

    leave_open = False


def trees(t):
    return c31.tree(t)


def run_all(case):
    """the merged calls; {(object, step): result}"""
    shared = {} if case["share"] else None
    rs = [Runner(a, shared) for a in case["actors"]]
    out = {}
    for i in case["order"]:
        r = rs[i]
        r.leave_open = case["open"]
        k = r.step
        out[i, k] = r.next()
        if case["drop"] and r.step > len(r.a["ops"]):
            r.e = r.X = r.f = None
            gc.collect()
    return out


def run_one(case, i):
    a = case["actors"][i]
    r = Runner(a, None)
    return {(i, k): r.next() for k in range(len(a["ops"]) + 1)}


def quiet(fn):
    def run(*args):
        import warnings
        with warnings.catch_warnings(), np.errstate(divide="warn", over="warn", under="ignore", invalid="warn"):
            warnings.simplefilter("ignore")
            return fn(*args)
    return run


mixed, alone = quiet(run_all), quiet(run_one)


def tie(a, b):
    """do two (full, pruned) pairs of trees differ only in splits that are equally good?"""
    try:
        def levels(t):
            out = {}
            for n in t:
                out.setdefault(n[3], []).append(n[-1][1] * n[-1][2])
            return np.array([sum(out[k]) for k in sorted(out)])
        x, y = levels(a[0]), levels(b[0])
        k = min(len(x), len(y))
        return bool(np.allclose(x[:k], y[:k], rtol=1e-9, atol=0)) and a != b
    except Exception:
        return False


def check(c):
    for a in c["actors"]:
        X = gen.build(a["data"])
        for j in range(X.shape[1]):
            gen.need(len(np.unique(X[:, j])) > 1, "constant feature")
    got = fresh.call(__name__, "mixed", c)
    done, labels = set(), []
    for i, a in enumerate(c["actors"]):
        want = fresh.call(__name__, "alone", c, i)
        for k in range(len(a["ops"]) + 1):
            g, w = got[i, k], want[i, k]
            name = "constructor" if k == 0 else a["ops"][k - 1]["op"]
            what = "%s %s: %s (call %d of object %d among %d objects)" % (a["k"], a["m"], name, k, i, len(c["actors"]))
            ensure(("error" in g) == ("error" in w), "%s: %s, alone in the process: %s", what, str(g)[:150], str(w)[:150])
            if "error" in w:
                continue
            for r in (g, w):
                ensure(not r.get("process of the user"), "%s: %s", what, r.get("process of the user"))
            if a["k"] == "regional" and name == "fit" and tie(g["result"], w["result"]):
                try:
                    c31.same(what, g["result"], w["result"])
                except Violation:
                    raise Discard("equally good splits")
            c31.same(what, g, w)
            if k:
                done.add(i)
        labels.append("%s %s" % (a["k"], a["m"]))
    if len({(a["k"], a["m"]) for a in c["actors"]}) < len(c["actors"]):
        labels.append("same class")
    labels += [l for l, on in (("shared arguments", c["share"]), ("objects dropped", c["drop"]), ("figures left open", c["open"])) if on]
    return {"nt": len(done) > 1, "labels": labels}
