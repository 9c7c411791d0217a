"""Faults injected into the model or its Jacobian, and rejected calls: reported, and without trace in later answers."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, reg
from vlib.core import Violation, check as ensure, close, sut
from effector import binning_methods as bm
from effector import PDP, DerPDP, ALE, RHALE, ShapDP, RegionalDerPDP, RegionalRHALE
from effector.interaction import HIndex, REPID

CASES = {"quick": 1000, "thorough": 9000}
RULE = ("Random class and history of fit/eval/plot calls; in some calls the model or Jacobian raises at its k-th call (k over the whole range of calls the operation makes, any of 12 exception types), "
        "others have an argument that is rejected; a twin object gets the same history without the failed calls; non-trivial = a call failed and later answers were compared.")
ASSUMPTIONS = ["the model raises no AssertionError", "a failed fit of several features may have completed some of them"]


class Custom(Exception):
    pass


class Abort(BaseException):
    pass


EXC = [RuntimeError, ValueError, KeyError, IndexError, TypeError, ZeroDivisionError, FloatingPointError, MemoryError, NotImplementedError, KeyboardInterrupt, Custom, Abort, AttributeError, OSError]
BAD = ["centering", "feature", "bins", "binname", "heter", "points", "xs", "far"]
FRAC = st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.75, 1.0, 1.0])


@st.composite
def fault(draw):
    r = draw(st.integers(0, 5))
    if r < 2:
        return None
    if r == 2:
        return {"bad": draw(st.sampled_from(BAD))}
    return {"at": draw(FRAC), "exc": draw(st.integers(0, len(EXC) - 1)), "once": draw(st.booleans())}


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(["global"] * 5 + ["regional"] * 3 + ["index", "ctor"]))
    if k == "regional":
        c = draw(reg.case(n=(16, 30), depth=2, nc=3, smooth_only=True))
        c["drop"], c["small"], c["nojac"] = 0.0, 0.0, draw(st.integers(0, 4)) == 0
        ops = [{"op": draw(st.sampled_from(["fit", "fit", "eval", "plot", "show"])), "c": draw(st.sampled_from(hist.CENT)), "nc": draw(st.integers(1, 3)), "mp": draw(st.sampled_from([2, 4, 6])),
                "node": draw(st.integers(0, 6)), "xs": draw(gen.query(0, 1, 3)), "fault": draw(fault()), "two": draw(st.integers(0, 3)) == 0, "sx": draw(st.booleans())} for _ in range(draw(st.integers(1, 4)))]
        return {"k": k, "r": c, "ops": ops}
    if k == "index":
        data = draw(gen.dataset(n=(3, 12), d=(2, 4)))
        D = len(data["cols"])
        ops = [{"op": draw(st.sampled_from(["one", "pair", "fit", "fit", "plot"])), "i": draw(st.integers(0, D - 1)), "j": draw(st.integers(1, D - 1)), "fault": draw(fault().filter(lambda f: f is None or "at" in f))}
               for _ in range(draw(st.integers(1, 4)))]
        return {"k": k, "m": draw(st.sampled_from(["H", "H", "REPID"])), "data": data, "model": draw(gen.term(D)), "ops": ops, "shown": draw(st.booleans())}
    m = draw(st.sampled_from(hist.GLOBAL + ["pdp", "rhale"]))
    data = draw(gen.dataset(n=(3, 9) if m == "shap" else (4, 20), d=(1, 3)))
    D = len(data["cols"])
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        f = draw(st.integers(0, D - 1))
        t = draw(st.sampled_from(["fit", "fit", "eval", "eval", "plot"]))
        o = draw(hist.fit_call(m, f) if t == "fit" else hist.eval_call(m, f) if t == "eval" else hist.plot_call(m, f))
        if m in ("ale", "rhale") and t == "fit":
            o["bins"] = draw(st.sampled_from([["fixed", 1], ["fixed", 4], ["fixed", 13]] + ([] if m == "ale" else [["greedy", 10], ["dp", 4]])))
        o["fault"] = draw(fault())
        if t == "fit" and D > 1 and draw(st.integers(0, 4)) == 0:
            o["every"] = True
        ops.append(o)
    return {"k": k, "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"))), "limits": draw(gen.limits_spec(D)),
            "ops": ops, "avg": draw(st.booleans()), "jac": draw(st.integers(0, 2)) > 0, "effects": draw(st.integers(0, 3)) == 0,
            "at": draw(FRAC), "exc": draw(st.integers(0, len(EXC) - 1)), "once": draw(st.booleans()), "regional": draw(st.booleans())}


class Faulty:
    """raises E at its k-th call (and, unless once, at every later call), model and Jacobian counted together"""

    def __init__(self, f):
        self.f, self.n, self.k, self.e, self.once = f, 0, None, None, False

    def arm(self, k=None, e=None, once=False):
        self.n, self.k, self.e, self.once = 0, k, e, once

    def tick(self):
        self.n += 1
        if self.k is not None and (self.n == self.k or self.n > self.k and not self.once):
            raise self.e

    def __call__(self, x):
        self.tick()
        return self.f(x)

    def jac(self, x):
        self.tick()
        return self.f.jac(x)


def attempt(what, f, flt, ncalls, call):
    """perform call with the fault, for several types of exceptions; returns (succeeded, result)"""
    if flt is not None and "at" in flt and ncalls > 0:
        for k in (0, 3, 7) :
            r = attempt1(what, f, dict(flt, exc=(flt["exc"] + k) % len(EXC)), ncalls, call)
        return r
    return attempt1(what, f, flt, ncalls, call)


def attempt1(what, f, flt, ncalls, call):
    e = None
    if flt is not None and "at" in flt and ncalls > 0:
        e = EXC[flt["exc"]]("injected")
        f.arm(1 + int(flt["at"] * (ncalls - 1)), e, flt["once"])
    else:
        f.arm()
    try:
        with hist.captured():
            r = call()
    except (Violation, gen.Discard):
        raise
    except BaseException as ex:
        hit = e is not None and f.n >= f.k
        f.arm()
        if e is None and not isinstance(ex, Exception):
            raise
        if e is None:
            return False, ex
        ensure(hit, "%s raised %s although the model did not fail", what, repr(ex)[:200])
        chain, x = [], ex
        while x is not None and x not in chain:
            chain.append(x)
            x = x.__cause__ or x.__context__
        ensure(e in chain, "%s: the model raised %s, the caller sees %s", what, repr(e), repr(ex)[:200])
        return False, ex
    hit, at = e is not None and f.n >= f.k, f.k
    f.arm()
    ensure(not hit, "%s hid the %s the model raised (call %s of %s)", what, type(e).__name__, at, ncalls)
    return True, r


def check(c):
    return {"global": global_, "regional": regional, "index": index, "ctor": ctor}[c["k"]](c)


def maker(c, X):
    m = c["m"]
    kw = {"nof_instances": "all"}
    if c["limits"] is not None:
        kw["axis_limits"] = gen.axis_limits(c["limits"], X)[0]
    if c["avg"]:
        kw["avg_output"] = 0.25

    def make(f):
        k = dict(kw)
        if m == "rhale" and c["effects"]:
            k["data_effect"] = f.f.jac(X)
        jac = f.jac if c["jac"] else None
        return {"pdp": lambda: PDP(X, f, **k), "dpdp": lambda: DerPDP(X, f, jac, **k), "ale": lambda: ALE(X, f, **k), "rhale": lambda: RHALE(X, f, jac, **k), "shap": lambda: ShapDP(X, f, **k)}[m]()
    return make


def ctor(c):
    X = gen.build(c["data"])
    m, D = c["m"], X.shape[1]
    f = Faulty(models.Model(c["model"]))
    flt = {"at": c["at"], "exc": c["exc"], "once": c["once"]}
    regional_ = c["regional"] and m in ("rhale", "pdp")
    if regional_:
        gen.need(all(len(np.unique(X[:, j])) > 1 for j in range(D)), "constant feature")
        jac = f.jac if c["jac"] else None
        make = lambda g: RegionalRHALE(X, g, g.jac if c["jac"] else None, nof_instances="all") if m == "rhale" else RegionalDerPDP(X, g, g.jac, nof_instances="all")
    else:
        make = maker(c, X)
    with sut("%s constructor" % m):
        make(f)
    n = f.n
    for i in range(len(EXC)):
        ok, _ = attempt1("%s constructor" % m, f, dict(flt, exc=i), n, lambda: make(f))
    return {"nt": n > 0 and not ok, "labels": ["constructor", "failed" if not ok else "no model call"]}


def bad_call(e, m, o, L, how):
    """perform the call with one argument that is rejected; False if the class has no such argument"""
    s, t = o["f"], o["op"]
    xs = np.array([L[0, s]])
    if how == "centering":
        return {"fit": lambda: e.fit(s, centering="foo"), "eval": lambda: e.eval(s, xs, centering="foo"), "plot": lambda: e.plot(s, centering="foo")}[t]
    if how == "feature" or how == "far":
        n = L.shape[1] + (0 if how == "feature" else 5)
        return {"fit": lambda: e.fit(n), "eval": lambda: e.eval(n, xs), "plot": lambda: e.plot(n)}[t]
    if how == "bins" and m in ("ale", "rhale"):
        return lambda: e.fit(s, binning_method=bm.Fixed(3, 100000, 0))
    if how == "binname" and m in ("ale", "rhale"):
        return lambda: e.fit(s, binning_method="nope")
    if how == "heter":
        return lambda: e.plot(s, heterogeneity="foo")
    if how == "points" and m in ("pdp", "dpdp", "shap"):
        return lambda: e.fit(s, centering=True, points_for_centering=-1)
    if how == "xs":
        return lambda: e.eval(s, np.array([["a"]]), centering=o["c"])
    return None


def same(what, a, b, scale):
    if isinstance(b, tuple):
        ensure(isinstance(a, tuple) and len(a) == len(b), "%s returned %s", what, type(a))
        for x, y in zip(a, b):
            same(what, x, y, scale)
    elif b is not None:
        close(what, a, b, scale, 1e-9)


def multi(o, D):
    return dict(o, f=list(range(D))) if o.get("every") else o


def global_(c):
    X = gen.build(c["data"])
    N, D = X.shape
    m = c["m"]
    L = gen.axis_limits(c["limits"], X)[1]
    for s in range(D):
        gen.need(L[0, s] < L[1, s], "degenerate limits")
        u = len(np.unique(gen.inside(X, L, s)[:, s]))
        gen.need(u > 1, "too few instances inside the limits")
    model = models.Model(c["model"])
    make = maker(c, X)
    f, g = Faulty(model), Faulty(model)
    base = [] if m not in ("ale", "rhale") else [{"op": "fit", "f": s, "c": False, "bins": ["fixed", 5]} for s in range(D)]
    with sut("%s constructor" % m):
        e, twin = make(f), make(g)
    scale = max(float(np.abs(model(X)).max()), 1e-9) / (1e-6 if m in ("rhale", "dpdp") and not c["jac"] else 1.0)
    if m in ("rhale", "dpdp"):
        scale = max(scale, float(np.abs(model.jac(X)).max() * max(1.0, np.ptp(X))))
    done, failed, compared = [], 0, 0
    labels = [m]
    for o in base:  # the default binnings need not be possible on small data
        if not done:
            # the first fit of all, at which RHALE computes its derivatives
            h = Faulty(model)
            t = make(h)
            h.arm()
            hist.do(t, m, o, L)
            ok, r = attempt("the first %s.fit" % m, f, {"at": c["at"], "exc": c["exc"], "once": c["once"]}, h.n, lambda: hist.do(e, m, o, L))
            failed += not ok
        hist.do(e, m, o, L), hist.do(twin, m, o, L)
        done.append(o)

    def replay(extra=()):
        h = Faulty(model)
        t = make(h)
        for p in list(done) + list(extra):
            hist.do(t, m, p, L)
        return t, h

    for o in c["ops"]:
        flt = o["fault"]
        p = multi(o, D)
        what = "%s.%s" % (m, o["op"])
        if flt is not None and "bad" in flt:
            call = bad_call(e, m, o, L, flt["bad"])
            if call is None:
                continue
            ok, r = attempt(what + " with a bad %s" % flt["bad"], f, None, 0, call)
            gen.need(not ok, "the call was not rejected")  # C24 decides what is
            failed += 1
            labels.append("rejected call")
            continue
        n = 0
        if flt is not None:
            t, h = replay()
            h.arm()
            with hist.captured(), sut(what):
                hist.do(t, m, p, L)
            n = h.n
        ok, r = attempt(what, f, flt, n, lambda: hist.do(e, m, p, L))
        if ok:
            with hist.captured(), sut(what + " on the twin"):
                want = hist.do(twin, m, p, L)
            done.append(p)
            same(what + " after %d failed calls" % failed, r, want, scale)
            compared += failed > 0
        else:
            ensure(flt is not None and n > 0, "%s raised %s after %d failed calls", what, repr(r)[:300], failed)
            failed += 1
            labels.append("%s failed in %s" % (o["op"], "the last call" if flt["at"] == 1.0 else "between"))
            if o.get("every") and o["op"] == "fit":
                new, _ = replay([p])
                for s in range(D):
                    xs = np.linspace(L[0, s], L[1, s], 4)
                    got = e.eval(s, xs, heterogeneity=True)
                    old, nw = twin.eval(s, xs, heterogeneity=True), new.eval(s, xs, heterogeneity=True)
                    try:
                        same("effect of feature %d after a failed fit of several" % s, got, old, scale)
                    except Violation:
                        same("effect of feature %d after a failed fit of several" % s, got, nw, scale)
                return {"nt": True, "labels": labels + ["several features"]}
    if failed:
        for s in range(D):
            xs = np.linspace(L[0, s], L[1, s], 4)
            for cent in (False, "zero_integral", "zero_start"):
                with sut("%s.eval after %d failed calls" % (m, failed)):
                    got = e.eval(s, xs, heterogeneity=True, centering=cent)
                same("%s.eval(feature %d, centering=%r) after %d failed calls" % (m, s, cent, failed), got, twin.eval(s, xs, heterogeneity=True, centering=cent), scale)
                compared += 1
    return {"nt": failed > 0 and compared > 0, "labels": sorted(set(labels))}


def index(c):
    X = gen.build(c["data"])
    D = X.shape[1]
    for j in range(D):
        gen.need(np.ptp(X[:, j]) > 0, "constant feature")
    model = models.Model(c["model"])
    f, g = Faulty(model), Faulty(model)
    make = lambda h: REPID(X, h, h.jac, "all") if c["m"] == "REPID" else HIndex(X, h, "all")

    def drawn(h):
        """what the plots of the indices show"""
        import matplotlib.pyplot as plt
        plt.close("all")
        h.plot()
        out = []
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                out += [np.asarray(i.get_array(), dtype=float).ravel() for i in ax.images]
                out += [np.array([b.get_width(), b.get_height()], dtype=float) for b in ax.patches if hasattr(b, "get_width")]
        plt.close("all")
        return np.concatenate(out)

    def do(h, o):
        with np.errstate(all="ignore"):
            if o["op"] == "fit":
                return h.fit()
            if o["op"] == "plot":
                return drawn(h)
            if o["op"] == "pair" and c["m"] == "H":
                return h.eval_pairwise(o["i"], (o["i"] + o["j"]) % D)
            return h.eval_one_vs_all(o["i"])

    h, twin = make(f), make(g)
    failed = compared = 0
    done = []
    for o in c["ops"]:
        flt, n = o["fault"], 0
        if flt is not None:
            k = Faulty(model)
            t = make(k)
            with hist.captured():
                for p in done:
                    do(t, p)
                k.arm()
                do(t, o)
            n = k.n
        ok, r = attempt("%s.%s" % (c["m"], o["op"]), f, flt, n, lambda: do(h, o))
        if not ok:
            ensure(flt is not None and n > 0, "%s.%s raised %s", c["m"], o["op"], repr(r)[:300])
            failed += 1
            continue
        with hist.captured():
            want = do(twin, o)
        done.append(o)
        if want is not None:
            compared += failed > 0
            nan_close("%s.%s after %d failed calls" % (c["m"], o["op"], failed), r, want)
    if failed and c.get("shown", True):
        with sut("%s.plot after %d failed calls" % (c["m"], failed)), hist.captured():
            got = do(h, {"op": "plot"})
        with hist.captured():
            nan_close("%s.plot shows after %d failed calls" % (c["m"], failed), got, do(twin, {"op": "plot"}))
    if failed:
        with hist.captured(), np.errstate(all="ignore"):
            h.fit(), twin.fit()
        nan_close("one-vs-all indices after %d failed calls" % failed, h.one_vs_all_matrix, twin.one_vs_all_matrix)
        nan_close("interaction matrix after %d failed calls" % failed, h.interaction_matrix, twin.interaction_matrix)
        compared += 1
    return {"nt": failed > 0 and compared > 0, "labels": [c["m"]]}


def nan_close(what, a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    ensure(a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9, equal_nan=True), "%s: %s, without them %s", what, a, b)


def describe(t):
    """a tree as comparable data"""
    return None if t is None else [(n.name, n.level, None if n.parent_node is None else n.parent_node.idx, n.data["nof_instances"]) for n in t.nodes]


def regional(c):
    r = c["r"]
    m, s = r["m"], r["feature"]
    F = reg.prepare(r)
    D = F.D
    s2 = (s + 1) % D

    def make(h):
        kw = dict(F.ctor)
        jac = None if r["nojac"] else h.jac
        if m == "dpdp":
            return RegionalDerPDP(F.X.copy(), h, jac, **kw)
        if m == "rhale":
            return RegionalRHALE(F.X.copy(), h, jac, **kw)
        return hist.build_regional(m, F.X.copy(), h, **kw)

    def do(e, o, fitted):
        if o["op"] == "fit":
            kw = reg.fit_kw(dict(F.c, nc=o["nc"], mp=o["mp"], c=o["c"], cat=True, depth=1 if m == "shap" else F.c["depth"], foc="all" if o["two"] else F.c["foc"]))
            e.fit([s, s2] if o["two"] else s, **kw)
            return None
        tree = e.tree_pruned["feature_%d" % s]
        sx = [{"mean": 10.0 * (j + 1), "std": 2.0 + j} for j in range(D)] if o["sx"] else None
        if o["op"] == "show":
            with hist.captured() as b:
                e.show_partitioning(s, only_important=o["two"], scale_x_list=sx)
            return b.getvalue()
        if tree is None:
            return None
        n = tree.nodes[o["node"] % len(tree.nodes)]
        Z = n.data["data"]
        lo, hi = Z[:, s].min(), Z[:, s].max()
        if lo == hi:
            return None
        if o["op"] == "eval":
            return e.eval(s, n.idx, gen.at(o["xs"], lo, hi), heterogeneity=True, centering=o["c"])
        if m in ("ale", "rhale"):
            return None  # plots of nodes need the binning to be possible there (C20)
        import matplotlib.pyplot as plt
        plt.close("all")
        e.plot(s, n.idx, centering=o["c"], scale_x_list=sx)
        label = plt.gcf().axes[-1].get_xlabel()
        plt.close("all")
        return label

    f, g = Faulty(F.f), Faulty(F.f)
    with sut("regional %s constructor" % m):
        e, twin = make(f), make(g)
    failed = compared = 0
    done, labels = [], ["regional " + m]
    key = "feature_%d" % s
    sc = reg.scale_of(F)

    def trees(x):
        return {k: (describe(x.tree_full.get(k)), describe(x.tree_pruned.get(k))) for k in sorted(set(x.tree_full) | set(x.tree_pruned))}

    def same_trees(what, e, t):
        a, b = trees(e), trees(t)
        ensure(a == b, "%s: trees %s, without the failed calls %s", what, a, b)

    for o in c["ops"]:
        if o["op"] != "fit" and key not in twin.tree_pruned:
            if failed and key in e.tree_pruned:
                same_trees("regional %s after %d failed calls" % (m, failed), e, twin)
            o = dict(o, op="fit", two=False)  # a later call would fit with the defaults
        flt, n = o["fault"], 0
        what = "regional %s.%s" % (m, o["op"])
        if flt is not None and "bad" in flt:
            call = {"centering": lambda: e.fit(s, centering="foo") if o["op"] == "fit" else e.eval(s, 0, np.zeros(1), centering="foo") if key in e.tree_pruned else e.fit(s, centering="foo"),
                    "feature": lambda: e.fit(D), "far": lambda: e.fit(D + 4), "heter": lambda: e.fit(s, min_points_per_subregion=1),
                    "bins": lambda: e.fit(s, max_depth=D + 3), "binname": (lambda: e.fit(s, binning_method="nope")) if m in ("ale", "rhale") else None,
                    "xs": (lambda: e.eval(s, 977, np.zeros(1))) if key in e.tree_pruned else None}.get(flt["bad"])
            if call is None:
                continue
            ok, x = attempt(what + " with a bad argument", f, None, 0, call)
            gen.need(not ok, "the call was not rejected")
            failed += 1
            labels.append("rejected call")
            same_trees(what + " after a rejected call", e, twin)
            continue
        if flt is not None:
            k = Faulty(F.f)
            t = make(k)
            with sut(what), hist.captured():
                for p in done:
                    if p["op"] == "fit":
                        do(t, p, None)
                k.arm()
                do(t, o, None)
            n = k.n
        ok, x = attempt(what, f, flt, n, lambda: do(e, o, None))
        if not ok:
            ensure(flt is not None and n > 0, "%s raised %s after %d failed calls", what, repr(x)[:300], failed)
            failed += 1
            labels.append("%s failed" % o["op"])
            if o["op"] == "fit" and o["two"]:
                a, old, new = trees(e), trees(twin), trees(t)
                for k_ in (key, "feature_%d" % s2):
                    ensure(a.get(k_) == old.get(k_) or a.get(k_) == new.get(k_), "%s of two features failed: the trees of %s are %s, before %s, complete %s", what, k_, a.get(k_), old.get(k_), new.get(k_))
                return {"nt": True, "labels": labels + ["several features"]}
            same_trees(what + " that failed", e, twin)
            continue
        with sut(what + " on the twin"), hist.captured():
            want = do(twin, o, None)
        done.append(o)
        same_trees(what + " after %d failed calls" % failed, e, twin)
        if isinstance(want, str):
            ensure(x == want, "%s after %d failed calls printed %r, without them %r", what, failed, x, want)
        else:
            same(what + " after %d failed calls" % failed, x, want, sc * (1e6 if r["nojac"] else 1.0))
        compared += failed > 0
    if failed and m != "shap":
        # features never fitted successfully are fitted when they are first asked for
        for j in (s, s2):
            if "feature_%d" % j in twin.tree_pruned:
                continue
            got = []
            for x in (e, twin):
                with hist.captured():
                    try:
                        got.append(x.eval(j, 0, np.array([np.median(F.X[:, j])]), heterogeneity=True))
                    except Exception as ex:
                        got.append(ex)
            what = "regional %s.eval of feature %d, not fitted so far, after %d failed calls" % (m, j, failed)
            if isinstance(got[1], Exception):
                ensure(type(got[0]) is type(got[1]), "%s: %s, without them %s", what, str(repr(got[0]))[:200], repr(got[1])[:200])
                continue
            ensure(not isinstance(got[0], Exception), "%s raised %s", what, repr(got[0])[:200])
            same(what, got[0], got[1], sc * (1e6 if r["nojac"] else 1.0))
            labels.append("fitted on demand")
            compared += 1
    if failed and key in twin.tree_pruned:
        for o in ({"op": "show", "two": a, "sx": b} for a in (False, True) for b in (False, True)):
            with sut("regional %s report after %d failed calls" % (m, failed)), hist.captured():
                got, want = do(e, o, None), do(twin, o, None)
            ensure(got == want, "regional %s (user units: %s) printed after %d failed calls %r, without them %r", m, o["sx"], failed, got, want)
            compared += 1
    if failed:
        o = {"op": "fit", "nc": 2, "mp": 4, "c": False, "two": False}
        with sut("regional %s.fit after %d failed calls" % (m, failed)), hist.captured():
            do(e, o, None)
            do(twin, o, None)
        same_trees("regional %s.fit after %d failed calls" % (m, failed), e, twin)
        compared += 1
    return {"nt": failed > 0 and compared > 0, "labels": sorted(set(labels))}
