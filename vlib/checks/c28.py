"""Which points the model and its Jacobian are asked about, recorded over call histories."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, hist, models, reg
from vlib.core import check as ensure, sut
from effector import PDP, DerPDP, ALE, RHALE, ShapDP, RegionalDerPDP, RegionalRHALE
from effector.interaction import HIndex, REPID

CASES = {"quick": 1500, "thorough": 15000}
RULE = ("Random class, data (discrete and tied columns included), axis limits, options and history of 1-4 fit/eval/plot calls with a recording model and Jacobian; "
        "non-trivial = the history asked the model about points other than the data, and the data have at least two columns.")
ASSUMPTIONS = ["numerical differentiation may step up to 1e-6 away", "query points are inside the axis limits",
               "regional fits may place the feature anywhere in the range of the data (bins of subregions are not public)"]


@st.composite
def strategy(draw, tier="quick"):
    k = draw(st.sampled_from(["global"] * 5 + ["regional"] * 3 + ["index"]))
    if k == "regional":
        c = draw(reg.case(n=(14, 30), depth=2, nc=3, smooth_only=True))
        c["nodes"] = [[draw(st.integers(0, 9)), draw(gen.query(0, 1, 4)), draw(st.booleans()), draw(st.sampled_from(hist.CENT))] for _ in range(draw(st.integers(0, 2)))]
        c["nojac"] = draw(st.integers(0, 3)) == 0
        return {"k": k, "r": c}
    if k == "index":
        data = draw(gen.dataset(n=(3, 14), d=(2, 4)))
        D = len(data["cols"])
        return {"k": k, "m": draw(st.sampled_from(["H", "H", "REPID"])), "data": data, "model": draw(gen.term(D)),
                "ops": draw(st.lists(st.tuples(st.sampled_from(["one", "pair", "pair", "fit"]), st.integers(0, D - 1), st.integers(0, D - 1)), min_size=1, max_size=3))}
    m = draw(st.sampled_from(["pdp", "pdp", "dpdp", "dpdp", "ale", "ale", "rhale", "rhale", "shap"]))
    data = draw(gen.dataset(n=(3, 9) if m == "shap" else (3, 25), d=(1, 4) if m != "shap" else (1, 3)))
    D = len(data["cols"])
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        f = draw(st.integers(0, D - 1))
        t = draw(st.sampled_from(["fit", "eval", "eval", "plot"]))
        o = draw(hist.fit_call(m, f) if t == "fit" else hist.eval_call(m, f) if t == "eval" else hist.plot_call(m, f))
        if m in ("ale", "rhale") and t == "fit":
            o["bins"] = draw(st.sampled_from([["fixed", 1], ["fixed", 4], ["fixed", 13]] + ([] if m == "ale" else [["greedy", 10], ["dp", 4]])))
        ops.append(o)
    if m in ("ale", "rhale"):  # the default binnings may be impossible; the histories of this check start with a fit
        ops = [dict(draw(hist.fit_call(m, f)), bins=["fixed", draw(st.sampled_from([1, 5, 20]))]) for f in sorted({o["f"] for o in ops})] + ops
    return {"k": k, "m": m, "data": data, "model": draw(gen.term(D, smooth=m in ("dpdp", "rhale"))), "limits": draw(gen.limits_spec(D)),
            "ops": ops, "avg": draw(st.booleans()), "jac": draw(st.integers(0, 2)) > 0, "effects": draw(st.booleans()), "nof": draw(st.sampled_from(["all", "all", 5]))}


class Recorder:
    """model and Jacobian that record what they are asked"""

    def __init__(self, f, D):
        self.f, self.D = f, D
        self.take()

    def take(self):
        self.rows, self.jrows = [], []

    def note(self, x, where, what):
        ensure(isinstance(x, np.ndarray) and x.ndim == 2 and x.shape[1] == self.D, "the %s was given %s", what, getattr(x, "shape", type(x)))
        ensure(x.dtype.kind in "fiu" and np.isfinite(x).all(), "the %s was given values that are not finite numbers", what)
        ensure(len(x) > 0, "the %s was asked about no points", what)
        where.append(np.array(x, dtype=float))

    def __call__(self, x):
        self.note(x, self.rows, "model")
        return self.f(x)

    def jac(self, x):
        self.note(x, self.jrows, "Jacobian")
        return self.f.jac(x)

    def asked(self):
        return np.vstack(self.rows) if self.rows else np.zeros((0, self.D))

    def jasked(self):
        return np.vstack(self.jrows) if self.jrows else np.zeros((0, self.D))


def eqrows(Q, Z):
    """per query row and data row, columns that agree"""
    return Q[:, None, :] == Z[None, :, :]


def bad(Q, ok, what, rule):
    if not np.all(ok):
        i = int(np.argmin(ok))
        ensure(False, "%s asked about %s, which is not %s (%d of %d points)", what, Q[i].tolist(), rule, int((~ok).sum()), len(Q))


def is_data(Q, Z):
    return eqrows(Q, Z).all(2).any(1) if len(Q) else np.ones(0, dtype=bool)


def substituted(Q, Z, s, allowed):
    """rows of Z with feature s replaced by a value accepted by allowed(values)"""
    if not len(Q):
        return np.ones(0, dtype=bool)
    e = eqrows(Q, Z)
    e[:, :, s] = True
    return e.all(2).any(1) & allowed(Q[:, s])


def mixed(Q, Z):
    """every column from one of two rows of Z"""
    out = np.zeros(len(Q), dtype=bool)
    for i, e in enumerate(eqrows(Q, Z)):
        out[i] = (e[:, None, :] | e[None, :, :]).all(2).any()
    return out


def own_edges(Q, Z, s, lim, extra=None):
    """rows of Z with feature s on an edge of a bin that contains it"""
    if not len(Q):
        return np.ones(0, dtype=bool)
    e = eqrows(Q, Z)
    e[:, :, s] = True
    e = e.all(2)
    v, x = Q[:, s], Z[:, s]
    on = np.isin(v, lim)
    lo, hi = np.minimum(v[:, None], x[None, :]), np.maximum(v[:, None], x[None, :])
    between = ((lim[None, None, :] > lo[:, :, None]) & (lim[None, None, :] < hi[:, :, None])).sum(2)
    return on & (e & (between == 0)).any(1)


def near_data(Q, Z):
    """rows of Z with at most one feature moved by a differentiation step"""
    if not len(Q):
        return np.ones(0, dtype=bool)
    d = np.abs(Q[:, None, :] - Z[None, :, :])
    tiny = d <= 1.01e-6 + 1e-12 * np.abs(Z)[None]
    return (tiny.all(2) & ((d > 0).sum(2) <= 1)).any(1)


def within(lo, hi, step=0.0):
    return lambda v: (v >= lo - step) & (v <= hi + step)


def among(xs, step=0.0):
    xs = np.asarray(xs, dtype=float)
    if not step:
        return lambda v: np.isin(v, xs)
    return lambda v: (np.abs(v[:, None] - xs[None, :]) <= step + 1e-12 * np.abs(xs)[None]).any(1)


STEP = 1.01e-6


def check(c):
    return {"global": global_, "regional": regional, "index": index}[c["k"]](c)


def global_(c):
    X = gen.build(c["data"])
    N, D = X.shape
    m = c["m"]
    f = Recorder(models.Model(c["model"]), D)
    arg, L = gen.axis_limits(c["limits"], X)
    kw = {"nof_instances": c["nof"] if m != "shap" else "all", "axis_limits": arg}
    if c["avg"]:
        kw["avg_output"] = 0.25
    given = m == "rhale" and c["effects"]
    if given:
        kw["data_effect"] = f.f.jac(X)
    jac = f.jac if c["jac"] else None
    np.random.seed(3)
    with sut("%s constructor" % m):
        e = {"pdp": lambda: PDP(X, f, **kw), "dpdp": lambda: DerPDP(X, f, jac, **kw), "ale": lambda: ALE(X, f, **kw), "rhale": lambda: RHALE(X, f, jac, **kw),
             "shap": lambda: ShapDP(X, f, **kw)}[m]()
    ensure(not f.jrows, "the %s constructor called the Jacobian", m)
    ensure(not (c["avg"] and f.rows), "the %s constructor called the model although the average output is given", m)
    Z = np.array(e.data, dtype=float)
    if arg is None:
        L = np.stack([Z.min(0), Z.max(0)])
    for o in c["ops"]:
        s = o["f"]
        gen.need(L[0, s] < L[1, s], "degenerate limits")
        u = len(np.unique(gen.inside(Z, L, s)[:, s]))
        gen.need(u > 0 and (m == "pdp" or m == "dpdp" or u > 1), "too few instances inside the limits")
    bad(f.asked(), is_data(f.asked(), Z), "%s constructor" % m, "an explained instance")
    jtotal, touched = [], False
    state = {}
    for o in c["ops"]:
        s = o["f"]
        Zin = gen.inside(Z, L, s)
        f.take()
        what = "%s.%s" % (m, o["op"])
        cent = {True: "zero_integral"}.get(o["c"], o["c"])
        fitted = s in state and (cent is False or state[s] == cent) and o["op"] != "fit"
        try:
            with sut(what):
                hist.do(e, m, o, L)
        except Exception as ex:
            gen.need("Impossible" not in str(ex), "impossible binning")
            raise
        if o["op"] == "fit" or not fitted:
            state[s] = cent
        Q, J = f.asked(), f.jasked()
        if m in ("pdp", "dpdp"):
            numeric = m == "dpdp" and not c["jac"]
            rule = within(L[0, s], L[1, s], STEP if numeric else 0.0)
            label = "an instance inside the limits with feature %d replaced by a value inside them" % s
            if o["op"] == "eval" and fitted:
                xs = gen.at(o["xs"], L[0, s], L[1, s])
                rule = among(xs, STEP if numeric else 0.0)
                label = "an instance inside the limits with feature %d replaced by a query point" % s
                nt = len(Zin) * len(xs) * (2 if numeric else 1)
                ensure(len(Q if m == "pdp" or numeric else J) <= nt, "%s at %d points and %d instances asked about %d points", what, len(xs), len(Zin), len(Q) + len(J))
            if m == "dpdp" and c["jac"]:
                bad(J, substituted(J, Zin, s, rule), what + " (Jacobian)", label)
                ensure(len(Q) == 0, "%s called the model although it has the Jacobian", what)
            else:
                bad(Q, substituted(Q, Zin, s, rule), what, label)
                ensure(len(J) == 0, "%s called a Jacobian", what)
            touched |= len(Q) + len(J) > 0
        elif m == "ale":
            if fitted:
                ensure(len(Q) == 0, "%s of a fitted feature asked the model about %d points", what, len(Q))
            else:
                lim = np.asarray(e.feature_effect["feature_%d" % s]["limits"], dtype=float)
                bad(Q, own_edges(Q, Zin, s, lim), what, "an instance inside the limits on an edge of its bin of feature %d" % s)
                ensure(len(Q) <= 2 * len(Zin), "%s of %d instances asked about %d points", what, len(Zin), len(Q))
                touched = True
        elif m == "rhale":
            if given:
                ensure(len(Q) == 0 and len(J) == 0, "%s called the model although the derivatives are given", what)
                touched = True
            elif c["jac"]:
                ensure(len(Q) == 0, "%s called the model although it has the Jacobian", what)
                bad(J, is_data(J, Z), what + " (Jacobian)", "an explained instance")
                jtotal.append(len(J))
                ensure(sum(jtotal) <= len(Z), "the derivatives of %d instances were asked %d times", len(Z), sum(jtotal))
                touched = True
            else:
                bad(Q, near_data(Q, Z), what, "an explained instance or a small step from one")
                jtotal.append(len(Q))
                ensure(sum(jtotal) <= (D + 1) * len(Z) or sum(jtotal) <= 2 * D * len(Z), "the numerical derivatives of %d instances took %d points", len(Z), sum(jtotal))
                touched = True
        else:
            if fitted:
                ensure(len(Q) == 0, "%s of a fitted feature asked the model about %d points", what, len(Q))
            else:
                bad(Q, mixed(Q, Zin), what, "a combination of two instances inside the limits of feature %d" % s)
                touched = True
    labels = [m, "limits" if c["limits"] else "no limits"]
    if m in ("dpdp", "rhale"):
        labels.append("derivatives given" if given else "Jacobian" if c["jac"] else "numerical derivatives")
    return {"nt": bool(touched and D > 1), "labels": labels}


def index(c):
    X = gen.build(c["data"])
    D = X.shape[1]
    f = Recorder(models.Model(c["model"]), D)
    for j in range(D):
        gen.need(np.ptp(X[:, j]) > 0, "constant feature")
    if c["m"] == "REPID":
        h = REPID(X, f, f.jac, "all")
    else:
        h = HIndex(X, f, "all")
    ensure(not f.rows and not f.jrows, "the %s constructor called the model", c["m"])
    for op, i, j in c["ops"]:
        f.take()
        if c["m"] == "REPID":
            with sut("REPID"), hist.captured():
                h.fit() if op == "fit" else h.eval_one_vs_all(i)
            Q = f.asked()
            L = np.stack([X.min(0), X.max(0)])
            ok = is_data(Q, X)
            for s in range(D) if op == "fit" else [i]:
                ok |= substituted(Q, X, s, within(L[0, s], L[1, s], STEP))
            bad(Q, ok, "REPID", "an instance with one feature replaced by a value in its range")
            continue
        if op == "pair" and i == j:
            continue
        with sut("H-index"), hist.captured():
            h.fit() if op == "fit" else h.eval_one_vs_all(i) if op == "one" else h.eval_pairwise(i, j)
        Q = f.asked()
        bad(Q, mixed(Q, X), "H-index", "a combination of two instances")
    return {"nt": True, "labels": [c["m"]]}


def regional(c):
    r = c["r"]
    m, s = r["m"], r["feature"]
    F = reg.prepare(r)  # draws the case; the recording object is built with the same arguments
    D = F.D
    f = Recorder(F.f, D)
    kw = dict(F.ctor)
    jac = None if r["nojac"] else f.jac
    given = "instance_effects" in kw
    with sut("regional %s constructor" % m):
        if m == "dpdp":
            g = RegionalDerPDP(F.X.copy(), f, jac, **kw)
        elif m == "rhale":
            g = RegionalRHALE(F.X.copy(), f, jac, **kw)
        else:
            g = hist.build_regional(m, F.X.copy(), f, **kw)
    X = F.X
    bad(f.asked(), is_data(f.asked(), X) if not r["nojac"] else near_data(f.asked(), X), "regional %s constructor" % m, "an instance")
    used = len(f.jasked())
    f.take()
    numeric = r["nojac"] and m in ("dpdp", "rhale")
    with sut("regional %s fit" % m):
        g.fit(s, **reg.fit_kw(F.c))
    Q, J = f.asked(), f.jasked()
    used += len(J)
    L = np.stack([X.min(0), X.max(0)])
    inner = within(L[0, s], L[1, s], STEP if m == "dpdp" and r["nojac"] else 0.0)
    what = "regional %s fit" % m
    if m == "ale":  # the outer bins of a feature with few values reach half a gap beyond them
        inner = within(L[0, s] - np.ptp(L[:, s]) / 2, L[1, s] + np.ptp(L[:, s]) / 2)

    def judge(what, Q, J, Z, inner, lab, lim=None):
        if m == "shap":
            bad(Q, mixed(Q, Z), what, "a combination of two instances" + lab)
        elif m == "rhale":
            bad(Q, near_data(Q, Z) if numeric else is_data(Q, Z), what, "an instance" + lab)
            bad(J, is_data(J, Z), what + " (Jacobian)", "an instance" + lab)
        elif lim is not None:
            bad(Q, is_data(Q, Z) | own_edges(Q, Z, s, lim), what, "an instance%s, or one on an edge of its bin" % lab)
        else:
            bad(Q, is_data(Q, Z) | substituted(Q, Z, s, inner), what, "an instance%s, or one with feature %d replaced by a value in its range" % (lab, s))
            bad(J, is_data(J, Z) | substituted(J, Z, s, inner), what + " (Jacobian)", "an instance%s, or one with feature %d replaced by a value in its range" % (lab, s))

    judge(what, Q, J, X, inner, "")
    tree = g.tree_pruned["feature_%d" % s]
    labels = ["regional " + m]
    if tree is not None:
        F.pruned = tree
        masks = reg.masks_by_rule(F, tree)
        for k, xs, h, cent in r["nodes"]:
            n = tree.nodes[k % len(tree.nodes)]
            Z = X[masks[n.idx]]
            lo, hi = Z[:, s].min(), Z[:, s].max()
            if lo == hi:
                continue
            lim = None
            if m == "ale":  # the node is described as by ALE on its instances (C18)
                a = ALE(Z, F.f)
                a.fit(s)
                lim = a.feature_effect["feature_%d" % s]["limits"]
            f.take()
            with sut("regional %s eval of node %d" % (m, n.idx)):
                g.eval(s, n.idx, gen.at(xs, lo, hi), heterogeneity=h, centering=cent)
            Q, J = f.asked(), f.jasked()
            used += len(J)
            judge("regional %s eval of node %d" % (m, n.idx), Q, J, Z, within(lo, hi, STEP if m == "dpdp" and r["nojac"] else 0.0), " of the subregion", lim)
            labels.append("root" if n.idx == 0 else "subregion")
    if m == "rhale":
        ensure(used <= (0 if given else len(X)), "regional rhale asked for the derivatives of %d instances %d times (derivatives %s)", len(X), used, "given" if given else "not given")
    return {"nt": True, "labels": labels + (["numerical derivatives"] if numeric else [])}
