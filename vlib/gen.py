"""Hypothesis strategies for data sets, models, queries; and builders from the drawn specs.

A data set spec is {"n": rows, "seed": int, "cols": [column spec]}; a column spec is a dict with a kind "k".
Everything random is drawn by Hypothesis; columns are expanded from the drawn seed by a fixed PRNG.
"""
import numpy as np
from hypothesis import strategies as st

from vlib import models
from vlib.core import Discard

SEED = st.integers(0, 10 ** 6)


def q(lo, hi, den=4):
    """multiples of 1/den in [lo, hi]"""
    return st.integers(int(lo * den), int(hi * den)).map(lambda i: i / den)


@st.composite
def col(draw, kinds):
    k = draw(st.sampled_from(kinds))
    if k in ("unif", "lins"):
        return {"k": k, "lo": draw(q(-3, 3, 2)), "w": draw(st.sampled_from([0.5, 1.0, 2.0, 6.0]))}
    if k == "norm":
        return {"k": k, "m": draw(q(-2, 2, 2)), "s": draw(st.sampled_from([0.5, 1.0, 2.0]))}
    if k == "skew":
        return {"k": k, "s": draw(st.sampled_from([0.5, 1.0]))}
    if k == "grid":
        return {"k": k, "m": draw(st.integers(16, 40)), "q": draw(st.sampled_from([1, 4, 8])), "o": draw(st.integers(-8, 8))}
    if k == "cat":
        m = draw(st.integers(2, 8))
        gaps = draw(st.lists(st.sampled_from([0.5, 1.0, 1.0, 2.0, 4.0]), min_size=m - 1, max_size=m - 1))
        return {"k": k, "o": draw(st.integers(-3, 3)), "gaps": gaps}
    if k == "clus":
        return {"k": k, "c": draw(st.lists(q(-4, 4, 1), min_size=2, max_size=3, unique=True)), "w": draw(st.sampled_from([0.25, 0.5]))}
    if k == "corr":
        return {"k": k, "w": draw(st.sampled_from([0.25, 1.0]))}
    raise ValueError(k)


CONT = ["unif", "norm", "lins", "skew", "grid", "clus", "corr"]
ALL = CONT + ["cat", "cat"]


@st.composite
def dataset(draw, n=(4, 40), d=(1, 4), kinds=ALL, big=False):
    # big: sometimes hundreds of rows; if True, also thousands, or many features
    # half of the data sets are drawn large, Hypothesis would favour small ones
    N = draw(st.integers(*n)) if draw(st.booleans()) else n[1] - draw(st.integers(0, (n[1] - n[0]) // 2))
    size = draw(st.integers(0, 29)) if big else 0
    if size == 7:
        N = draw(st.integers(150, 500))  # now and then a larger one
    elif size == 11:
        N = draw(st.integers(1001, 2600) if big is True else st.integers(100, 160))
    D = draw(st.integers(max(d[0], min(2, d[1])), d[1]) | st.integers(*d))
    if size == 13 and d[1] > 3 and big is True:
        D = draw(st.integers(11, 14))  # or a wide one
    return {"n": N, "seed": draw(SEED), "cols": [draw(col(kinds)) for _ in range(D)]}


@st.composite
def joint(draw, D, focus):
    """a product of three or four features, `focus` among them"""
    fs = [focus] + draw(st.lists(st.sampled_from([j for j in range(D) if j != focus]), min_size=2, max_size=3, unique=True))
    t = ["x", fs[0]]
    for j in fs[1:]:
        t = ["mul", t, draw(st.sampled_from([["x", j], ["sq", j], ["tanh", j, 2.0]]))]
    return ["scale", draw(COEF), t]


def build(spec):
    N = spec["n"]
    X = np.zeros((N, len(spec["cols"])))
    for j, c in enumerate(spec["cols"]):
        rs = np.random.RandomState(spec["seed"] + 7919 * j)
        k = c["k"]
        if k == "unif":
            v = c["lo"] + c["w"] * rs.rand(N)
        elif k == "lins":
            v = rs.permutation(np.linspace(c["lo"], c["lo"] + c["w"], N))
        elif k == "norm":
            v = c["m"] + c["s"] * rs.randn(N)
        elif k == "skew":
            v = c["s"] * rs.exponential(size=N)
        elif k == "grid":
            v = (rs.randint(0, c["m"] + 1, N) + c["o"]) / float(c["q"])
        elif k == "cat":
            vals = c["o"] + np.concatenate([[0.0], np.cumsum(c["gaps"])])
            v = vals[rs.randint(0, len(vals), N)]
        elif k == "clus":
            v = np.array(c["c"], dtype=float)[rs.randint(0, len(c["c"]), N)] + c["w"] * rs.rand(N)
        elif k == "corr":
            base = X[:, j - 1] if j > 0 else rs.rand(N)
            v = base + c["w"] * rs.randn(N)
        elif k == "vals":
            v = np.array(c["v"], dtype=float)
        else:
            raise ValueError(k)
        if k != "vals" and N > 1 and np.all(v == v[0]):
            v = v.copy()
            v[0] += 1.0
        X[:, j] = v
    return X


# ----------------------------------------------------------------- models
COEF = q(-3, 3, 4).filter(lambda a: a != 0)


@st.composite
def atom(draw, D, smooth=True):
    i = draw(st.integers(0, D - 1))
    kinds = ["x", "x", "sq", "sin", "tanh", "cube"]
    if not smooth:
        kinds += ["step", "relu", "step"]
    k = draw(st.sampled_from(kinds))
    if k in ("x", "sq", "cube"):
        return [k, i]
    if k in ("sin", "tanh"):
        return [k, i, draw(st.sampled_from([0.5, 1.0, 2.0]))]
    return [k, i, draw(q(-2, 2, 8)) + 0.03125]


@st.composite
def term(draw, D, smooth=True, max_terms=4, mul=True, focus=None):
    """random model; with `focus`, usually one that interacts with that feature"""
    ts = []
    if focus is not None and D > 1 and draw(st.integers(0, 4)) > 0:
        a, b = draw(atom(D, True)), draw(atom(D, smooth))
        a = [a[0], focus] + list(a[2:])
        b = [b[0], (focus + 1 + draw(st.integers(0, D - 2))) % D] + list(b[2:])
        ts.append(["scale", draw(COEF), ["mul", a, b]])
    for _ in range(draw(st.integers(1, max_terms))):
        a = draw(atom(D, smooth))
        if mul and draw(st.booleans()):
            a = ["mul", a, draw(atom(D, smooth))]
        ts.append(["scale", draw(COEF), a])
    if draw(st.booleans()):
        ts.append(["c", draw(q(-3, 3, 2))])
    return ["add", ts]


@st.composite
def additive(draw, D, linear=False, smooth=True):
    """sum of one-feature terms; returns (term, per-feature list of terms)"""
    per = [[] for _ in range(D)]
    for i in range(D):
        for _ in range(draw(st.integers(0, 2))):
            a = draw(st.just(["x", i]) if linear else atom(D, smooth))
            a = [a[0], i] + list(a[2:])
            per[i].append(["scale", draw(COEF), a])
    flat = [t for p in per for t in p]
    if draw(st.booleans()):
        flat.append(["c", draw(q(-3, 3, 2))])
    return {"t": ["add", flat], "per": [["add", p] for p in per]}


# ------------------------------------------------------- queries and limits
@st.composite
def query(draw, lo=-0.3, hi=1.3, max_size=7, big=False):
    """positions as fractions of the axis range (unsorted, repeats allowed)"""
    size = draw(st.integers(0, 39)) if big else 0
    if size in (7, 11, 13):
        m = draw(st.integers(60, 130)) if size != 13 else draw(st.integers(600, 1200))
        out = [round(lo + (hi - lo) * i / m, 6) for i in range(m + 1)]
        k = draw(st.sampled_from([1, 1, -1, 7]))  # sorted, reversed, or in several passes
        return out if k == 1 else out[::-1] if k == -1 else [v for r in range(k) for v in out[r::k]]
    return draw(st.lists(q(lo, hi, 20) | st.sampled_from([0.0, 1.0, 0.5]), min_size=1, max_size=max_size))


def at(fracs, lo, hi):
    fr = np.array(fracs, dtype=float)
    out = lo + fr * (hi - lo)
    out[fr == 1.0] = hi
    return out


def limits_spec(D):
    return st.none() | st.lists(
        st.tuples(st.sampled_from([-0.25, 0.0, 0.0, 0.125, 0.25]), st.sampled_from([0.625, 0.75, 1.0, 1.0, 1.25])),
        min_size=D, max_size=D)


def axis_limits(spec, X):
    """None stays None (inferred); returns (argument, effective limits)"""
    lo, hi = X.min(axis=0), X.max(axis=0)
    inferred = np.stack([lo, hi])
    if spec is None:
        return None, inferred
    L = np.stack([lo + np.array([s[0] for s in spec]) * (hi - lo), np.array([lo[j] + s[1] * (hi[j] - lo[j]) for j, s in enumerate(spec)])])
    for j, s in enumerate(spec):
        if s[0] == 0.0:
            L[0, j] = lo[j]
        if s[1] == 1.0:
            L[1, j] = hi[j]
    return L.copy(), L


def inside(X, L, f):
    return X[(X[:, f] >= L[0, f]) & (X[:, f] <= L[1, f])]


def need(cond, why):
    if not cond:
        raise Discard(why)


def model(case_model, **kw):
    return models.Model(case_model, **kw)
