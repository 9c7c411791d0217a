"""Drawing binning configurations and predicting when a binning is impossible."""
import numpy as np
from hypothesis import strategies as st

from effector import binning_methods as bm

DEFAULTS = {"fixed": {"k": "fixed", "n": 20, "mp": 0, "cat": 15}, "greedy": {"k": "greedy", "n": 100, "mp": 0, "d": 0.3, "cat": 15},
            "dp": {"k": "dp", "n": 20, "mp": 0, "d": 0.3, "cat": 15}}


@st.composite
def spec(draw, kinds=("fixed", "greedy", "dp"), names=True, max_dp=12, min_points=(0, 8)):
    k = draw(st.sampled_from(kinds))
    if names and draw(st.integers(0, 3)) == 0:
        return {"k": k, "name": True}
    out = {"k": k, "mp": draw(st.integers(*min_points) | st.integers(min_points[0], min(2, min_points[1]))),
           "cat": draw(st.sampled_from([0, 2, 5, 15]))}
    if k == "fixed":
        out["n"] = draw(st.integers(1, 25)) if draw(st.integers(0, 24)) != 7 else draw(st.integers(100, 600))
    else:
        out["n"] = draw(st.integers(1, 40) if k == "greedy" else st.integers(1, max_dp))
        out["d"] = draw(st.sampled_from([0.0, 0.3, 0.3, 1.0]))
    return out


def full(b):
    return dict(DEFAULTS[b["k"]]) if b.get("name") else b


def make(b):
    if b.get("name"):
        return b["k"]
    if b["k"] == "fixed":
        return bm.Fixed(nof_bins=b["n"], min_points_per_bin=b["mp"], cat_limit=b["cat"])
    if b["k"] == "greedy":
        return bm.Greedy(init_nof_bins=b["n"], min_points_per_bin=b["mp"], discount=b["d"], cat_limit=b["cat"])
    return bm.DynamicProgramming(max_nof_bins=b["n"], min_points_per_bin=b["mp"], discount=b["d"], cat_limit=b["cat"])


def counts(xs, L, slack=0.0):
    return np.array([np.sum((xs >= a - slack) & (xs <= b + slack)) for a, b in zip(L, L[1:])])


def exact(L, u, lo, hi):
    """are the edges computed without rounding (so that points on them are on them)?"""
    from fractions import Fraction as F
    if len(u) and len(L) > 2:
        e = [F(float(v)) for v in L]
        if max(abs(v) for v in e) >= 2 ** 20 or any((v * 2 ** 20).denominator != 1 for v in e):
            return False
        w = [b - a for a, b in zip(e, e[1:])]
        return e[0] == F(float(lo)) and e[-1] == F(float(hi)) and len(set(w)) == 1 or len(u) == len(w)
    return False


def possible(b, xs, lo, hi):
    """True / False / None (too close to an edge to tell)"""
    from vlib import ref
    b = full(b)
    u = np.unique(xs)
    if len(xs) == 0 or len(u) == 1 or len(xs) < b["mp"]:
        return False
    if len(u) <= b["cat"]:
        L = ref.cat_limits(xs)
    elif b["k"] == "fixed":
        L = np.linspace(lo, hi, b["n"] + 1)
    else:
        return True
    tiny = 0.0 if exact(L, u, lo, hi) else 1e-9 * max(abs(hi), abs(lo), hi - lo)
    lo_n, hi_n = counts(xs, L, -tiny), counts(xs, L, tiny)
    if np.all(lo_n >= b["mp"]):
        return True
    if np.any(hi_n < b["mp"]):
        return False
    return None
