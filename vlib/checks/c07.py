"""DP attains the exhaustive optimum; Greedy follows its closing rule."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import bins, gen, models, ref
from vlib.core import check as ensure, sut
from effector import RHALE
from effector import bin_splitting as be
from effector import binning_methods as bm

CASES = {"quick": 2400, "thorough": 30000}
RULE = ("Feature values and axis limits on exactly representable grids (ties with bin edges are exact), continuous values in between; derivatives random, "
        "piecewise constant or noisy at scales 1e-3..1e7; non-trivial = at least two bins in the result or at least two feasible partitions.")
ASSUMPTIONS = ["points on a grid edge count for both adjacent bins; for fewer than 2*min_points instances a single bin is accepted",
               "Greedy decisions on bins without points, or with costs equal up to 1e-10, are not judged"]


@st.composite
def strategy(draw, tier="quick"):
    alg = draw(st.sampled_from(["dp", "greedy"]))
    K = draw(st.integers(2, 8 if tier == "quick" else 10)) if alg == "dp" else draw(st.integers(2, 24))
    n = draw(st.integers(3, 40))
    size = draw(st.integers(0, 19))
    if size == 7:
        n = draw(st.integers(100, 600))
    if size in (7, 11):  # as many bins as the defaults, now and then
        K = draw(st.sampled_from([50, 99, 100, 100, 150] if alg == "greedy" else [14, 20, 20, 33, 36]))
    return {"alg": alg, "K": K, "w": draw(st.sampled_from([0.5, 1.0, 2.0])), "lo": draw(st.integers(-4, 4)), "n": n,
            "seed": draw(gen.SEED), "xk": draw(st.sampled_from(["cont", "quarter", "cont", "skew"])),
            "ek": draw(st.sampled_from(["rand", "steps", "steps", "noisy", "const", "ints", "linear"])), "es": draw(gen.SEED),
            "scale": draw(st.sampled_from([1e-3, 1.0, 1.0, 1.0, 1e4, 1e7])),
            "mp": draw(st.integers(0, 2) | st.integers(0, 10)), "d": draw(st.sampled_from([0.0, 0.3, 0.3, 0.5, 1.0])),
            "route": draw(st.sampled_from(["fit", "class"]))}


def check(c):
    K, w, lo, N = c["K"], c["w"], float(c["lo"]), c["n"]
    hi = lo + K * w
    rs = np.random.RandomState(c["seed"])
    if c["xk"] == "cont":
        u = rs.rand(N)
    elif c["xk"] == "skew":
        u = rs.rand(N) ** 3
    else:
        u = rs.randint(0, 4 * K + 1, N) / (4.0 * K)
    x = lo + (np.round(u * 4 * K) / 4 if c["xk"] == "quarter" else u * K) * w
    x = np.clip(x, lo, hi)
    gen.need(len(np.unique(x)) > 1, "one unique value")
    es = np.random.RandomState(c["es"])
    cuts = np.sort(lo + es.rand(es.randint(1, 4)) * (hi - lo))
    steps = es.randint(-4, 5, len(cuts) + 1)[np.searchsorted(cuts, x)].astype(float)
    eff = {"rand": es.randn(N), "steps": steps, "noisy": steps + 0.25 * es.randn(N), "const": np.full(N, 3.0),
           "ints": es.randint(-2, 3, N).astype(float), "linear": x}[c["ek"]] * c["scale"]
    mp, d = c["mp"], c["d"]
    gen.need(N >= 2 * mp, "fewer than 2 * min_points instances")
    L = np.array([[lo], [hi]])
    X, E = x[:, None], eff[:, None]
    with sut("%s binning" % c["alg"]):
        if c["route"] == "class":
            if c["alg"] == "dp":
                lim = be.DP(X.copy(), E.copy(), feature=0, axis_limits=L.copy()).find(max_nof_bins=K, min_points=mp, discount=d, cat_limit=0)
            else:
                lim = be.Greedy(X.copy(), E.copy(), feature=0, axis_limits=L.copy()).find(init_nof_bins=K, min_points=mp, discount=d, cat_limit=0)
        else:
            r = RHALE(X.copy(), lambda z: z[:, 0], lambda z: np.ones_like(z), axis_limits=L.copy(), data_effect=E.copy())
            b = bm.DynamicProgramming(max_nof_bins=K, min_points_per_bin=mp, discount=d, cat_limit=0) if c["alg"] == "dp" else \
                bm.Greedy(init_nof_bins=K, min_points_per_bin=mp, discount=d, cat_limit=0)
            r.fit(0, binning_method=b)
            lim = r.feature_effect["feature_0"]["limits"]
    ensure(lim is not False, "no binning found although one bin is valid")
    lim = np.asarray(lim, dtype=float)
    idx = np.round((lim - lo) / w).astype(int)
    ensure(np.allclose(lo + idx * w, lim, atol=1e-9 * max(1, abs(lo), abs(hi))) and idx[0] == 0 and idx[-1] == K and np.all(np.diff(idx) > 0),
           "edges %s are not an increasing selection of the grid from %s to %s", lim, lo, hi)
    cache = {}

    def cost(i, j):
        if (i, j) not in cache:
            n, v = ref.bin_cost(x, eff, lo + i * w, lo + j * w, d)
            cache[i, j] = (n, v)
        return cache[i, j]

    labels = [c["alg"], c["ek"], c["route"]]
    if c["alg"] == "dp":
        def feas(i, j):
            n, v = cost(i, j)
            return v if n >= mp else math.inf
        best = ref.best_partition(feas, K, K)
        got = sum(feas(i, j) for i, j in zip(idx, idx[1:]))
        tol = 1e-9 * (abs(best) + np.max(eff ** 2) * (hi - lo) * 1e-3)
        ensure(got <= best + tol, "DP binning %s costs %r, the optimum over all partitions is %r", lim, got, best)
        return {"nt": len(idx) > 2 or mp == 0, "labels": labels + (["several bins"] if len(idx) > 2 else [])}

    chosen = set(idx[1:-1].tolist())
    left, closed, decided = 0, [], 0
    for i in range(K - 1):
        (n1, l1), (n2, l2) = cost(left, i + 1), cost(left, i + 2)
        if n1 < mp or n2 < mp:
            rule = False
        elif n1 == 0:
            rule = None
        elif l1 == l2 or abs(l1 - l2) > 1e-10 * max(l1, l2):
            rule = l2 > l1
            if l1 == l2 and l1 != 0:
                rule = None
        else:
            rule = None
        was = (i + 1) in chosen
        if rule is None:
            # a dropped last edge cannot be told from an unclosed one here
            rule = was
        if rule:
            closed.append(i + 1)
            left = i + 1
            decided += 1
    if closed and cost(closed[-1], K)[0] < mp:
        closed = closed[:-1]
    ensure(sorted(chosen) == closed, "Greedy closed bins at grid edges %s, the rule gives %s (grid of %d cells of width %s from %s)",
           sorted(chosen), closed, K, w, lo)
    return {"nt": len(idx) > 2, "labels": labels + (["several bins"] if len(idx) > 2 else [])}
