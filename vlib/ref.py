"""Naive, obviously-correct reference implementations (written from the documentation, loops preferred)."""
import itertools
import math

import numpy as np
from scipy.interpolate import UnivariateSpline


# ------------------------------------------------------------------ PDP
def ice(f, X, xs, feat):
    out = np.zeros((len(xs), len(X)))
    for k, v in enumerate(xs):
        Z = np.array(X, dtype=float)
        Z[:, feat] = v
        out[k] = f(Z)
    return out


def dice(jac, X, xs, feat):
    out = np.zeros((len(xs), len(X)))
    for k, v in enumerate(xs):
        Z = np.array(X, dtype=float)
        Z[:, feat] = v
        out[k] = jac(Z)[:, feat]
    return out


def pstd(Y):
    m = Y.mean(axis=1, keepdims=True)
    return np.sqrt(((Y - m) ** 2).mean(axis=1))


# ------------------------------------------------------------------ bins
def bin_of(v, limits):
    """left-closed bins, last one also right-closed"""
    K = len(limits) - 1
    for k in range(K - 1):
        if limits[k] <= v < limits[k + 1]:
            return k
    return K - 1


def interp_missing(vals):
    v = [float(a) for a in vals]
    known = [i for i, a in enumerate(v) if not math.isnan(a)]
    if not known:
        return np.array(v)
    out = []
    for i, a in enumerate(v):
        if not math.isnan(a):
            out.append(a)
            continue
        left = [j for j in known if j < i]
        right = [j for j in known if j > i]
        if not left:
            out.append(v[right[0]])
        elif not right:
            out.append(v[left[-1]])
        else:
            l, r = left[-1], right[0]
            out.append(v[l] + (v[r] - v[l]) * (i - l) / (r - l))
    return np.array(out)


def bin_stats(xs, eff, limits):
    """(points per bin, raw mean, raw variance) with NaN where undefined"""
    K = len(limits) - 1
    groups = [[] for _ in range(K)]
    for v, e in zip(xs, eff):
        groups[bin_of(v, limits)].append(e)
    n = np.array([len(g) for g in groups])
    mean = np.array([np.mean(g) if len(g) > 0 else np.nan for g in groups])
    var = np.array([np.mean((np.array(g) - np.mean(g)) ** 2) if len(g) > 1 else np.nan for g in groups])
    return n, mean, var


def accumulate(x, limits, eff):
    out = []
    for v in x:
        s = 0.0
        for k in range(len(limits) - 1):
            if v > limits[k]:
                s += eff[k] * (min(v, limits[k + 1]) - limits[k])
        out.append(s)
    return np.array(out)


def ale_local(f, X, limits, feat):
    out = []
    for row in X:
        k = bin_of(row[feat], limits)
        a, b = np.array([row]), np.array([row])
        a[0, feat], b[0, feat] = limits[k], limits[k + 1]
        out.append((f(b)[0] - f(a)[0]) / (limits[k + 1] - limits[k]))
    return np.array(out)


def cat_limits(vals):
    u = sorted(set(float(v) for v in vals))
    mids = [(a + b) / 2 for a, b in zip(u, u[1:])]
    return np.array([u[0] - (u[1] - u[0]) / 2] + mids + [u[-1] + (u[-1] - u[-2]) / 2])


def fixed_limits(xs, lo, hi, nof_bins, min_points, cat_limit):
    """expected limits of the fixed binning, or None when impossible"""
    if len(xs) == 0 or len(set(xs)) == 1 or len(xs) < min_points:
        return None
    if len(set(xs)) <= cat_limit:
        L = cat_limits(xs)
    else:
        L = np.array([lo + (hi - lo) * i / nof_bins for i in range(nof_bins)] + [hi])
    if any(np.sum((xs >= a) & (xs <= b)) < min_points for a, b in zip(L, L[1:])):
        return None
    return L


class Effect:
    """accumulated effect of given limits and local effects"""

    def __init__(self, xs, eff, limits):
        self.limits = np.asarray(limits, dtype=float)
        self.n, mean, var = bin_stats(xs, eff, self.limits)
        self.mean, self.var = interp_missing(mean), interp_missing(var)

    def y(self, x):
        return accumulate(x, self.limits, self.mean)

    def std(self, x):
        return accumulate(x, self.limits, np.sqrt(self.var))


# ------------------------------------------------------------------ Shapley
def shapley(f, X, background):
    """exact Shapley values of v(S) = mean_b f(x_S, b_rest), for every row of X"""
    N, D = X.shape
    phi = np.zeros((N, D))
    for r in range(N):
        v = {}
        for m in range(2 ** D):
            Z = background.copy()
            for j in range(D):
                if m >> j & 1:
                    Z[:, j] = X[r, j]
            v[m] = float(np.mean(f(Z)))
        for j in range(D):
            for m in range(2 ** D):
                if m >> j & 1:
                    continue
                s = bin(m).count("1")
                w = math.factorial(s) * math.factorial(D - s - 1) / math.factorial(D)
                phi[r, j] += w * (v[m | 1 << j] - v[m])
    return phi


# ------------------------------------------------------------------ binning cost
def bin_cost(xs, eff, a, b, discount, slack=0.0):
    sel = (xs >= a - slack) & (xs <= b + slack)
    n = int(sel.sum())
    if n == 0:
        return 0, 0.0
    return n, float(np.var(eff[sel]) * (b - a) * (1 - discount * n / len(xs)))


def best_partition(cost, K, max_bins):
    """min over partitions of 0..K of summed cost(i, j); cost may be inf"""
    if K > 12 and max_bins >= K:
        # too many to enumerate: shortest path over the edges
        best = [0.0] + [math.inf] * K
        for j in range(1, K + 1):
            best[j] = min(best[i] + cost(i, j) for i in range(j))
        return best[K]
    best = math.inf
    for r in range(0, max_bins):
        for cuts in itertools.combinations(range(1, K), r):
            pts = (0,) + cuts + (K,)
            c = 0.0
            for a, b in zip(pts, pts[1:]):
                c += cost(a, b)
                if c >= best:
                    break
            best = min(best, c)
    return best


def spline(x, y):
    """scipy's default smoothing spline (x sorted); of the degree two or three different positions determine when there are no more

    Points at one position act through their mean: sum w (y_i - s(x))^2 = n_x (mean - s(x))^2 + spread within x.
    """
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    pos = np.unique(x)
    groups = [y[x == p] for p in pos]
    left = len(x) - sum(((g - g.mean()) ** 2).sum() for g in groups)
    return UnivariateSpline(pos, [g.mean() for g in groups], w=[np.sqrt(len(g)) for g in groups], s=max(left, 0.0), k=max(1, min(3, len(pos) - 1)))
