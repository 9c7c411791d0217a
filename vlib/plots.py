"""Reading matplotlib figures drawn by effector, and comparing them with evaluated effects."""
import matplotlib.pyplot as plt
import numpy as np

from vlib import ref
from vlib.core import check as ensure, close

MEAN_LABELS = ("PDP", "d-PDP", "SHAP curve", "average effect")


class Drawn:
    pass


def read(what):
    """content of the single current figure"""
    figs = plt.get_fignums()
    ensure(len(figs) == 1, "%s opened %d figures", what, len(figs))
    fig = plt.figure(figs[0])
    P = Drawn()
    P.fig, P.axes = fig, fig.axes
    ax = fig.axes[0]
    lab = [l for l in ax.lines if l.get_label() in MEAN_LABELS]
    ensure(len(lab) == 1, "%s draws %d mean curves", what, len(lab))
    P.x, P.y = arr(lab[0].get_xdata()), arr(lab[0].get_ydata())
    avg = [l for l in ax.lines if l.get_label() == "avg output"]
    ensure(len(avg) <= 1, "%s draws %d average lines", what, len(avg))
    P.avg = None if not avg else arr(avg[0].get_ydata())
    rest = [l for l in ax.lines if l is not lab[0] and l not in avg]
    P.marked = [l for l in rest if l.get_marker() not in ("None", None, "")]
    P.curves = [l for l in rest if l not in P.marked]
    P.bands = list(ax.collections)
    P.ax = ax
    P.bars = None
    if len(fig.axes) > 1:
        b = fig.axes[1]
        P.bars = np.array([[p.get_x(), p.get_width(), p.get_height()] for p in b.patches])
        P.errors = [seg for coll in b.collections for seg in coll.get_segments()]
        P.dax = b
    return P


def arr(v):
    return np.array(v, dtype=float)


def affine(v, s):
    return v if s is None else v * s["std"] + s["mean"]


def unscale(v, s):
    return v if s is None else (v - s["mean"]) / s["std"]


def band(P, what):
    ensure(len(P.bands) == 1, "%s draws %d bands", what, len(P.bands))
    v = P.bands[0].get_paths()[0].vertices
    out = []
    for x in P.x:
        y = v[np.abs(v[:, 0] - x) <= 1e-12 * max(1e-300, np.abs(P.x).max()), 1]
        out.append((y.min(), y.max()))
    return np.array(out)


def match_columns(what, drawn, columns, k, tol):
    """`drawn` rows are k different columns of `columns` (the first possibly drawn twice)"""
    ensure(len(drawn) in (k, k + 1), "%s: %d curves drawn, expected %d", what, len(drawn), k)
    rows = list(range(len(drawn)))
    d = np.array([[np.max(np.abs(r - columns[:, j])) for j in range(columns.shape[1])] for r in drawn])
    ensure(np.all(d.min(axis=1) <= tol), "%s: drawn curve %s is none of the computed ones", what, drawn[int(np.argmax(d.min(axis=1)))][:5])
    if len(drawn) == k + 1:
        ensure(np.max(np.abs(drawn[0] - drawn[1:]), axis=1).min() <= tol, "%s: %d curves drawn, expected %d", what, k + 1, k)
        rows = rows[1:]
    # greedy matching works since equal columns are interchangeable
    from scipy.optimize import linear_sum_assignment
    cost = (d[rows] > tol).astype(float)
    r, c = linear_sum_assignment(cost)
    ensure(len(r) == k and cost[r, c].sum() == 0, "%s: the %d drawn curves are not %d different instances", what, k, k)


def compare(what, P, m, o, fresh, s, X, f, L, names=None, target=None, avg_output=None, local=None, limits=None, magnitude=1.0, label=None, rtol=1e-9):
    """o: plot options h, c, sx, sy, avg (+ nice, nshap, points, ylim, dylim); fresh: independently built object"""
    sx, sy, c = o["sx"], o["sy"], o["c"]
    deriv = m == "dpdp"
    ystd = 1.0 if sy is None else sy["std"]
    xs = unscale(P.x, sx)
    big = max(magnitude, 1e-300)
    tol = rtol * big * ystd + 1e-12 * (0 if sy is None else abs(sy["mean"]))
    xtol = 1e-9 * max(np.abs(L[:, s]).max(), np.ptp(L[:, s])) * (1 if sx is None else sx["std"]) + (0 if sx is None else 1e-12 * abs(sx["mean"]))
    if m in ("ale", "rhale"):
        lim = np.asarray(limits, dtype=float)
        ends = affine(np.array([lim[0], lim[-1]]), sx)
        close(what + ": ends of the curve", P.x[[0, -1]], ends, 0, 0, xtol)
        ensure(len(P.x) >= 100 and np.all(np.diff(P.x) > -xtol), "%s: the curve has %d points", what, len(P.x))
        xs = np.clip(xs, lim[0], lim[-1])
    else:
        close(what + ": plotted grid", P.x, affine(np.linspace(L[0, s], L[1, s], o.get("points") or 30), sx), 0, 0, xtol)
        xs = np.linspace(L[0, s], L[1, s], o.get("points") or 30)

    def scaled(v):
        return v * ystd if deriv else affine(v, sy)

    y, std = fresh.eval(s, xs.copy(), heterogeneity=True, centering=c)
    close(what + ": curve", P.y, scaled(y), 0, 1e-12, tol)
    h = "std" if o["h"] is True else o["h"]
    if m in ("pdp", "dpdp"):
        yy = np.asarray(fresh.eval(s, xs.copy(), heterogeneity=False, centering=c, return_all=True))
        if h in ("std", "std_err"):
            b = band(P, what)
            sd = np.std(yy, axis=1) * ystd
            stol = max(tol, 1e-7 * big * ystd)
            close(what + ": lower band", b[:, 0], scaled(y) - sd, 0, 1e-12, stol)
            close(what + ": upper band", b[:, 1], scaled(y) + sd, 0, 1e-12, stol)
        else:
            ensure(not P.bands, "%s: unexpected band", what)
        if h == "ice":
            n = yy.shape[1]
            k = n if o.get("nice", "all") == "all" else min(n, o["nice"])
            for l in P.curves:
                close(what + ": ICE grid", arr(l.get_xdata()), P.x, 0, 0, xtol)
            match_columns(what + ": ICE", np.array([arr(l.get_ydata()) for l in P.curves]), scaled(yy), k, tol)
        else:
            ensure(not P.curves, "%s: unexpected extra curves", what)
    if m == "shap":
        if h == "std":
            b = band(P, what)
            sd = std * ystd
            close(what + ": lower band", b[:, 0], scaled(y) - np.abs(sd), 0, 1e-12, tol)
            close(what + ": upper band", b[:, 1], scaled(y) + np.abs(sd), 0, 1e-12, tol)
        else:
            ensure(not P.bands, "%s: unexpected band", what)
        pts = [(a, b) for l in P.marked for a, b in zip(arr(l.get_xdata()), arr(l.get_ydata()))]
        if h == "shap_values":
            shift = fresh.eval(s, xs[:1], centering=False)[0] - fresh.eval(s, xs[:1], centering=c)[0]
            Z = X[(X[:, s] >= L[0, s]) & (X[:, s] <= L[1, s])]
            want = np.stack([affine(Z[:, s], sx), affine(ref.shapley(f, Z, Z)[:, s] - shift, sy)])
            n = want.shape[1]
            k = n if o.get("nshap", "all") == "all" else min(n, o["nshap"])
            a = np.array(pts) / np.array([xtol, tol])
            match_columns(what + ": SHAP values", a, want / np.array([[xtol], [tol]]), k, 1.0 + 1e3 * 1e-7 / rtol)
        else:
            ensure(not pts, "%s: unexpected scattered points", what)
    if m in ("ale", "rhale"):
        e = ref.Effect(X[:, s], local, lim)
        slope = ystd / (1.0 if sx is None else sx["std"])
        top = max(np.abs(local).max(), big / max(np.diff(lim).min(), 1e-300) * 1e-3, 1e-300)
        sl = affine(lim, sx)
        close(what + ": left ends of the bars", P.bars[:, 0], sl[:-1], 0, 0, 10 * xtol)
        close(what + ": widths of the bars", P.bars[:, 1], np.diff(sl), 0, 0, 10 * xtol)
        close(what + ": heights of the bars", P.bars[:, 2], e.mean * slope, 0, 1e-9, 1e-9 * top * slope)
        if h and (e.n > 1).any():
            ensure(len(P.errors) == len(e.mean), "%s: %d error bars for %d bins", what, len(P.errors), len(e.mean))
            er = np.array([[seg[:, 1].min(), seg[:, 1].max(), seg[0, 0]] for seg in P.errors])
            sd = np.sqrt(e.var) * slope
            close(what + ": position of the error bars", er[:, 2], (sl[1:] + sl[:-1]) / 2, 0, 0, 10 * xtol)
            close(what + ": half length of the error bars", (er[:, 1] - er[:, 0]) / 2, sd, 0, 1e-7, 1e-7 * top * slope)
            close(what + ": centers of the error bars", (er[:, 1] + er[:, 0]) / 2, e.mean * slope, 0, 1e-7, 1e-7 * top * slope)
        elif not h:
            ensure(not P.errors, "%s: unexpected error bars", what)
        ensure(P.dax.get_ylabel() == "dy/dx", "%s: label of the second axis is %r", what, P.dax.get_ylabel())
        if o.get("dylim") is not None:
            close(what + ": dy limits", P.dax.get_ylim(), o["dylim"], 1, 1e-12)
        else:
            a, b = sorted(P.dax.get_ylim())
            t = 1e-9 * top * slope + 0.02 * np.ptp(np.append(P.bars[:, 2], 0.0))
            ensure(a <= min(0.0, P.bars[:, 2].min()) + t and b >= max(0.0, P.bars[:, 2].max()) - t, "%s: the second axis shows [%r, %r], bars reach from %r to %r",
                   what, a, b, P.bars[:, 2].min(), P.bars[:, 2].max())
    if o["avg"]:
        ensure(P.avg is not None, "%s: no average line", what)
        v = float(np.mean(f(X))) if avg_output is None else avg_output
        close(what + ": average line", P.avg, np.full(len(P.avg), affine(v, sy)), 0, 1e-12, 1e-9 * (abs(v) + big) * ystd)
    else:
        ensure(P.avg is None, "%s: unexpected average line", what)
    xlab = (P.dax if m in ("ale", "rhale") else P.ax).get_xlabel()
    if label is not None:
        label(xlab)
    elif names is not None:
        ensure(xlab == names[s], "%s: axis label %r, expected %r", what, xlab, names[s])
    else:
        ensure(xlab in ("x_%d" % s, "x_%d" % (s + 1)), "%s: axis label %r", what, xlab)
    ylab = P.ax.get_ylabel()
    want = "dy/dx" if deriv else ("y" if target is None else target)
    ensure(ylab == want, "%s: axis label %r, expected %r", what, ylab, want)
    if o.get("ylim") is not None:
        close(what + ": y limits", P.ax.get_ylim(), o["ylim"], 1, 1e-12)
