"""Validity of every binning that is produced; failure reported when none exists."""
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vlib import bins, gen, models, ref
from vlib.core import check as ensure, close, rejects, sut
from effector import ALE, RHALE
from effector import bin_splitting as be

CASES = {"quick": 5000, "thorough": 80000}
RULE = ("Random feature values (continuous, gridded, clustered, explicit lists of quarter-integers incl. constant ones), derivatives, axis limits and binning parameters, "
        "through RHALE/ALE fit or the binning classes (some drawn by their own plot); non-trivial = a binning with at least two bins was produced, or a required rejection happened.")


@st.composite
def strategy(draw, tier="quick"):
    if draw(st.booleans()):
        n = draw(st.integers(1, 24))
        vals = draw(st.lists(gen.q(-3, 3, draw(st.sampled_from([1, 4]))), min_size=n, max_size=n))
        data = {"n": n, "seed": 0, "cols": [{"k": "vals", "v": vals}]}
    else:
        data = draw(gen.dataset(n=(2, 60), d=(1, 1), big=True))
    b = draw(bins.spec(max_dp=12 if tier == "quick" else 25))
    if not b.get("name") and b["k"] == "fixed" and draw(st.booleans()):
        b["n"] = draw(st.integers(2, 5))  # few bins: some sparse, some not
        b["mp"] = draw(st.integers(1, 8))
        b["cat"] = draw(st.sampled_from([0, 2, 5]))
    lim = draw(st.sampled_from([None, None, [0.0, 0.75], [0.25, 1.0], [0.25, 0.75], [-0.25, 1.25], [-0.125, 0.625]]))
    return {"data": data, "bins": b, "limits": lim, "es": draw(gen.SEED), "kind": draw(st.sampled_from(["rand", "const", "steps"])),
            "scale": draw(st.sampled_from([1e-3, 1.0, 1.0, 1e3, 1e7])),
            "draw": draw(st.integers(0, 7)) == 0, "route": draw(st.sampled_from(["class", "fit", "fit"] if not b.get("name") else ["fit"]))}


def drawn(est, x, eff):
    """the binning's own plot shows every derivative and every edge"""
    plt.close("all")
    with sut("plot of a binning"):
        est.plot()
        figs = plt.get_fignums()
        ensure(len(figs) == 1, "plotting a binning opens %d figures", len(figs))
        ax = plt.figure(figs[0]).axes[0]
        dots = [l for l in ax.lines if len(l.get_xdata()) == len(x)]
        ensure(len(dots) == 1, "plotting a binning draws %d sets of points", len(dots))
        close("plotted feature values", np.asarray(dots[0].get_xdata(), dtype=float), x, 0, 0)
        close("plotted derivatives", np.asarray(dots[0].get_ydata(), dtype=float), eff, 0, 0)
        segs = [np.asarray(v) for k in ax.collections for v in k.get_segments()]
    plt.close("all")
    lim = np.asarray(est.limits, dtype=float)
    ensure(len(segs) == len(lim), "%d lines drawn for %d edges", len(segs), len(lim))
    for v, e in zip(segs, lim):
        ensure(np.all(v[:, 0] == e), "line at %s drawn for the edge %r", v[:, 0], e)
        ensure(v[:, 1].min() <= eff.min() and v[:, 1].max() >= eff.max(), "line from %r to %r does not span the derivatives", v[0, 1], v[1, 1])


def check(c):
    X = gen.build(c["data"])
    x = X[:, 0]
    N = len(x)
    lo, hi = x.min(), x.max()
    w = (hi - lo) if hi > lo else 1.0
    if c["limits"] is not None:
        lo, hi = lo + c["limits"][0] * w, lo + c["limits"][1] * w
    elif hi == lo:
        hi = lo + 1.0
    L = np.array([[lo], [hi]])
    rs = np.random.RandomState(c["es"])
    eff = {"rand": rs.randn(N), "const": np.ones(N), "steps": np.floor(2 * rs.rand() * x)}[c["kind"]] * c["scale"]
    inside = (x >= lo) & (x <= hi)
    gen.need(inside.any(), "no instance inside the axis limits")
    xin = x[inside]
    b, fb = c["bins"], bins.full(c["bins"])
    ok = bins.possible(b, xin, lo, hi)
    gen.need(ok is not None, "a point on a bin edge decides feasibility")
    labels = [b["k"], c["route"]]
    f = models.Model(["x", 0])

    if c["route"] == "class":
        cls = {"fixed": be.Fixed, "greedy": be.Greedy, "dp": be.DP}[b["k"]]
        kw = {"fixed": dict(nof_bins=fb["n"]), "greedy": dict(init_nof_bins=fb["n"], discount=fb.get("d")),
              "dp": dict(max_nof_bins=fb["n"], discount=fb.get("d"))}[b["k"]]
        with sut("%s.find" % b["k"]):
            est = cls(X[inside].copy(), eff[inside, None].copy(), feature=0, axis_limits=L.copy())
            lim = est.find(min_points=fb["mp"], cat_limit=fb["cat"], **kw)
        if not ok:
            ensure(lim is False or est.limits is False, "%s.find must report that no binning exists, returned %s", b["k"], lim)
            return {"nt": True, "labels": labels + ["impossible"]}
        ensure(lim is not False and lim is not None, "%s.find reported failure although a valid binning exists", b["k"])
        npb = None
        if c.get("draw"):
            drawn(est, xin, eff[inside])
            labels.append("drawn")
    else:
        with sut("constructor"):
            m = RHALE(X.copy(), f, f.jac, axis_limits=L.copy(), data_effect=eff[:, None].copy())
            a = ALE(X.copy(), f, axis_limits=L.copy())
        if not ok:
            rejects("RHALE.fit with impossible binning %s" % fb, lambda: m.fit(0, binning_method=bins.make(b)))
            if b["k"] == "fixed":
                rejects("ALE.fit with impossible binning %s" % fb, lambda: a.fit(0, binning_method=bins.make(b)))
            return {"nt": True, "labels": labels + ["impossible"]}
        with sut("RHALE.fit"):
            m.fit(0, binning_method=bins.make(b))
        lim = m.feature_effect["feature_0"]["limits"]
        npb = m.feature_effect["feature_0"]["points_per_bin"]
        if b["k"] == "fixed":
            with sut("ALE.fit"):
                a.fit(0, binning_method=bins.make(b))
            close("ALE and RHALE fixed bins", a.feature_effect["feature_0"]["limits"], lim, w, 1e-12)

    lim = np.asarray(lim, dtype=float)
    ensure(lim.ndim == 1 and len(lim) >= 2 and np.all(np.isfinite(lim)), "bin edges %s", lim)
    ensure(np.all(np.diff(lim) > 0), "bin edges not strictly increasing: %s", lim)
    tiny = 1e-9 * max(abs(lo), abs(hi), hi - lo)
    cat = len(np.unique(xin)) <= fb["cat"]
    if cat:
        close("categorical bin edges", lim, ref.cat_limits(xin), w, 1e-10)
        labels.append("categorical")
    else:
        ensure(abs(lim[0] - lo) <= tiny and abs(lim[-1] - hi) <= tiny, "bins span [%r, %r], axis is [%r, %r]", lim[0], lim[-1], lo, hi)
        nmax = fb["n"]
        ensure(len(lim) - 1 <= nmax, "%d bins produced, at most %d requested", len(lim) - 1, nmax)
        if b["k"] == "fixed":
            close("fixed bin edges", lim, np.linspace(lo, hi, nmax + 1), w, 1e-10)
        else:
            # edges lie on the uniform grid
            pos = (lim - lo) / (hi - lo) * nmax
            ensure(np.allclose(pos, np.round(pos), atol=1e-6), "edges %s are not on the grid of %d cells", lim, nmax)
    n = bins.counts(xin, lim, 0.0 if bins.exact(lim, np.unique(xin), lo, hi) else tiny)
    ensure(np.all(n >= fb["mp"]), "a bin has fewer than %d points: edges %s, points per bin %s", fb["mp"], lim, n)
    if npb is not None:
        want = np.array([0] * (len(lim) - 1))
        for v in xin:
            want[ref.bin_of(v, lim)] += 1
        close("points per bin", npb, want)
    return {"nt": len(lim) > 2, "labels": labels + (["several bins"] if len(lim) > 2 else []) + (["min points"] if fb["mp"] > 0 else [])}
