"""Black-box models as JSON terms, with analytic derivatives.

Terms:
  ["c", v]                 constant
  ["x", i]                 feature
  ["lin", [a0, a1, ...]]   linear form
  ["sq", i] ["cube", i]    powers
  ["sin", i, w] ["tanh", i, w]
  ["step", i, t]           1 if x_i > t else 0   (derivative 0)
  ["relu", i, t]           max(x_i - t, 0)
  ["mul", t1, t2]  ["add", [t...]]  ["scale", v, t]
"""
import numpy as np


def feval(t, x):
    k = t[0]
    if k == "c":
        return np.full(x.shape[0], float(t[1]))
    if k == "x":
        return x[:, t[1]] * 1.0
    if k == "lin":
        y = np.zeros(x.shape[0])
        for i, a in enumerate(t[1]):
            if a != 0:
                y = y + a * x[:, i]
        return y
    if k == "sq":
        return x[:, t[1]] * x[:, t[1]]
    if k == "cube":
        return x[:, t[1]] * x[:, t[1]] * x[:, t[1]]
    if k == "sin":
        return np.sin(t[2] * x[:, t[1]])
    if k == "tanh":
        return np.tanh(t[2] * x[:, t[1]])
    if k == "step":
        return (x[:, t[1]] > t[2]).astype(float)
    if k == "relu":
        return np.maximum(x[:, t[1]] - t[2], 0.0)
    if k == "mul":
        return feval(t[1], x) * feval(t[2], x)
    if k == "add":
        y = np.zeros(x.shape[0])
        for s in t[1]:
            y = y + feval(s, x)
        return y
    if k == "scale":
        return t[1] * feval(t[2], x)
    raise ValueError(t)


def fjac(t, x):
    k = t[0]
    g = np.zeros(x.shape, dtype=float)
    if k in ("c", "step"):
        return g
    if k == "x":
        g[:, t[1]] = 1.0
    elif k == "lin":
        for i, a in enumerate(t[1]):
            g[:, i] = a
    elif k == "sq":
        g[:, t[1]] = 2 * x[:, t[1]]
    elif k == "cube":
        g[:, t[1]] = 3 * (x[:, t[1]] * x[:, t[1]])
    elif k == "sin":
        g[:, t[1]] = t[2] * np.cos(t[2] * x[:, t[1]])
    elif k == "tanh":
        g[:, t[1]] = t[2] * (1 - np.tanh(t[2] * x[:, t[1]]) ** 2)
    elif k == "relu":
        g[:, t[1]] = (x[:, t[1]] > t[2]).astype(float)
    elif k == "mul":
        g = feval(t[1], x)[:, None] * fjac(t[2], x) + feval(t[2], x)[:, None] * fjac(t[1], x)
    elif k == "add":
        for s in t[1]:
            g = g + fjac(s, x)
    elif k == "scale":
        g = t[1] * fjac(t[2], x)
    else:
        raise ValueError(t)
    return g


def uses(t):
    k = t[0]
    if k == "c":
        return set()
    if k == "lin":
        return {i for i, a in enumerate(t[1]) if a != 0}
    if k == "mul":
        return uses(t[1]) | uses(t[2])
    if k == "add":
        return set().union(set(), *[uses(s) for s in t[1]])
    if k == "scale":
        return uses(t[2]) if t[1] != 0 else set()
    return {t[1]}


def interacts(t):
    """does the term contain a product of non-constant terms?"""
    k = t[0]
    if k == "mul":
        return bool(uses(t[1])) and bool(uses(t[2]))
    if k == "add":
        return any(interacts(s) for s in t[1])
    if k == "scale":
        return t[1] != 0 and interacts(t[2])
    return False


class Model:
    """y = f(x); data handed to it are checked to be 2-D and never modified by it."""

    def __init__(self, term, out_scale=1.0, out_shift=0.0):
        self.term, self.a, self.b = term, out_scale, out_shift
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        x = np.asarray(x)
        if x.ndim != 2:
            raise ValueError("model called with ndim %d" % x.ndim)
        return self.a * feval(self.term, x) + self.b

    def jac(self, x):
        x = np.asarray(x)
        if x.ndim != 2:
            raise ValueError("jacobian called with ndim %d" % x.ndim)
        return self.a * fjac(self.term, x)


class Units:
    """the same model for features expressed in other units: new = a * old + b"""

    def __init__(self, f, a, b=None):
        self.f, self.a = f, np.asarray(a, dtype=float)
        self.b = np.zeros(len(self.a)) if b is None else np.asarray(b, dtype=float)

    def __call__(self, x):
        return self.f((np.asarray(x) - self.b) / self.a)

    def jac(self, x):
        return self.f.jac((np.asarray(x) - self.b) / self.a) / self.a


def poly(t):
    """the same term without transcendental functions"""
    k = t[0]
    if k == "sin":
        return ["sq", t[1]]
    if k == "tanh":
        return ["x", t[1]]
    if k == "mul":
        return ["mul", poly(t[1]), poly(t[2])]
    if k == "add":
        return ["add", [poly(s) for s in t[1]]]
    if k == "scale":
        return ["scale", t[1], poly(t[2])]
    return t
