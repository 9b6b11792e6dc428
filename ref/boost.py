"""Independent boost references."""
import numpy as np
from .ps import gl


def window(E, m, beta):
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    k = np.sqrt(np.maximum(E * E - m * m, 0))
    return g * (E - beta * k), g * (E + beta * k), g


def panels(f, a, b, cuts=(), n=24, splits=4):
    """Composite Gauss-Legendre of f on [a,b] with given break points."""
    if not b > a:
        return 0.0
    pts = [a] + sorted(c for c in cuts if a < c < b) + [b]
    x, w = gl(n)
    tot = 0.0
    for lo, hi in zip(pts[:-1], pts[1:]):
        e = np.linspace(lo, hi, splits + 1)
        h = 0.5 * (e[1:] - e[:-1])[:, None]
        c = 0.5 * (e[1:] + e[:-1])[:, None]
        tot += float(np.sum(f(c + h * x) * h * w))
    return tot


def boost_rapidity(f, E, m, beta, lo, hi, cuts=(), n=32, splits=6):
    """1/(2 gamma beta) int f(e)/k(e) de over the window, done in rapidity y: de/k = dy (regular at e = m)."""
    if E < m or not 0 < beta < 1:
        return 0.0
    em, ep, g = window(E, m, beta)
    a, b = max(em, lo), min(ep, hi)
    if not b > a:
        return 0.0
    if m == 0:
        def to(e):
            return np.log(e)

        def fro(y):
            return np.exp(y)
    else:
        def to(e):
            return np.arccosh(np.maximum(e / m, 1.0))

        def fro(y):
            return m * np.cosh(y)
    return panels(lambda y: f(fro(y)), float(to(a)), float(to(b)), [float(to(c)) for c in cuts if a < c < b], n, splits) / (2 * g * beta)


def line(e0, E, m, beta):
    if not 0 < beta < 1 or E < m:
        return 0.0
    em, ep, g = window(E, m, beta)
    if em < e0 < ep:
        return 1 / (2 * g * beta * np.sqrt(e0 * e0 - m * m))
    return 0.0


def table_yy_integral(x, yy, a, b):
    """Exact integral of the piecewise-linear interpolant of (x, yy) over [a,b] inside the table."""
    if not b > a:
        return 0.0
    xs = np.concatenate([[a], x[(x > a) & (x < b)], [b]])
    return float(np.trapezoid(np.interp(xs, x, yy), xs))


def table_boost(E, beta, x, y):
    """Boost of a tabulated massless-product spectrum: y/x linear between nodes, 1/x tail below the table."""
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    lb, ub = E * g * (1 - beta), E * g * (1 + beta)
    if lb > x[-1]:
        return 0.0
    tot = 0.0
    if lb < x[0]:
        hi = min(ub, x[0])
        tot += y[0] * x[0] * (1 / lb - 1 / hi)
        lb = x[0]
    ub = min(ub, x[-1])
    tot += table_yy_integral(x, y / x, lb, ub)
    return tot / (2 * g * beta)


def table_boost_dropped_cell(E, beta, x, y, nudge=0.0):
    """The documented defect (docs/followups: boost integral drops last interior cell): of the whole cells inside the window the
    last one is not covered, and when both bounds lie in one cell that cell is counted about twice."""
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    lb, ub = E * g * (1 - beta), E * g * (1 + beta)
    n = len(x)
    yy = y / x
    if lb > x[-1]:
        return 0.0
    if ub < x[0]:
        return y[0] * x[0] / E
    tot = 0.0
    lo_clamped = lb < x[0]
    hi_clamped = ub > x[-1]
    if lo_clamped:
        tot += y[0] * x[0] * (1 / lb - 1 / x[0])
        lb, i = x[0], 0
    else:
        i = int(np.searchsorted(x, lb, side="left"))
    if hi_clamped:
        ub, j = x[-1], n - 1
    else:
        j = int(np.searchsorted(x, ub, side="left"))
        if abs(x[j] - ub) > 1e-6 + nudge:
            j -= 1
    if i < j:
        tot += float(np.trapezoid(yy[i:j], x[i:j]))

    def lin(k, e):
        return yy[k] + (yy[k + 1] - yy[k]) / (x[k + 1] - x[k]) * (e - x[k])
    if i > 0 and abs(x[i] - lb) > 1e-6:
        tot += (x[i] - lb) * (lin(i - 1, lb) + yy[i]) / 2
    if j < n - 1 and abs(ub - x[j]) > 1e-6:
        tot += (ub - x[j]) * (lin(j, ub) + yy[j]) / 2
    return tot / (2 * g * beta)
