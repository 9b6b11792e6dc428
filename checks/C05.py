"""Integrand families with closed-form integrals (polynomial, exponential, oscillatory, Lorentz peak, kink, algebraic and
logarithmic singularity, step, interior jump), intervals of either orientation, break points inside/outside/at the ends, tolerances
and subdivision limits.  Oracles: the exact integral, scipy's QUADPACK on the same integrand (value, error, evaluation count,
flag), and interval algebra.  Branch-level agreement (counts and flags) is required where scipy itself is insensitive to
rounding-level disturbances of the problem."""
import math
import warnings
import numpy as np
from scipy import integrate
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl
from hazma._core import quad as Q

ASSUMPTIONS = ["exact agreement of counts/flags is demanded where scipy is stable under rounding-level disturbances"]


def make(kind, p, c):
    """returns f, antiderivative F (continuous), singular points"""
    if kind == "poly":
        co = [p, c, -0.5 * p, 0.3, 0.1 * c]
        return (lambda x: ((((co[4] * x + co[3]) * x + co[2]) * x + co[1]) * x + co[0])), (lambda x: sum(k * x ** (i + 1) / (i + 1) for i, k in enumerate(co))), []
    if kind == "exp":
        return (lambda x: math.exp(p * x)), (lambda x: math.expm1(p * x) / p), []
    if kind == "cos":
        w = 8 * p
        return (lambda x: math.cos(w * x + c)), (lambda x: math.sin(w * x + c) / w), []
    if kind == "lorentz":
        w = 0.02 + abs(p) / 10
        return (lambda x: w / ((x - c) ** 2 + w * w)), (lambda x: math.atan((x - c) / w)), [c]
    if kind == "kink":
        return (lambda x: abs(x - c) + p), (lambda x: 0.5 * (x - c) * abs(x - c) + p * x), [c]
    if kind == "alg":
        a = -0.95 + 0.9 * abs(p) / 3
        return (lambda x: abs(x - c) ** a if x != c else 0.0), (lambda x: math.copysign(abs(x - c) ** (a + 1) / (a + 1), x - c)), [c]
    if kind == "log":
        return (lambda x: math.log(abs(x - c)) if x != c else 0.0), (lambda x: ((x - c) * math.log(abs(x - c)) if x != c else 0.0) - (x - c)), [c]
    if kind == "step":
        return (lambda x: p if x > c else 1.0), (lambda x: p * (x - c) if x > c else (x - c)), [c]
    raise KeyError(kind)


KINDS = ["poly", "exp", "cos", "lorentz", "kink", "alg", "log", "step"]


def sci(f, a, b, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = integrate.quad(f, a, b, full_output=1, **k)
    ier = 0
    if len(r) > 3:
        m = r[3]
        ier = 1 if "maximum number of subdivisions" in m else 2 if "roundoff error" in m and "extrapolation table" not in m else 3 if "Extremely bad" in m else 4 if "extrapolation table" in m else 5 if "divergent" in m else 6
    return r[0], r[1], r[2]["neval"], r[2]["last"], ier


nz = st.one_of(fl(0.2, 3), fl(-3, -0.2))
TOL = st.sampled_from([(1.49e-8, 1.49e-8), (1e-10, 1e-5), (1e-10, 1e-4), (0.0, 1e-6), (0.0, 1e-10), (1e-6, 0.0), (1e-12, 1e-12), (1e-3, 1e-3)])
PTS = st.sampled_from(["none", "ends", "one", "sing", "several", "outside", "dups", "empty"])


@oracle(lambda kind: st.tuples(nz, fl(-1.2, 1.2), fl(-2, 2), fl(0.01, 4), st.booleans(), TOL, st.sampled_from([50, 50, 50, 1, 2, 5, 8, 12, 20, 200]), PTS, fl(0.05, 0.95), st.booleans()),
        params=KINDS, quick=1000)
def against_references(case, kind):
    p, c, a, width, flip, (ea, er), limit, pts, u, at_edge = case
    if at_edge:
        c = a
    f, F, sing = make(kind, p, c)
    b = a + width
    if kind in ("alg", "log", "step") and not (a - 1e-3 <= c <= b + 1e-3):
        c = a + u * width
        f, F, sing = make(kind, p, c)
    points = {"none": None, "ends": [a, b], "one": [a + u * width], "sing": sing or None, "several": [a + u * width, a + 0.5 * u * width, a, b + 1.0],
              "outside": [a - 1.0, b + 2.0], "dups": [a + u * width, a + u * width], "empty": []}[pts]
    if flip:
        a, b = b, a
    kw = dict(epsabs=ea, epsrel=er, limit=limit)
    if points is not None:
        kw["points"] = points
    try:
        ref = sci(f, a, b, **kw)
    except ValueError:
        try:
            Q.quad(f, a, b, **kw)
        except ValueError:
            return "rejected"
        require(False, "scipy rejects the call, the compiled integrator does not (%s)", kw)
    got = cut(Q.quad, f, a, b, **kw)
    v, err, neval, last, ier = got
    exact = F(b) - F(a)
    scale = abs(exact) + abs(F(b)) + abs(F(a)) + 1e-300
    require(math.isfinite(v) and math.isfinite(err) and err >= 0, "non-finite result %s", got)
    singular = kind in ("alg", "log", "step", "kink")  # decisions at rounding level are common
    cloud = []

    def disturbed():
        """scipy on copies of the problem disturbed at rounding level: what an equivalent implementation may return."""
        if not cloud:
            cloud.append(ref)
            rng = np.random.default_rng(7)
            for j in range(80):
                n1, n2 = rng.uniform(-1, 1, 2) * (1e-13 if j % 2 else 0)
                k2 = kw if points is None else dict(kw, points=[x * (1 + n1) for x in points])
                try:
                    cloud.append(sci(lambda x: f(x) * (1 + rng.uniform(-1, 1) * 1e-15), a * (1 + n1), b * (1 + n2), **k2))
                except ValueError:  # an end point given as a break point has become an interior one
                    pass
        return cloud
    same = (neval, last, ier) == ref[2:]
    if not same:
        seen = {x[2:] for x in disturbed()}
        require(singular or (neval, last, ier) in seen or len(seen) > 1, "evaluations/subdivisions/flag %s, scipy %s (%s)", (neval, last, ier), ref[2:], kw)
    else:
        if abs(v - ref[0]) > 1e-10 * scale:
            spread = max(abs(x[0] - ref[0]) for x in disturbed())
            require(abs(v - ref[0]) <= 1e-10 * scale + 10 * spread + 3 * max(err, ref[1]), "value %.15g, scipy %.15g", v, ref[0])
        if not singular and abs(err - ref[1]) > 1e-3 * max(err, ref[1]) + 1e-13 * scale:
            es = max(abs(x[1] - ref[1]) for x in disturbed())
            require(abs(err - ref[1]) <= 1e-3 * max(err, ref[1]) + 20 * es + 1e-13 * scale, "error estimate %.6g, scipy %.6g", err, ref[1])
    if ier == 0:
        tol = max(ea, er * abs(exact))
        # the requested accuracy, allowing the estimator's own slack where scipy uses the same slack
        if abs(v - exact) > max(10 * tol, 3 * abs(ref[0] - exact)) + 1e-12 * scale:
            worst = max(abs(x[0] - exact) for x in disturbed())
            require(abs(v - exact) <= 3 * worst + (1e-5 if singular else 1e-12) * scale, "value %.12g, exact %.12g, tolerance %.3g", v, exact, tol)
        require(err <= tol * 1.01 + 1e-12 * scale or singular or abs(err - ref[1]) <= 1e-3 * err or max(x[1] for x in disturbed()) >= err,
                "error estimate %.3g above the requested %.3g without a flag", err, tol)
    return [pts, "ier=%d" % ier, "subdivided" if last > 1 else "single", "same" if same else "rounding"]


HARD = st.tuples(st.sampled_from(["alg", "log", "kink", "step", "lorentz", "cos"]), nz, fl(-1.2, 1.2), fl(-2, 2), fl(0.05, 4), TOL,
                 st.sampled_from([2, 4, 6, 8, 10, 12, 16, 20, 30, 50]), st.sampled_from(["none", "none", "one", "two"]), fl(0.05, 0.95))


@oracle(st.lists(HARD, min_size=24, max_size=40), quick=60, thorough=1000)
def hard_batches(case):
    """Integrals stopped by the subdivision limit or round-off: single results may differ at a rounding-level decision of the
    algorithm (rarely), a batch of them may not."""
    bad, flagged, worst = set(), 0, None
    for kind, p, c, a, width, (ea, er), limit, pts, u in case:
        b = a + width
        if not a < c < b:
            c = a + u * width
        f, F, _ = make(kind, p, c)
        kw = dict(epsabs=ea, epsrel=er, limit=limit)
        if pts != "none":
            kw["points"] = [a + 0.37 * width] + ([a + 0.81 * width] if pts == "two" else [])
        try:
            ref = sci(f, a, b, **kw)
        except ValueError:
            continue
        got = cut(Q.quad, f, a, b, **kw)
        scale = abs(ref[0]) + abs(F(b)) + abs(F(a))
        flagged += ref[4] != 0
        if abs(got[0] - ref[0]) > 1e-9 * scale or (got[2:4] == ref[2:4] and abs(got[1] - ref[1]) > 1e-2 * ref[1] + 1e-12 * scale) or got[4] != ref[4]:
            worst = (kind, kw, got, ref)
            bad.add((kind, p, c, a, width, ea, er, limit, pts, u))  # one problem repeated counts once
    require(len(bad) <= max(3, 0.15 * len(case)), "%d of %d integrals differ from QUADPACK, e.g. %s", len(bad), len(case), worst)
    return "flagged" if flagged else None


@oracle(st.tuples(st.sampled_from(["poly", "exp", "cos", "lorentz"]), nz, fl(-1, 1), fl(-2, 2), fl(0.1, 4), fl(0.1, 0.9), fl(-3, 3)), quick=400)
def algebra(case):
    kind, p, c, a, width, u, k = case
    f, F, _ = make(kind, p, c)
    b = a + width
    m = a + u * width
    v = cut(Q.quad, f, a, b)[0]
    sc = 1e-7 * (1 + abs(v))
    require(abs(cut(Q.quad, f, b, a)[0] + v) <= sc, "reversed interval does not flip the sign")
    require(abs(Q.quad(f, a, m)[0] + Q.quad(f, m, b)[0] - v) <= 3 * sc, "interval splitting is not additive")
    require(abs(Q.quad(lambda x: k * f(x), a, b)[0] - k * v) <= 4 * sc * max(1, abs(k)), "integral is not homogeneous")
    require(Q.quad(f, a, a)[0] == 0, "empty interval gives non-zero")
    require(abs(Q.quad(f, a, b, points=[m])[0] - v) <= 3 * sc, "a break point changes the integral")
    return kind


@oracle(st.tuples(st.lists(fl(-2, 2), min_size=1, max_size=23), fl(-2, 2), fl(0.01, 3), st.booleans()), quick=400)
def kronrod(case):
    """The bare rules are exact for polynomials within their degree and report int |f| and int |f - mean|."""
    co, a, w, flip = case
    b = a + w
    if flip:
        a, b = b, a
    P = np.polynomial.Polynomial(co, domain=[min(a, b), max(a, b)], window=[-1, 1])
    I = P.integ()
    exact = I(b) - I(a)
    sc = sum(abs(c) for c in co) * w + 1e-300
    r15, r21 = cut(Q.qk15, lambda x: float(P(x)), a, b), cut(Q.qk21, lambda x: float(P(x)), a, b)
    require(abs(r15[0] - exact) < 1e-12 * sc, "15-point rule %.15g, exact %.15g", r15[0], exact)
    require(abs(r21[0] - exact) < 1e-12 * sc, "21-point rule %.15g, exact %.15g", r21[0], exact)
    xs = np.linspace(min(a, b), max(a, b), 20001)
    ab = np.trapezoid(np.abs(P(xs)), xs)
    asc = np.trapezoid(np.abs(P(xs) - exact / (b - a)), xs)
    for r in (r15, r21):
        require(abs(r[2] - ab) < 0.12 * sc and (ab < abs(exact) * 1.0001 or r[2] >= 0), "int|f| %.6g, expected %.6g", r[2], ab)
        require(abs(r[3] - asc) < 0.12 * sc, "int|f-mean| %.6g, expected %.6g", r[3], asc)
        require(r[1] >= 0, "negative error estimate")
    if np.all(P(xs) > 0):
        require(abs(r21[2] - abs(exact)) < 1e-11 * sc, "int|f| of a positive function %.12g, exact %.12g", r21[2], exact)
    s = sci(lambda x: float(P(x)), a, b, limit=1)
    if s[2] == 21:
        close(r21[0], s[0], 1e-12, "21-point rule vs scipy single panel", scale=sc)
        close(r21[1], s[1], 1e-3, "21-point error vs scipy single panel", scale=1e-10 * sc)
    return "deg<=15" if len(co) <= 16 else "deg>15"


@oracle(st.tuples(fl(-1, 1), fl(0.1, 2), st.sampled_from(["raise", "limit0", "limitneg", "tol", "limitbig"])), quick=60)
def errors(case):
    a, w, kind = case

    class Boom(Exception):
        pass

    def f(x):
        raise Boom("x")
    if kind == "raise":
        try:
            Q.quad(f, a, a + w)
        except Boom:
            return kind
        require(False, "exception of the integrand swallowed")
    bad = {"limit0": dict(limit=0), "limitneg": dict(limit=-3), "tol": dict(epsabs=0.0, epsrel=0.0), "limitbig": dict(limit=2 ** 40)}[kind]
    try:
        Q.quad(math.cos, a, a + w, **bad)
    except (ValueError, OverflowError):
        return kind
    require(False, "invalid option %s accepted", bad)
