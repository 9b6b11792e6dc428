"""Arguments spanning the whole double range (log-uniform, near 0/1/2 branch joins, specials), orders -12..12; sorted tables of
1..40 nodes with duplicates, plateaus, infinities and denormal spacings, queried at, between, just beside and outside the nodes.
Oracles: mpmath at 40 digits (and scipy), recurrences/reflections, an independent exact-rational interpolation, np.interp."""
import math
from fractions import Fraction
import mpmath as mp
import numpy as np
from scipy import special as sp
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl
from hazma._core import special as S, interp as I

ASSUMPTIONS = ["mpmath 40-digit values are exact"]
mp.mp.dps = 40

UNIT = st.one_of(fl(0, 1), fl(0.45, 0.55), fl(0.999, 1.001), fl(1.4, 1.6), fl(1.9, 2.1), logfl(1e-300, 1), logfl(1, 1e300), fl(0, 4), logfl(1e-12, 1e-2).map(lambda d: 1 + d), logfl(1e-12, 1e-2).map(lambda d: 1 - d))


@oracle(UNIT, quick=1500)
def spence_value(x):
    v = cut(S.spence, x)
    if x == 0:
        ex = mp.pi ** 2 / 6
    else:
        ex = mp.polylog(2, 1 - mp.mpf(x)) if x <= 2 else -mp.polylog(2, 1 - 1 / mp.mpf(x)) - mp.log(x) ** 2 / 2
    ex = float(mp.re(ex))
    close(v, ex, 1e-14, "dilogarithm at %r" % x, scale=1e-15 if abs(x - 1) < 1e-3 else 0.0)
    close(v, float(sp.spence(x)), 4e-15, "scipy.spence at %r" % x, scale=1e-15)
    return ["x<0.5" if x < 0.5 else "0.5-1.5" if x <= 1.5 else "1.5-2" if x <= 2 else "x>2"]


@oracle(st.one_of(fl(1e-6, 1 - 1e-6), logfl(1e-15, 0.5)), quick=800)
def spence_identities(x):
    s = S.spence
    close(cut(s, x) + cut(s, 1 - x), math.pi ** 2 / 6 - math.log(x) * math.log1p(-x), 1e-13, "reflection identity at %r" % x)
    lhs, rhs = s(x) + s(1 / x), -0.5 * math.log(x) ** 2
    require(abs(lhs - rhs) <= 1e-13 * max(abs(s(x)), abs(rhs)) + 1e-15, "inversion identity at %r: %r vs %r", x, lhs, rhs)
    require(s(x) >= s(min(1.0, x * 1.001)) - 4e-16, "dilogarithm must decrease")
    return True


@oracle(st.sampled_from([("neg", -1.0), ("neg", -1e-300), ("neg", -5e-324), ("inf", math.inf), ("ninf", -math.inf), ("nan", math.nan), ("zero", 0.0), ("nzero", -0.0), ("one", 1.0)]), quick=30)
def spence_special(c):
    k, x = c
    v = cut(S.spence, x)
    if k in ("neg", "inf", "ninf", "nan"):
        require(math.isnan(v), "spence(%r) = %r, expected NaN", x, v)
    elif k in ("zero", "nzero"):
        require(v == math.pi ** 2 / 6 or abs(v - math.pi ** 2 / 6) < 4e-16, "spence(0) = %r", v)
    else:
        require(v == 0, "spence(1) = %r", v)
    return k


KX = st.one_of(logfl(1e-300, 700), logfl(1e-6, 50), fl(0.1, 5), fl(1.99, 2.01), fl(1, 30), fl(680, 760), logfl(1e-300, 1e-12))


@oracle(KX, quick=1500)
def k1_value(x):
    v = cut(S.bessel_k1, x)
    if x > 740:
        ex = float(mp.besselk(1, mp.mpf(x)))
        require(abs(v - ex) <= 1e-13 * ex + 5e-323 * 4, "K1(%r)=%r, exact %r", x, v, ex)
        return "underflow"
    ex = mp.besselk(1, mp.mpf(x))
    if ex > mp.mpf("1.797e308"):
        require(v == math.inf or v > 1.7e308, "K1(%r)=%r should overflow", x, v)
        return "overflow"
    require(abs(v - float(ex)) <= 1e-13 * float(ex) + 5e-323, "K1(%r)=%r, exact %r", x, v, float(ex))
    return "small" if x <= 2 else "large"


@oracle(st.tuples(st.integers(-12, 12), st.one_of(logfl(1e-8, 700), fl(0.1, 20), fl(1.9, 2.1), fl(9, 10), logfl(1e-3, 300))), quick=1500)
def kn_value(c):
    n, x = c
    v = cut(S.bessel_kn, n, x)
    ex = mp.besselk(abs(n), mp.mpf(x))
    if ex > mp.mpf("1.7e308"):
        require(v > 1e307, "K%d(%r)=%r should overflow", n, x, v)
        return "overflow"
    close(v, float(ex), 1e-12 if float(ex) > 1e-300 else 1e-3, "K_%d(%r)" % (n, x), scale=1e-318)
    if x < 690:
        close(v, float(sp.kn(abs(n), x)), 3e-13, "scipy.kn(%d,%r)" % (n, x))
    require(cut(S.bessel_kn, -n, x) == v, "K_-n != K_n at n=%d x=%r", n, x)
    if n >= 1 and ex < 1e300 and ex > 1e-280:
        close(S.bessel_kn(n + 1, x), S.bessel_kn(n - 1, x) + 2 * n / x * v, 1e-12, "recurrence at n=%d x=%r" % (n, x))
    if n == 1:
        close(v, S.bessel_k1(x), 4e-13, "K_1 routes at %r" % x, scale=1e-300)
    return ["n=%d" % abs(n), "small" if x <= 2 else "large"]


@oracle(st.tuples(st.integers(-3, 6), st.sampled_from([0.0, -0.0, math.inf, -math.inf, math.nan, -1.0, -1e-300, 1e308, 800.0, 5000.0])), quick=200)
def bessel_special(c):
    n, x = c
    for name, v, ref in (("k1", cut(S.bessel_k1, x), float(sp.k1(x))), ("kn(%d)" % n, cut(S.bessel_kn, n, x), float(sp.kn(abs(n), x)))):
        ok = (math.isnan(v) and math.isnan(ref)) or v == ref or abs(v - ref) <= 1e-12 * abs(ref)
        require(ok, "%s(%r) = %r, reference %r", name, x, v, ref)
    return repr(x)


# ------------------------------------------------------------------ interpolation
@st.composite
def table(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 5, 8, 20, 40]))
    kind = draw(st.sampled_from(["generic", "dups", "log", "tight", "intgrid"]))
    if kind == "generic":
        xs = sorted(draw(st.lists(fl(-100, 100).map(lambda v: round(v, 6)), min_size=n, max_size=n)))
    elif kind == "dups":
        xs = sorted(draw(st.lists(st.integers(-4, 4).map(float), min_size=n, max_size=n)))
    elif kind == "log":
        xs = sorted(draw(st.lists(logfl(1e-12, 1e12), min_size=n, max_size=n)))
    elif kind == "intgrid":
        xs = [float(i) for i in range(n)]
    else:
        a = draw(fl(1, 10))
        xs = [a]
        for _ in range(n - 1):
            xs.append(float(np.nextafter(xs[-1], np.inf)))
    fs = draw(st.lists(st.one_of(fl(-1e3, 1e3), st.just(0.0), logfl(1e-100, 1e100)), min_size=n, max_size=n))
    return [xs, fs, kind]


@st.composite
def query(draw):
    xs, fs, kind = draw(table())
    n = len(xs)
    i = draw(st.integers(0, n - 1))
    q = draw(st.sampled_from(["node", "inside", "inside", "inside", "below", "above", "beside+", "beside-", "far", "first", "last"]))
    t = draw(fl(0, 1))
    x = {"node": xs[i], "inside": xs[i] + t * (xs[min(i + 1, n - 1)] - xs[i]), "below": xs[0] - t, "above": xs[-1] + t,
         "beside+": float(np.nextafter(xs[i], np.inf)), "beside-": float(np.nextafter(xs[i], -np.inf)), "far": 1e300 if t > 0.5 else -1e300,
         "first": xs[0], "last": xs[-1]}[q]
    return [xs, fs, kind, q, x]


@oracle(query(), quick=2500)
def interp_definition(c):
    xs, fs, kind, q, x = c
    v = cut(I.interp, x, np.array(xs), np.array(fs))
    require(isinstance(v, float), "interp returned %s", type(v))
    ref = float(np.interp(x, xs, fs))
    if x <= xs[0] and not (x == xs[0] and xs.count(x) > 1):
        require(v == fs[0], "left of the table: %r, expected %r", v, fs[0])
    elif x >= xs[-1]:
        require(v == fs[-1], "right of the table: %r, expected %r", v, fs[-1])
    elif x in xs and xs.count(x) == 1:
        require(v == fs[xs.index(x)], "not exact at node %r: %r vs %r", x, v, fs[xs.index(x)])
    elif xs.count(x) <= 1:
        j = max(k for k in range(len(xs)) if xs[k] <= x)
        a, b = Fraction(xs[j]), Fraction(xs[j + 1])
        ex = Fraction(fs[j]) + (Fraction(fs[j + 1]) - Fraction(fs[j])) * (Fraction(x) - a) / (b - a)
        sc = max(abs(fs[j]), abs(fs[j + 1])) * 1e-15 * 4
        require(abs(v - float(ex)) <= sc + 1e-320, "between nodes: %r, exact %r", v, float(ex))
        lo, hi = min(fs[j], fs[j + 1]), max(fs[j], fs[j + 1])
        require(lo - sc - 1e-320 <= v <= hi + sc + 1e-320, "interpolated value leaves its cell")
    require(v == ref or abs(v - ref) <= 4e-15 * max(map(abs, fs)), "np.interp gives %r, got %r", ref, v)
    return [kind, q, "n=1" if len(xs) == 1 else "n>1"]


@oracle(st.tuples(table(), st.sampled_from([math.nan, math.inf, -math.inf]), st.integers(0, 39), st.sampled_from(["query", "fp", "fp+query"])), quick=400)
def interp_nonfinite(c):
    (xs, fs, kind), bad, i, where = c
    fs = list(fs)
    x = bad
    if where != "query":
        fs[i % len(fs)] = bad
        if where == "fp":
            x = xs[0] + 0.37 * (xs[-1] - xs[0])
    v = cut(I.interp, x, np.array(xs), np.array(fs))
    with np.errstate(all="ignore"):
        ref = float(np.interp(x, xs, fs))
    require(v == ref or (math.isnan(v) and math.isnan(ref)) or abs(v - ref) <= 4e-15 * max(abs(ref), max(abs(f) for f in fs if math.isfinite(f)) if any(map(math.isfinite, fs)) else 0),
            "interp(%r) = %r, np.interp gives %r", x, v, ref)
    return [where, repr(bad)]


@oracle(st.sampled_from(["empty", "short", "long"]), quick=10)
def interp_rejects(c):
    a, b = {"empty": ([], []), "short": ([1.0, 2.0], [1.0]), "long": ([1.0], [1.0, 2.0])}[c]
    try:
        v = I.interp(1.0, np.array(a, dtype=float), np.array(b, dtype=float))
    except ValueError:
        return c
    require(False, "malformed table (%s) accepted: %r", c, v)
