"""Rest-frame spectra (polynomials on a generated support, tables, lines), product masses, velocities and energies; every boost
helper is compared with an independent rapidity-space quadrature, and particle number / mean energy are integrated over the lab
spectrum.  Non-trivial: the evaluated boost is non-zero or an explicit edge (rest frame, unphysical velocity)."""
import ctypes
import numpy as np
from vlib.runner import oracle, finding, require, close, cut
from checks.common import st, fl, logfl
from ref import boost as B
from ref.ps import gl
from hazma.spectra import boost as PB
from hazma import spectra
from hazma._core import boost as CB
import importlib

ASSUMPTIONS = ["compiled table boost: the exact value or the documented dropped-cell value are the only ones accepted"]
beta_s = st.one_of(fl(0.001, 0.999), fl(1e-4, 0.05), fl(-7, -2).map(lambda x: 1 - 10 ** x))


def rest_spectrum(co, lo, hi):
    def f(e):
        u = (np.asarray(e) - lo) / (hi - lo)
        v = sum(c * u ** i for i, c in enumerate(co)) + 0 * u
        return np.where((u >= 0) & (u <= 1), v * np.exp(0 * u), 0.0)
    return f


SPEC = st.tuples(st.sampled_from([0.0, 0.0, 0.510998928, 139.57, 10.0]), fl(0.01, 500), fl(0.5, 500), st.lists(fl(0.05, 2), min_size=1, max_size=4))


def smooth_spectrum(m, w, co):
    def f(e):
        u = (np.asarray(e) - m) / w
        return sum(c * u ** i for i, c in enumerate(co)) * np.exp(-u)
    return f


@oracle(st.tuples(SPEC, fl(0.002, 0.98), st.lists(fl(0.0, 1.0), min_size=1, max_size=6), st.sampled_from(["quad", "trapz", "simps", "quadrature"]), st.booleans(), fl(0.2, 3)), quick=400)
def callable_boost(case):
    (m, _, w, co), beta, us, method, vec, k = case
    base = smooth_spectrum(m, w, co)

    def f(e):
        return float(base(e)) if not vec else base(e)
    g = 1 / np.sqrt(1 - beta ** 2)
    es = np.array([m + 0.02 * w + 8 * g * w * u for u in us])
    fixed = method in ("trapz", "simps")
    kw = dict(npts=2001) if fixed else dict(limit=200)
    got = cut(PB.dnde_boost, f, es, beta, mass=m, method=method, vectorized=vec, **kw)
    ref = np.array([B.boost_rapidity(base, e, m, beta, m * (1 + 1e-15) if m else 1e-12, m + 200 * w) for e in es])
    peak = np.max(base(m + w * np.linspace(0, 8, 200))) * np.arctanh(beta) / (g * beta)
    require(np.shape(got) == es.shape, "shape %s for %d energies", np.shape(got), len(es))
    tol = (2e-2 if fixed else 1e-5) * np.abs(ref) + (3e-3 if fixed else 1e-6) * peak
    require(np.all(np.abs(got - ref) <= tol), "boosted spectrum (%s, beta=%g) %s, reference %s", method, beta, got, ref)
    bf = PB.make_boost_function(f, mass=m, vectorized=vec)
    close(cut(bf, es, beta, method=method, **kw), got, 1e-12, "make_boost_function vs dnde_boost")
    # extra arguments reach the spectrum
    if vec:
        h = PB.make_boost_function(lambda e, a: a * base(e), mass=m)
        close(cut(h, es, beta, method=method, args=(k,), **kw), k * got, 1e-5, "boost with extra arguments", scale=peak * 1e-3)
        close(cut(h, es, 0.0, args=(k,)), k * base(es), 1e-12, "zero boost with extra arguments")
        close(cut(bf, es, 0.0), base(es), 1e-12, "zero boost is the identity")
        for bad in (-0.3, 1.5):
            z = cut(bf, es, bad)
            require(np.all(np.asarray(z) == 0), "unphysical velocity %g gives %s", bad, z)
    if m > 0:
        z = cut(bf, np.array([0.5 * m, 0.99 * m]), beta, method=method, **kw)
        require(np.all(z == 0), "spectrum below the product mass: %s", z)
    return [method, "m=0" if m == 0 else "massive"]


@oracle(st.tuples(SPEC, fl(0.02, 0.9)), quick=150)
def conservation(case):
    """Particle number and mean energy over the whole lab spectrum."""
    (m, _, w0, co), beta = case
    base = smooth_spectrum(m, w0, [0.0] + co)
    g = 1 / np.sqrt(1 - beta ** 2)
    N = B.panels(base, m, m + 60 * w0, splits=20)
    Em = B.panels(lambda e: e * base(e), m, m + 60 * w0, splits=20)
    x, w = gl(12)
    n = e1 = 0.0
    top = m * g + 60 * w0 * g
    edges = m + (top - m) * np.linspace(0, 1, 9) ** 3
    for a, b in zip(edges[:-1], edges[1:]):
        es = 0.5 * (b - a) * x + 0.5 * (a + b)
        v = cut(PB.dnde_boost, base, es, beta, mass=m, method="simps", npts=1201)
        n += np.sum(w * v) * 0.5 * (b - a)
        e1 += np.sum(w * v * es) * 0.5 * (b - a)
    require(abs(n / N - 1) < 0.01, "particle number %.6g after boost, %.6g before", n, N)
    require(abs(e1 / (g * Em) - 1) < 0.01, "mean energy %.6g after boost, expected %.6g", e1 / N, g * Em / N)
    return "m=0" if m == 0 else "massive"


@oracle(st.tuples(SPEC, fl(0.01, 0.98), st.integers(300, 800), st.booleans()), quick=200)
def array_boost(case):
    (m, gap, width, co), beta, n, below = case
    lo, hi = m + gap, m + gap + width
    base = rest_spectrum(co, lo, hi)
    start = m if below else lo
    es = np.linspace(start, hi, n)
    y = base(es)
    y0, e0 = y.copy(), es.copy()
    got = cut(PB.dnde_boost_array, y, es, beta, mass=m)
    require(np.array_equal(y, y0) and np.array_equal(es, e0), "inputs modified")
    require(np.shape(got) == es.shape, "shape changed")
    idx = np.arange(5, n - 5, max(1, n // 12))
    g = 1 / np.sqrt(1 - beta ** 2)
    ref = np.array([B.boost_rapidity(base, es[i], m, beta, lo, hi) for i in idx])
    h = es[1] - es[0]
    fmax = max(co) * len(co)
    tol = fmax / np.sqrt(lo * lo - m * m) / (2 * g * beta) * h * 2 + 1e-4 * np.max(ref)
    require(np.all(np.abs(got[idx] - ref) <= tol), "boosted table %s, reference %s (tol %.2g)", got[idx][:4], ref[:4], tol)
    z = cut(PB.dnde_boost_array, y, es, 0.0, mass=m)
    require(np.array_equal(z, y), "zero boost is not the identity")
    for bad in (-0.5, 1.2):
        require(np.all(cut(PB.dnde_boost_array, y, es, bad, mass=m) == 0), "unphysical velocity gives non-zero")
    return ["m=0" if m == 0 else "massive", "below" if below else "support"] if np.any(ref > 0) else None


LINE = st.tuples(st.sampled_from([0.0, 0.510998928, 105.6583715]), logfl(0.1, 1e3), beta_s, st.lists(fl(0, 1.2), min_size=1, max_size=5))


def boundary(e, e0, m, beta):
    em, ep, g = B.window(e, m, beta)
    return min(abs(em - e0), abs(ep - e0)) < 1e-7 * max(e0, ep * 1e-6)


@oracle(LINE, quick=600)
def delta(case):
    m, gap, beta, us = case
    e0 = m + gap
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    k0 = np.sqrt(e0 ** 2 - m ** 2)
    a, b = g * (e0 - beta * k0), g * (e0 + beta * k0)
    es = np.array([max(a + (b - a) * (u * 1.2 - 0.1), 0.0) for u in us] + [0.5 * (a + b)])
    ref = np.array([B.line(e0, e, m, beta) for e in es])
    keep = np.array([not boundary(e, e0, m, beta) for e in es])
    py = cut(PB.boost_delta_function, es, e0, m, beta)
    co = cut(CB.boost_delta_function, e0, es, m, beta)
    tol = 1e-9 + 4e-16 * g ** 2 * 10
    close(np.where(keep, py, 0), np.where(keep, ref, 0), tol, "boosted line (Python)")
    close(np.where(keep, co, 0), np.where(keep, ref, 0), tol, "boosted line (compiled)")
    close(cut(PB.boost_delta_function, float(es[0]), e0, m, beta), py[0], 1e-12, "scalar line")
    # normalisation: flat box of the boosted support
    mid = float(py[-1])
    close(mid * (b - a), 1.0, 1e-8 + 1e-14 * g ** 2, "particles in a boosted line")
    for bad in (0.0, -0.2, 1.0 + 1e-9):
        require(np.all(cut(CB.boost_delta_function, e0, es, m, bad) == 0), "compiled line at beta=%g is non-zero", bad)
        require(np.all(cut(PB.boost_delta_function, es, e0, m, bad) == 0), "line at beta=%g is non-zero", bad)
    close(cut(CB.boost_gamma, e0 + 1.0, 0.5), (e0 + 1.0) / 0.5, 1e-14, "gamma")
    mass = e0 * np.sqrt((1 - beta) * (1 + beta))
    close(cut(CB.boost_beta, e0, mass), beta, 1e-9 + 1e-14 / beta ** 2, "beta")
    return ["m=0" if m == 0 else "massive"]


@oracle(st.tuples(st.sampled_from([0.0, 0.510998928, 105.6583715]), logfl(1, 1e3), fl(0.02, 0.98), fl(0.02, 0.98), st.lists(fl(0, 1), min_size=1, max_size=6)), quick=300)
def double_delta(case):
    """Boosting a line twice equals boosting the boosted line."""
    m, gap, b1, b2, us = case
    e0 = m + gap
    k0 = np.sqrt(e0 ** 2 - m ** 2)
    g1, g2 = 1 / np.sqrt(1 - b1 ** 2), 1 / np.sqrt(1 - b2 ** 2)
    lo, hi = g1 * (e0 - b1 * k0), g1 * (e0 + b1 * k0)
    top = g2 * (hi + b2 * np.sqrt(hi ** 2 - m ** 2))
    es = np.array([m + (top - m) * u * 1.02 for u in us])
    es = es[es > m * (1 + 1e-9) + 1e-9]
    if not len(es):
        return None
    got = cut(PB.double_boost_delta_function, es, e0, m, b1, b2)
    ref = np.array([B.boost_rapidity(lambda e: 1 / (2 * g1 * b1 * k0) + 0 * e, e, m, b2, lo, hi, n=8, splits=1) for e in es])
    peak = 2 * np.arctanh(b2) / (4 * g1 * g2 * b1 * b2 * k0)
    require(np.all(np.abs(got - ref) <= 1e-6 * peak), "double boost %s, reference %s", got, ref)
    close(cut(PB.double_boost_delta_function, float(es[0]), e0, m, b1, b2), got[0], 1e-12, "scalar double boost")
    sw = cut(PB.double_boost_delta_function, es, e0, m, b2, b1)
    if m == 0:
        require(np.all(np.abs(got - sw) <= 1e-6 * peak), "order of two averaged boosts of a massless line matters")
    return ["m=0" if m == 0 else "massive"] if np.any(ref > 0) else None


TABLE = st.tuples(st.integers(8, 60), logfl(0.01, 10), fl(0.5, 4), st.lists(fl(0.05, 3), min_size=60, max_size=60), st.booleans())


@oracle(st.tuples(TABLE, st.one_of(fl(0.001, 0.05), fl(0.05, 0.99), fl(0.9, 0.9999)), st.lists(fl(-0.5, 1.2), min_size=1, max_size=5)), quick=600)
def table(case):
    (n, x0, dec, ys, logspaced), beta, us = case
    x = np.geomspace(x0, x0 * 10 ** dec, n) if logspaced else np.linspace(x0, x0 * 10 ** dec, n)
    y = np.array(ys[:n])
    g = 1 / np.sqrt(1 - beta ** 2)
    es = np.array([x0 * 10 ** (dec * u) for u in us])
    got = cut(CB.boost_integrate_linear_interp, es, beta, x, y)
    hit = None
    cy = _cython()
    for i, e in enumerate(es):
        ref = B.table_boost(e, beta, x, y)
        ok = [ref, B.table_boost_dropped_cell(e, beta, x, y), B.table_boost_dropped_cell(e, beta, x, y, 1e-11 * max(x)),
              B.table_boost_dropped_cell(e, beta, x, y, -1e-11 * max(x))]
        for name, v in (("compiled", got[i]), ("cython", None if cy is None else cy(e, beta, x, y))):
            if v is None:
                continue
            sc = 1e-9 * max(abs(o) for o in ok)
            require(any(abs(v - o) <= 1e-9 * abs(o) + sc for o in ok), "table boost (%s) %.10g; exact %.10g, documented dropped-cell value %.10g (E=%g beta=%g)", name, v, ref, ok[1], e, beta)
        if ref > 0:
            hit = "table"
        if g * (1 + beta) * e < x[0]:
            hit = "tail"
    return hit


_CY = {}


def _cython():
    """The Cython twins, through their exported C pointers."""
    if "f" in _CY:
        return _CY["f"]
    try:
        mod = importlib.import_module("hazma._utils.boost")
        caps = mod.__pyx_capi__
        ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
        ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        ctypes.pythonapi.PyCapsule_GetName.restype = ctypes.c_char_p
        ctypes.pythonapi.PyCapsule_GetName.argtypes = [ctypes.py_object]

        def get(name, proto):
            c = caps[name]
            return proto(ctypes.pythonapi.PyCapsule_GetPointer(c, ctypes.pythonapi.PyCapsule_GetName(c)))
        d = ctypes.c_double
        _CY["f"] = get("boost_integrate_linear_interp", ctypes.PYFUNCTYPE(d, d, d, ctypes.py_object, ctypes.py_object))
        _CY["delta"] = get("boost_delta_function", ctypes.PYFUNCTYPE(d, d, d, d, d))
        _CY["eng"] = get("boost_eng", ctypes.PYFUNCTYPE(d, d, d, d, d, d)) if "boost_eng" in caps else None
        _CY["jac"] = get("boost_jac", ctypes.PYFUNCTYPE(d, d, d, d, d, d)) if "boost_jac" in caps else None
    except (ImportError, KeyError):
        _CY["f"] = None
    return _CY["f"]


@oracle(st.tuples(LINE, fl(-1, 1)), quick=400)
def cython_twin(case):
    """The Cython helpers used by the mediator spectra give the same boosts."""
    (m, gap, beta, us), z = case
    if _cython() is None:
        return None
    e0 = m + gap
    g = 1 / np.sqrt((1 - beta) * (1 + beta))
    k0 = np.sqrt(e0 ** 2 - m ** 2)
    a, b = g * (e0 - beta * k0), g * (e0 + beta * k0)
    for u in us:
        e = max(a + (b - a) * (u * 1.2 - 0.1), 0.0)
        if boundary(e, e0, m, beta):
            continue
        close(_CY["delta"](e0, e, m, beta), B.line(e0, e, m, beta), 1e-9 + 4e-15 * g ** 2, "boosted line (Cython)")
    if _CY["eng"] is not None and g < 1e4:
        M = 500.0
        ed = e0
        v = _CY["eng"](g * M, M, ed, m, z)
        close(v, g * (ed + beta * k0 * z), 1e-6 if g > 100 else 1e-9, "boosted energy (Cython)", scale=1e-6 * g * ed)
        if m == 0 and g < 100:
            close(_CY["jac"](g * M, M, ed, 0.0, z), 1 / (g * (1 + beta * z)), 1e-7, "boost Jacobian (Cython)")
    return True


@finding("boost-table-dropped-cell")
def _f1():
    x = np.linspace(1.0, 10.0, 10)
    y = np.ones(10)
    v = CB.boost_integrate_linear_interp(4.0, 0.4, x, y)
    return abs(v - B.table_boost(4.0, 0.4, x, y)) > 1e-6
