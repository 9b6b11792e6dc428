"""Splitting-function spectra at generated charges, masses, invariant masses and energies (below, at and beyond the end point) against
the closed form.  Matrix-element spectra with generated masses and generated Lorentz-invariant radiative matrix elements (constants,
polynomials, collinear poles, true soft factors) against an independent Dalitz integral (two-body) or exact phase-space moments
(Monte Carlo, 7 sigma); rescaling, linearity, photon-energy support, error and seed relations."""
import math
import warnings
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl, signed, seeds, mass_patterns
from ref import ps as R
from hazma import spectra as S
from hazma.spectra import altarelli_parisi as AP
from hazma.hazma_errors import RamboCMETooSmall
from hazma import utils as U
from hazma.utils import ldot

ALPHA = 1 / 137.036
ASSUMPTIONS = ["fine-structure constant 1/137.04 or 1/137.036 (relative tolerance 1e-4)"]


# ------------------------------------------------------------------ splitting functions
@oracle(st.tuples(logfl(0.3, 2e4), logfl(2.0, 1e5), signed(fl(0.1, 3)), st.booleans(),
                  st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "edge", "out"])), min_size=1, max_size=10)), quick=1500)
def splitting(case):
    m, ratio, q, scalar, us = case
    Q = m * ratio
    s = Q * Q
    xmax = 1 - math.e * m * m / s
    x = np.array([10 ** (-8 * u) * max(xmax, 0.01) if k == "log" else u if k == "lin" else xmax * (1 + (u - 0.5) * 1e-3) if k == "edge" else 1 + u for u, k in us])
    x = np.maximum(x, 1e-9)
    f = S.dnde_photon_ap_scalar if scalar else S.dnde_photon_ap_fermion
    fx = AP.dndx_photon_ap_scalar if scalar else AP.dndx_photon_ap_fermion
    e = x * Q / 2
    keep = e.copy()
    got = cut(f, e, s, m, charge=q)
    require(np.array_equal(e, keep), "input modified")
    require(got.shape == e.shape, "shape")
    xx = 2 * e / Q
    P = 2 * (1 - xx) / xx if scalar else (1 + (1 - xx) ** 2) / xx
    with np.errstate(all="ignore"):
        L = np.log(s * (1 - xx) / m ** 2) - 1
    ex = np.where((xx < 1) & (L > 0), q * q * ALPHA / (2 * np.pi) * P * np.where((xx < 1) & (L > 0), L, 0), 0) * 2 / Q
    near = np.abs(np.where(np.isfinite(L), L, 1)) < 1e-9 + 1e-15 * s / m ** 2
    finite_nonneg(got, "splitting-function spectrum")
    require(np.all(got[xx >= 1] == 0), "photons with x >= 1")
    rnd = 4e-16 / np.maximum(1 - xx, 1e-16) * (1 + 1 / np.maximum(np.where(np.isfinite(L), L, 1), 1e-16))    # relative rounding of 1-x and of L
    near |= rnd > 1e-5
    close(np.where(near, 0, got), np.where(near, 0, ex), 1e-4, "leading-log spectrum", scale=q * q * ALPHA / Q * 1e-6)
    # the same constant everywhere: ratio to the closed form is one number
    nz = (ex > 0) & ~near & (L > 1e-3)
    if nz.sum() >= 2:
        r = got[nz] / ex[nz]
        close(r, np.full(r.shape, r[0]), 1e-9 + 2 * rnd[nz].max(), "spectrum shape")
    close(cut(f, e, s, m, charge=-2 * q), 4 * got, 1e-12, "charge squared scaling")
    close(cut(f, e, s, m), got / q ** 2, 1e-12, "default charge is one")
    close(cut(fx, xx, s, m, charge=q) * 2 / Q, got, 1e-10, "dN/dx vs dN/dE", scale=q * q * ALPHA / Q * (1 + 1e-5 * s / m ** 2 * 1e-1))
    # the deprecated utilities count both legs of a unit-charge pair
    old = U.dnde_altarelli_parisi_scalar if scalar else U.dnde_altarelli_parisi_fermion
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = np.asarray(cut(old, e, Q, m), float)
        close(float(cut(old, float(e[0]), Q, m)), float(o[0]), 1e-12, "deprecated spectrum at one energy")
    close(np.where(near, 0, o), np.where(near, 0, 2 * ex / q ** 2), 1e-4, "deprecated splitting-function spectrum", scale=ALPHA / Q * 1e-6)
    k = 3.7
    close(cut(f, e * k, s * k * k, m * k, charge=q) * k, got, 1e-6, "dimensional scaling", scale=np.maximum(1e-6 * abs(ex).max(), q * q * ALPHA / Q) * k)
    return "scalar" if scalar else "fermion"


# ------------------------------------------------------------------ matrix elements
def dots(mom):
    return ldot(mom[:, 0], mom[:, 1]), ldot(mom[:, 0], mom[:, -1]), ldot(mom[:, 1], mom[:, -1])


def make_rad(kind, c, m1, m2, Q):
    """A radiative matrix element as function of (p1.p2, p1.k, p2.k); dimensionless in units of Q."""
    q2 = Q * Q
    if kind == "const":
        return lambda a, b, d: c[0] + 0 * a
    if kind == "poly":
        return lambda a, b, d: c[0] + c[1] * b / q2 + c[2] * (d / q2) ** 2 + c[3] * a * b / q2 ** 2
    if kind == "pole":
        return lambda a, b, d: c[0] * q2 / b + c[1] * q2 / d + c[2]
    # eikonal factor of a charged pair times a polynomial
    return lambda a, b, d: c[0] * (2 * a / (b * d) - m1 * m1 / b ** 2 - m2 * m2 / d ** 2) * q2 + c[1] * b / q2


def ref_two_body(E, Q, m1, m2, f):
    """dI_rad/dE = int dPhi_3 delta(E) f / (Phi_2 M0^2): Dalitz strip at fixed s12, integrated over p1.k."""
    s = Q * Q
    s12 = s - 2 * Q * E
    if E <= 0 or s12 <= (m1 + m2) ** 2:
        return 0.0
    r = math.sqrt(s12)
    e1 = (s12 + m1 ** 2 - m2 ** 2) / (2 * r)
    p = float(R.pcm(r, m1, m2))
    k = E * Q / r
    lo, hi = k * (e1 - p), k * (e1 + p)          # p1.k
    if m1 > 0:
        lo = k * m1 * m1 / (e1 + p)
    tot_k = (s - s12) / 2                        # (p1+p2).k
    # substitute y = log(p1.k/(tot-p1.k)), resolving both collinear peaks
    e2 = r - e1
    lo2 = k * (m2 * m2 / (e2 + p) if m2 > 0 else e2 - p)   # smallest p2.k
    if lo <= 0 or lo2 <= 0:
        x, w = R.gl(64)
        b = 0.5 * (lo + hi) + 0.5 * (hi - lo) * x
        return float(np.sum(w * 0.5 * (hi - lo) * f((s12 - m1 ** 2 - m2 ** 2) / 2, b, tot_k - b))) * 4 * Q / (128 * np.pi ** 3 * s)
    ya, yb = math.log(lo / (tot_k - lo)), math.log((tot_k - lo2) / lo2)
    x, w = R.gl(40)
    tot = 0.0
    pan = np.linspace(ya, yb, 9)
    for u, v in zip(pan[:-1], pan[1:]):
        y = 0.5 * (u + v) + 0.5 * (v - u) * x
        z = 1 / (1 + np.exp(-y))
        b = tot_k * z
        tot += np.sum(w * 0.5 * (v - u) * f((s12 - m1 ** 2 - m2 ** 2) / 2, b, tot_k / (1 + np.exp(y))) * b / (1 + np.exp(y)))
    # dPhi3/dE = 1/(128 pi^3 s) * 2 Q ds_{1k}, ds_{1k} = 2 d(p1.k)
    return float(tot) * 2 * 2 * Q / (128 * np.pi ** 3 * s)


@st.composite
def two(draw):
    Q = draw(logfl(5.0, 5e3))
    kind = draw(st.sampled_from(["const", "poly", "pole", "eikonal", "eikonal"]))
    lowest = 1e-3
    m1 = draw(fl(lowest, 0.6)) * Q if draw(st.booleans()) else draw(logfl(lowest, 0.3)) * Q
    m2 = m1 if draw(st.booleans()) else draw(fl(lowest, 0.38)) * Q
    if kind in ("const", "poly") and draw(st.booleans()):
        m1 = draw(st.sampled_from([0.0, m1]))
    if m1 + m2 > 0.97 * Q:
        m1, m2 = 0.3 * Q, 0.3 * Q
    return dict(Q=Q, m1=m1, m2=m2, kind=kind, c=[draw(fl(0.1, 3)) for _ in range(4)], m0=draw(logfl(1e-3, 1e3)),
                us=draw(st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "out", "edge"])), min_size=1, max_size=4)),
                lam=draw(logfl(1e-6, 1e6)), seed=draw(seeds()))


def photon_energies(us, emax):
    return np.array([emax * 10 ** (-5 * u) * 0.999 if k == "log" else emax * (0.001 + 0.998 * u) if k == "lin" else emax * (1 + u) if k == "out" else -emax * u if u < 0.3 else emax * (1 - 3e-4 * u)
                     for u, k in us])


@oracle(two(), quick=250)
def two_body_quad(case):
    Q, m1, m2 = case["Q"], case["m1"], case["m2"]
    f = make_rad(case["kind"], case["c"], m1, m2, Q)
    rad = lambda mom: f(*dots(mom))
    non = lambda mom: case["m0"] * np.ones(mom.shape[2:]) if mom.ndim == 3 else case["m0"]
    emax = (Q * Q - (m1 + m2) ** 2) / (2 * Q)
    es = photon_energies(case["us"], emax)
    sp = cut(S.dnde_photon_fsr, es, Q, [m1, m2], rad, non)
    require(sp.dnde.shape == es.shape and sp.error.shape == es.shape, "shape")
    i0 = case["m0"] * float(R.phi2(Q, m1, m2))
    ex = np.array([ref_two_body(e, Q, m1, m2, f) for e in es]) / i0
    finite_nonneg(sp.dnde, "FSR spectrum", 1e-30)
    require(np.all(sp.dnde[(es <= 0) | (es >= emax * (1 + 1e-12))] == 0), "photons outside (0, e_max)")
    edge = np.abs(es / emax - 1) * (1 - ((m1 + m2) / Q) ** 2) < 2e-5
    close(np.where(edge, 0, sp.dnde), np.where(edge, 0, ex), 2e-6, "photon spectrum (%s)" % case["kind"])
    require(np.all(sp.error >= 0) and np.all(sp.error <= 1e-5 * np.abs(sp.dnde) + 1e-300), "quadrature error estimate %s for %s", sp.error, sp.dnde)
    # scalar call, rescaling, linearity, order of the particles
    e = float(es[0])
    one = cut(S.dnde_photon_fsr, e, Q, [m1, m2], rad, non)
    require(np.isscalar(one.dnde) and abs(one.dnde - sp.dnde[0]) <= 1e-12 * abs(sp.dnde[0]), "scalar call differs")
    if edge[0]:
        return case["kind"]
    lam = case["lam"]
    resc = cut(S.dnde_photon_fsr, e, Q, [m1, m2], lambda mom: lam * rad(mom), lambda mom: lam * non(mom)).dnde
    close(resc, one.dnde, 1e-7, "common rescaling")
    g = lambda mom: lam * rad(mom) + 2.0
    lin = cut(S.dnde_photon_fsr, e, Q, [m1, m2], g, non).dnde
    flat = cut(S.dnde_photon_fsr, e, Q, [m1, m2], lambda mom: 2.0, non).dnde
    close(lin, lam * one.dnde + flat, 1e-6, "linearity in the radiative matrix element")
    swapped = cut(S.dnde_photon_fsr, e, Q, [m2, m1], lambda mom: f(*[dots(mom)[i] for i in (0, 2, 1)]), non).dnde
    close(swapped, one.dnde, 1e-6, "order of the particles")
    return [case["kind"], "massless" if min(m1, m2) == 0 else "massive"]


@oracle(two(), quick=80)
def two_body_rambo(case):
    """The Monte-Carlo backend agrees with the exact result within its error; the seed fixes it."""
    if case["kind"] in ("pole", "eikonal"):
        case = dict(case, kind="poly")
    Q, m1, m2 = case["Q"], case["m1"], case["m2"]
    f = make_rad(case["kind"], case["c"], m1, m2, Q)
    rad = lambda mom: f(*dots(mom))
    non = lambda mom: case["m0"] * np.ones(mom.shape[2:]) if mom.ndim == 3 else case["m0"]
    emax = (Q * Q - (m1 + m2) ** 2) / (2 * Q)
    es = photon_energies(case["us"][:2], emax)
    a = cut(S.dnde_photon_fsr, es, Q, [m1, m2], rad, non, method="rambo", npts=3000, seed=case["seed"])
    b = cut(S.dnde_photon_fsr, es, Q, [m1, m2], rad, non, method="rambo", npts=3000, seed=case["seed"])
    require(np.array_equal(a.dnde, b.dnde, equal_nan=True) and np.array_equal(a.error, b.error, equal_nan=True), "same seed, different spectrum")
    ex = np.array([ref_two_body(e, Q, m1, m2, f) for e in es]) / (case["m0"] * float(R.phi2(Q, m1, m2)))
    edge = np.abs(es / emax - 1) < 1e-4
    ex = np.where(edge, a.dnde, ex)
    require(np.all(edge | (np.abs(a.dnde - ex) <= 7 * a.error + 3e-4 * ex)), "Monte-Carlo %s +- %s, exact %s", a.dnde, a.error, ex)
    require(np.all(edge | (a.error <= 0.2 * ex + 1e-300)), "error estimate %s of %s", a.error, ex)
    return case["kind"]


@oracle(st.tuples(mass_patterns(3, 5, 0.9), seeds(), st.lists(fl(0.01, 0.95), min_size=1, max_size=2), st.integers(0, 2), st.lists(fl(0.2, 3), min_size=3, max_size=3)), quick=60)
def many_body(case):
    """n >= 3 charged particles: photon at E leaves an n-body system of invariant mass sqrt(s - 2 sqrt(s) E)."""
    mp, seed, us, kind, c = case
    Q, ms = mp["cme"], mp["masses"]
    n = len(ms)
    emax = (Q * Q - sum(ms) ** 2) / (2 * Q)
    es = np.array([u * emax for u in us])
    if kind == 0:
        rad = lambda mom: c[0] * np.ones(mom.shape[2:])
    elif kind == 1:
        rad = lambda mom: c[0] * ldot(mom[:, 0], mom[:, -1]) / Q ** 2
    else:
        rad = lambda mom: c[0] * (ldot(mom[:, 1], mom[:, -1]) / Q ** 2) + c[1]
    non = lambda mom: c[2] * np.ones(mom.shape[2:]) if mom.ndim == 3 else c[2]
    N = 4000
    a = cut(S.dnde_photon_fsr, es, Q, ms, rad, non, npts=N, seed=seed)
    i0 = c[2] * float(R.volume(np.array(Q), ms))
    ex = []
    for e in es:
        r = math.sqrt(Q * Q - 2 * Q * e)
        k = e * Q / r
        v = float(R.volume(np.array(r), ms))
        if kind == 0:
            t = c[0] * v
        else:
            me, _ = R.moment_energy(r, ms, 0 if kind == 1 else 1, 1, 24)
            t = (c[0] * k * me / Q ** 2 + (c[1] if kind == 2 else 0)) * v     # <p.k> = k <E> by isotropy
        ex.append(e / (4 * np.pi ** 2) * t / i0)
    ex = np.array(ex)
    require(np.all(np.abs(a.dnde - ex) <= 7 * a.error + 3e-3 * ex), "n=%d kind=%d: %s +- %s, exact %s", n, kind, a.dnde, a.error, ex)
    require(np.all(a.error < 0.25 * ex), "error estimate %s of %s", a.error, ex)
    out = cut(S.dnde_photon_fsr, np.array([-1.0, 0.0, emax * 1.0001, Q]), Q, ms, rad, non, npts=16, seed=seed)
    require(np.all(out.dnde == 0), "photons outside (0, e_max)")
    return ["n=%d" % n, "kind=%d" % kind]


@oracle(st.tuples(logfl(1, 1e3), fl(0.1, 0.9), fl(0.1, 0.9), st.lists(fl(0.2, 3), min_size=4, max_size=4), fl(0.02, 0.98)), quick=15)
def nonradiative_dalitz(case):
    """Three-body denominators use the user's non-radiative matrix element: ratio of two spectra equals the ratio of Dalitz integrals."""
    Q, r1, r2, c, u = case
    ms = [0.3 * r1 * Q, 0.3 * r2 * Q, 0.2 * Q]
    emax = (Q * Q - sum(ms) ** 2) / (2 * Q)
    rad = lambda mom: np.ones(mom.shape[2:])
    q2 = Q * Q

    def non(mom):
        return c[0] + c[1] * ldot(mom[:, 1], mom[:, 2]) / q2 + c[2] * ldot(mom[:, 0], mom[:, 2]) / q2 * c[3]
    a = cut(S.dnde_photon_fsr, u * emax, Q, ms, rad, non, npts=32, seed=1, epsrel=1e-6).dnde
    b = cut(S.dnde_photon_fsr, u * emax, Q, ms, rad, lambda mom: 1.0 + 0 * mom[0, 0], npts=32, seed=1, epsrel=1e-6).dnde
    ref = R.dalitz(Q, ms, lambda s, t: c[0] + c[1] * (s - ms[1] ** 2 - ms[2] ** 2) / 2 / q2 + c[2] * c[3] * (t - ms[0] ** 2 - ms[2] ** 2) / 2 / q2)
    vol = R.dalitz(Q, ms, lambda s, t: 1 + 0 * s)
    close(b / a, ref / vol, 1e-5, "non-radiative three-body integral")
    return True


@oracle(st.tuples(st.integers(2, 5), logfl(1, 1e4), st.lists(fl(0, 1), min_size=6, max_size=6), st.lists(fl(0.002, 0.998), min_size=1, max_size=3), seeds(), st.booleans()), quick=60)
def momenta(case):
    """Every configuration handed to the user's matrix elements is a physical one: on-shell particles in the given order, the photon last,
    light-like and of the requested energy, the total invariant mass equal to the centre-of-mass energy; the elements may use any
    Lorentz invariant, so each is checked, not only those a particular element reads."""
    n, Q, rs, us, seed, quad = case
    ms = np.array([0.9 * Q * r / (1e-9 + sum(rs[:n])) * rs[5] for r in rs[:n]])
    if n > 2:
        quad = False
    emax = (Q * Q - ms.sum() ** 2) / (2 * Q)
    seen = {"rad": 0, "non": 0}
    now = []

    def inspect(mom, k, name, e=None):
        mom = np.asarray(mom)
        require(mom.ndim in (2, 3) and mom.shape[:2] == (4, k), "%s matrix element called with shape %s", name, mom.shape)
        p = mom.reshape(4, k, -1).astype(float)
        seen[name] += 1
        tot = p.sum(axis=1)
        ref = tot[0].max() ** 2
        m2 = p[0] ** 2 - (p[1:] ** 2).sum(axis=0)
        want = np.append(ms, 0.0) if k == n + 1 else ms
        require(np.all(np.abs(m2 - want[:, None] ** 2) <= 1e-9 * ref), "%s momenta off shell: m^2 = %s for masses %s", name, m2[:, 0], want)
        require(np.all(p[0] >= 0), "negative energies")
        s = tot[0] ** 2 - (tot[1:] ** 2).sum(axis=0)
        require(np.all(np.abs(s - Q * Q) <= 1e-9 * (Q * Q + ref)), "%s momenta of invariant mass^2 %s instead of %s", name, s[0], Q * Q)
        if k == n + 1:
            q = p[:, :-1].sum(axis=1)
            require(np.all(np.abs(q[1:]) <= 1e-8 * q[0] + 1e-8 * tot[0]), "not in the rest frame of the non-photon system: %s", q[:, 0])
            # photon energy in the centre-of-mass frame, k.P/sqrt(s)
            kp = (p[0, -1] * tot[0] - (p[1:, -1] * tot[1:]).sum(axis=0)) / Q
            close(kp, np.full(kp.shape, e), 1e-9, "photon energy in the configuration", scale=1e-9 * ref / Q)

    def rad(mom):
        inspect(mom, n + 1, "rad", now[0])
        return np.ones(np.shape(mom)[2:]) if np.ndim(mom) == 3 else 1.0

    def non(mom):
        inspect(mom, n, "non")
        return np.ones(np.shape(mom)[2:]) if np.ndim(mom) == 3 else 1.0
    for u in us:
        now[:] = [u * emax]
        cut(S.dnde_photon_fsr, u * emax, Q, list(ms), rad, non, method="quad" if quad else "rambo", npts=60, seed=seed, epsrel=1e-4)
    require(seen["rad"] and seen["non"], "matrix elements not used")
    return ["n=%d" % n, "quad" if quad else "rambo"]


def raises(exc, fn, what):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        require(False, "%s raised %s instead of %s", what, type(e).__name__, exc)
    require(False, "%s accepted", what)


@oracle(st.tuples(logfl(1, 1e3), st.integers(0, 5), st.integers(2, 4)), quick=60)
def rejected(case):
    Q, k, n = case
    one = lambda mom: np.ones(mom.shape[2:])
    ms = [0.5 * Q / n] * n
    f = S.dnde_photon_fsr
    if k == 0:
        raises(ValueError, lambda: f(0.1 * Q, Q, [0.1 * Q], one, one), "single particle")
    elif k == 1:
        raises(RamboCMETooSmall, lambda: f(0.1 * Q, Q, [Q / n * 1.01] * n, one, one), "below threshold")
    elif k == 2:
        raises(ValueError, lambda: f(0.1 * Q, Q, ms, one, one, method="nope"), "unknown method")
    elif k == 3:
        raises(ValueError, lambda: f(0.1 * Q, Q, [0.1 * Q] * max(n, 3), one, one, method="quad"), "quadrature for many bodies")
    elif k == 4:
        raises(ValueError, lambda: f(0.1 * Q, Q, ms, one, one, method="rambo", npts=1), "one Monte-Carlo point")
    else:
        raises(ValueError, lambda: f(0.1 * Q, Q, [0.1 * Q, 0.2 * Q], one, lambda mom: 0.0), "vanishing non-radiative matrix element")
    return "k=%d" % k
