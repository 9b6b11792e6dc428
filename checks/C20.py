"""All 20 vector form-factor classes: generated quark couplings, energies (below, at, just above threshold, on resonances, far above),
scalars and shuffled arrays.  Oracles: own implementation of each form factor, linearity in the couplings and isospin selection, own
two-body / Dalitz / four-body phase-space integrals of |form factor|^2, width and cross-section relations, own marginals for the energy
and invariant-mass distributions."""
import math
import numpy as np
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl, signed
from checks import ffref as R
from hazma.form_factors import vector as V

ASSUMPTIONS = ["fit constants of the form factors are taken as given (they are the published fits)",
               "alpha_em is taken constant in the pi0 gamma form factor (2 % band)",
               "Monte-Carlo integrals are compared within 6-10 %"]

_OBJ = {}


def obj(n):
    if n not in _OBJ:
        _OBJ[n] = getattr(V, "VectorFormFactor" + n)()
    return _OBJ[n]


COUP = st.lists(st.one_of(signed(logfl(1e-3, 3)), signed(logfl(1e-3, 3)), signed(logfl(1e-3, 3)), st.just(0.0)), min_size=3, max_size=3)
LAM = signed(logfl(1e-2, 10))
# energy in units of the threshold: 1 + x, negative = below; or a multiple of a resonance mass
QX = st.one_of(logfl(1e-5, 0.1), logfl(0.05, 2.5), logfl(0.05, 2.5), fl(-0.95, -1e-6), st.just(0.0))
RES = [770.0, 782.65, 1019.4, 1465.0, 1700.0, 2120.0]
Q2S = st.one_of(QX.map(lambda x: ["t", x]), QX.map(lambda x: ["t", x]), st.tuples(st.sampled_from(RES), fl(-0.02, 0.02)).map(lambda t: ["r", t[0] * (1 + t[1])]))


def energy(q, thr):
    return thr * (1 + q[1]) if q[0] == "t" else q[1]


def ref2(n, q, c):
    m, f, _ = R.TWO[n]
    return complex(f(q, c)) if q > sum(m) * (1 + 1e-12) else 0j


def away(qs, thr):
    """energies exactly at threshold (to rounding) are not judged"""
    return [q for q in qs if abs(q - thr) > 1e-9 * thr]


@oracle(st.tuples(st.lists(Q2S, min_size=1, max_size=6), COUP), quick=60, params=list(R.TWO))
def two_body_form_factor(case, n):
    qs, c = case
    thr = sum(R.TWO[n][0])
    qs = away([energy(q, thr) for q in qs], thr)
    if not qs:
        return None
    o = obj(n)
    require(tuple(np.round(o.fsp_masses, 6)) == tuple(np.round(R.TWO[n][0], 6)), "%s: final-state masses %r", n, o.fsp_masses)
    ref = np.array([ref2(n, q, c) for q in qs])
    arr = cut(o.form_factor, q=np.array(qs), couplings=tuple(c))
    require(np.shape(arr) == (len(qs),), "%s: an array of %d energies gives shape %r", n, len(qs), np.shape(arr))
    sc = np.array([cut(o.form_factor, q=float(q), couplings=tuple(c)) for q in qs])
    tol = 2e-2 if n == "Pi0Gamma" else 1e-8
    size = np.max(np.abs(ref)) if len(ref) else 0.0
    for lab, got in (("array", arr), ("scalar", sc)):
        for part in (np.real, np.imag):
            s = np.abs(ref) + 1e-300
            close(part(got), part(ref), tol, "%s form factor (%s energies)" % (n, lab), scale=s, ctx=qs)
    for a, b, q in zip(arr, sc, qs):
        require(abs(a - b) <= 1e-12 * abs(b), "%s form factor at %g MeV: array %r, scalar %r", n, q, complex(a), complex(b))
        if q < thr:
            require(a == 0 and b == 0, "%s form factor %r below threshold", n, complex(a))
    return "%s:%s" % (n, "zero" if size == 0 else "nonzero")


def call3(o, kind, q, s, t, c):
    a = dict(PPP=(q, s, t), PPP2=(q, s), PPV=(q,))[kind]
    return cut(o.form_factor, *a, couplings=tuple(c))


@oracle(st.tuples(QX, fl(0.01, 0.99), st.lists(fl(0.01, 0.99), min_size=1, max_size=4), COUP), quick=60, params=list(R.THREE))
def three_body_form_factor(case, n):
    x, us, ut, c = case
    m, f, kind, _ = R.THREE[n]
    thr = sum(m)
    q = thr * (1 + x)
    o = obj(n)
    require(tuple(np.round(o.fsp_masses, 6)) == tuple(np.round(m, 6)), "%s: final-state masses %r", n, o.fsp_masses)
    if abs(x) < 1e-9:
        return None
    if x < 0:
        got = call3(o, kind, q, (0.4 * q)**2 + m[1]**2, (0.3 * q)**2 + m[0]**2, c)
        require(got == 0, "%s form factor %r at %g MeV, below its threshold %g", n, got, q, thr)
        w = [cut(getattr(o, k), couplings=tuple(c), **a) for k, a in (("integrated_form_factor", dict(q=q)), ("width", dict(mv=q)),
                                                                      ("cross_section", dict(q=q, mx=q / 5, mv=300.0, gvxx=1.0, wv=1.0)))]
        require(w == [0, 0, 0], "%s integral, width, cross section %r below threshold", n, w)
        return "below"
    s0, s1 = (m[1] + m[2])**2, (q - m[0])**2
    s = np.array([s0 + us * (s1 - s0)] * len(ut))
    rs = np.sqrt(s)
    mid = m[0]**2 + m[2]**2 + 2 * (q * q - s - m[0]**2) / (2 * rs) * (s + m[2]**2 - m[1]**2) / (2 * rs)
    half = 2 * np.sqrt(R.lam(rs, m[1], m[2]) * R.lam(q, rs, m[0])) / (4 * s)
    t = mid + half * (2 * np.array(ut) - 1)
    ref = np.array(f(q, s, t, c)) + np.zeros(len(s))
    sc = np.array([call3(o, kind, q, float(a), float(b), c) for a, b in zip(s, t)])
    arr = np.asarray(call3(o, kind, q, s, t, c)) + np.zeros(len(s))
    for lab, got in (("scalar", sc), ("array", arr)):
        for part in (np.real, np.imag):
            close(part(got), part(ref), 1e-8, "%s form factor (%s invariants)" % (n, lab), scale=np.abs(ref) + 1e-300, ctx=(q, s, t))
    L = np.array([cut(o.squared_lorentz_structure, q, float(a), float(b)) for a, b in zip(s, t)])
    ref = R.lor3(kind, q, m, s, t)
    big = np.max(R.lor3(kind, q, m, *R.dalitz(q, m, 8)[:2]))
    close(L, ref, 1e-6 + 3e-11 / x**2, "%s squared Lorentz structure" % n, scale=big, ctx=(q, s, t))
    if kind == "PPV":
        qs = np.array([q, 0.9 * thr, 1.3 * q, 1.7 * q])[:1 + len(ut)]
        got = cut(o.form_factor, qs, couplings=tuple(c))
        one = np.array([cut(o.form_factor, float(v), couplings=tuple(c)) for v in qs])
        require(np.shape(got) == qs.shape and np.all(np.abs(got - one) <= 1e-12 * np.abs(one)), "%s form factor of an array of energies %r, one by one %r", n, got, one)
    return kind


@oracle(st.tuples(logfl(1e-3, 2), COUP, COUP, LAM, LAM, fl(0.1, 0.9), fl(0.1, 0.9)), quick=25, params=list(R.TWO) + list(R.THREE))
def linear(case, n):
    """the amplitude is linear in the couplings and sees only the isospin combinations the final state allows"""
    x, c1, c2, a, b, us, ut = case
    m = (R.TWO.get(n) or R.THREE[n])[0]
    q = sum(m) * (1 + x)
    o = obj(n)
    if n in R.TWO:
        F = lambda c: complex(cut(o.form_factor, q=q, couplings=tuple(c)))
    else:
        kind = R.THREE[n][2]
        s0, s1 = (m[1] + m[2])**2, (q - m[0])**2
        s = s0 + us * (s1 - s0)
        rs = math.sqrt(s)
        t = m[0]**2 + m[2]**2 + (q * q - s - m[0]**2) * (s + m[2]**2 - m[1]**2) / (2 * s) + (2 * ut - 1) * math.sqrt(R.lam(rs, m[1], m[2]) * R.lam(q, rs, m[0])) / (2 * s)
        F = lambda c: complex(call3(o, kind, q, s, t, c))
    f1, f2 = F(c1), F(c2)
    f3 = F([a * u + b * v for u, v in zip(c1, c2)])
    base = sum(abs(F([float(i == j) for j in range(3)])) for i in range(3))      # size of the amplitude per unit coupling
    big = base * max(abs(a * u) + abs(b * v) for u, v in zip(c1, c2))
    require(abs(f3 - a * f1 - b * f2) <= 1e-10 * big + 1e-300, "%s at %g MeV: ff(a c1 + b c2) = %r, a ff(c1) + b ff(c2) = %r", n, q, f3, a * f1 + b * f2)
    only = R.ONLY.get(n)
    if only:
        k = sum(u * v for u, v in zip(only, c1)) / sum(u * u for u in only)
        f4 = F([k * u for u in only])
        require(abs(f4 - f1) <= 1e-10 * base * max(map(abs, c1)) + 1e-300, "%s depends on couplings other than the %r combination: %r vs %r", n, only, f1, f4)
    return "amp" if abs(f3) > 0 else "zero"


@oracle(st.tuples(st.lists(Q2S, min_size=1, max_size=4), COUP, logfl(0.01, 2), logfl(1e-3, 1), signed(logfl(0.01, 3)), fl(0.2, 1.2)), quick=60, params=list(R.TWO))
def two_body_integrals(case, n):
    """integral, width and cross section against |form factor|^2 and own two-body phase space"""
    qs, c, rmv, rw, g, rmx = case
    thr = sum(R.TWO[n][0])
    qs = away([energy(q, thr) for q in qs], thr)
    if not qs:
        return None
    o, c = obj(n), tuple(c)
    mv, mx = thr * (1 + rmv), 0.5 * thr * rmx * (1 + rmv)
    wv = mv * rw
    q = np.array(qs)
    q = q[np.abs(q - 2 * mx) > 1e-9 * mx]
    if not len(q):
        return None
    F = np.array([cut(o.form_factor, q=np.array([float(v)]), couplings=c)[0] for v in q])
    I = np.array([R.int2(n, float(v), f) for v, f in zip(q, F)])
    tol = 1e-8 + 1e-11 / np.min(np.abs(q / thr - 1))
    got = cut(o.integrated_form_factor, q=q, couplings=c)
    close(got, I, tol, "%s integrated form factor" % n, ctx=list(q))
    close([cut(o.integrated_form_factor, q=float(v), couplings=c) for v in q], I, tol, "%s integrated form factor (scalar)" % n, ctx=list(q))
    close(cut(o.width, mv=q, couplings=c), 0.5 * q * I, tol, "%s mediator width" % n, ctx=list(q))
    close([cut(o.width, mv=float(v), couplings=c) for v in q], 0.5 * q * I, tol, "%s mediator width (scalar)" % n, ctx=list(q))
    X = xsec(q, mx, mv, g, wv) * 0.5 * q * I
    kw = dict(mx=mx, mv=mv, gvxx=g, wv=wv, couplings=c)
    tol += 1e-12 / np.min(np.abs(q / (2 * mx) - 1))
    close(cut(o.cross_section, q=q, **kw), X, tol, "%s annihilation cross section" % n, ctx=list(q))
    close([cut(o.cross_section, q=float(v), **kw) for v in q], X, tol, "%s annihilation cross section (scalar)" % n, ctx=list(q))
    return "open" if np.any(X > 0) else "closed"


def xsec(q, mx, mv, g, wv):
    """sigma(xbar x -> V*) over (q/2 * integrated form factor)"""
    s = q * q
    d = np.where(s > 4 * mx * mx, s - 4 * mx * mx, np.inf)
    return g * g * (s + 2 * mx * mx) / (np.sqrt(d) * ((s - mv * mv)**2 + (mv * wv)**2))


X3 = logfl(2e-3, 1.5)


@oracle(st.tuples(X3, COUP, signed(logfl(0.1, 3)), fl(0.1, 1.3), logfl(0.3, 3), logfl(1e-3, 0.3)), quick=4, thorough=40, params=list(R.THREE))
def three_body_integrals(case, n):
    x, c, g, rmx, rmv, rw = case
    m, _, kind, pre = R.THREE[n]
    q, o, c = sum(m) * (1 + x), obj(n), tuple(c)
    S, T, W = R.dalitz(q, m, 120)
    F = np.empty_like(S, dtype=complex)
    for i in range(len(S)):
        F[i] = call3(o, kind, q, S[i], T[i], c)
    ref = pre * np.sum(W * R.lor3(kind, q, m, S, T) * np.abs(F)**2)
    quad = dict(method="quad") if kind == "PPP" else {}
    ways = [("default", {})] + ([("quad", dict(method="quad")), ("rambo", dict(method="rambo"))] if n == "PiPiPi0" else [("rambo", dict(method="rambo"))] if kind == "PPP" else [])
    for lab, kw in ways:
        mc = kind == "PPP" and (lab == "rambo" or (lab == "default" and n == "PiPiPi0"))
        got = cut(o.integrated_form_factor, q=q, couplings=c, **kw)
        close(got, ref, 0.1 if mc else 3e-3, "%s integrated form factor (%s) at %g MeV" % (n, lab, q))
        if lab != "rambo" and not mc:
            close(cut(o.integrated_form_factor, q=int(q) + 1, couplings=c, **kw), cut(o.integrated_form_factor, q=float(int(q) + 1), couplings=c, **kw), 1e-12,
                  "%s integrated form factor of an integer energy" % n)
    arr = np.array([q, 0.7 * sum(m), q])
    two = cut(o.integrated_form_factor, q=arr, couplings=c, **quad)
    close(two, [ref, 0, ref], 3e-3, "%s integrated form factor of an array" % n)
    close(cut(o.width, mv=arr, couplings=c, **quad), 0.5 * arr * two, 1e-9, "%s mediator width" % n)
    close(cut(o.width, mv=q, couplings=c, **quad), 0.5 * q * ref, 3e-3, "%s mediator width (scalar)" % n)
    mx, mv = 0.5 * q * rmx, q * rmv
    kw = dict(mx=mx, mv=mv, gvxx=g, wv=mv * rw, couplings=c)
    fac = xsec(np.array([q]), mx, mv, g, mv * rw)[0] * 0.5 * q
    if abs(q - 2 * mx) > 1e-6 * q:
        close(cut(o.cross_section, q=q, **kw, **quad), fac * ref, 3e-3, "%s annihilation cross section" % n)
        close(cut(o.cross_section, q=arr, **kw, **quad), [fac * ref, 0, fac * ref], 3e-3, "%s annihilation cross section (array)" % n)
    return kind if ref > 0 else "zero"


def marginal(o, kind, q, m, c, i, E):
    """unnormalised dN/dE_i at the energies E"""
    j, k = [(1, 2), (0, 2), (0, 1)][i]
    M2 = q * q + m[i]**2 - 2 * q * E
    M = np.sqrt(M2)
    x, w = np.polynomial.legendre.leggauss(64)
    ek, ei = (M2 + m[k]**2 - m[j]**2) / (2 * M), (q * q - M2 - m[i]**2) / (2 * M)
    pk, p = np.sqrt(np.maximum(R.lam(M, m[j], m[k]), 0)) / (2 * M), np.sqrt(np.maximum(R.lam(q, M, m[i]), 0)) / (2 * M)
    other = (m[i]**2 + m[k]**2 + 2 * ei * ek)[:, None] + (2 * p * pk)[:, None] * x      # (p_i + p_k)^2
    inv = {i: M2[:, None] + 0 * other, j: other}
    tot = q * q + sum(v * v for v in m)
    inv[k] = tot - inv[i] - inv[j]
    s, t = inv[0], inv[1]
    F = np.array([call3(o, kind, q, s[r], t[r], c) + np.zeros(len(x)) for r in range(len(E))])
    return np.sum(w * R.lor3(kind, q, m, s, t) * np.abs(F)**2, axis=1) * p * pk


def cdf_ref(o, kind, q, m, c, i, edges):
    """cumulative distribution of E_i at the given edges (fine midpoint rule in an edge-softening variable)"""
    lo, hi = m[i], (q * q + m[i]**2 - (sum(m) - m[i])**2) / (2 * q)
    th = (np.arange(400) + 0.5) * (np.pi / 2) / 400
    E = lo + (hi - lo) * np.sin(th)**2
    d = marginal(o, kind, q, m, c, i, E) * np.sin(th) * np.cos(th)
    cum = np.concatenate([[0], np.cumsum(d)]) / np.sum(d)
    eth = np.linspace(0, np.pi / 2, 401)
    return np.interp(np.arcsin(np.sqrt(np.clip((edges - lo) / (hi - lo), 0, 1))), eth, cum)


@oracle(st.tuples(logfl(5e-3, 1.0), st.lists(signed(logfl(1e-2, 1)), min_size=3, max_size=3), st.integers(40, 70)), quick=4, thorough=30, params=list(R.THREE))
def three_body_distributions(case, n):
    x, c, nb = case
    m, _, kind, _ = R.THREE[n]
    q, o, c = sum(m) * (1 + x), obj(n), tuple(c)
    if abs(c[0] - c[1]) < 1e-6 or abs(c[0] + c[1]) < 1e-6:        # nothing to normalise
        return None
    ed = cut(o.energy_distributions, q=q, nbins=nb, couplings=c)
    require(len(ed) == 3, "%s: %d energy distributions", n, len(ed))
    for i, d in enumerate(ed):
        hi = (q * q + m[i]**2 - (sum(m) - m[i])**2) / (2 * q)
        judge(d, m[i], hi, lambda e: cdf_ref(o, kind, q, m, c, i, e), nb, "%s energy of particle %d at %g MeV" % (n, i, q))
    iv = cut(o.invariant_mass_distributions, q=q, nbins=nb, couplings=c)
    require(sorted(tuple(sorted(k)) for k in iv) == [(0, 1), (0, 2), (1, 2)], "%s: invariant-mass distributions of %r", n, list(iv))
    for key, d in iv.items():
        i = ({0, 1, 2} - set(key)).pop()
        judge(d, sum(m[k] for k in key), q - m[i], lambda v: 1 - cdf_ref(o, kind, q, m, c, i, (q * q + m[i]**2 - v * v) / (2 * q)), nb,
              "%s invariant mass %r at %g MeV" % (n, key, q))
    return kind


def judge(d, lo, hi, cdf, nb, what, tol=0.02):
    b, p = np.asarray(d.bins), np.asarray(d.probabilities)
    require(len(p) == nb and len(b) == nb + 1, "%s: %d bins asked, %d given", what, nb, len(p))
    require(np.all(np.diff(b) > 0), "%s: bin edges do not ascend: %r", what, b[[0, 1, -1]])
    w = 1e-6 * (hi - lo) + 1e-9 * hi
    require(abs(b[0] - lo) < w and abs(b[-1] - hi) < w, "%s: bins %g..%g, kinematic range %g..%g", what, b[0], b[-1], lo, hi)
    require(np.all(np.isfinite(p)) and np.all(p >= 0), "%s: negative or non-finite probabilities", what)
    close(np.sum(p * np.diff(b)), 1.0, 1e-9, what + ": normalisation")
    got, ref = np.concatenate([[0], np.cumsum(p * np.diff(b))]), cdf(b)
    k = int(np.argmax(np.abs(got - ref)))
    require(abs(got[k] - ref[k]) < tol, "%s: cumulative distribution at %g is %g, own integration %g", what, b[k], got[k], ref[k])


def four_body_points(q, m, npts, rng):
    """four-body phase space by successive two-body decays: momenta (4, 4, n) [MeV] and weights (phase space of mass dimension 4)"""
    n = npts
    u1, u2 = np.sort(rng.random((2, n)), axis=0)
    K = q - sum(m)
    M2 = m[0] + m[1] + u1 * K
    M3 = sum(m[:3]) + u2 * K
    k = lambda a, b, c: np.sqrt(np.maximum(R.lam(a, b, c), 0)) / (2 * a)
    k4, k3, k2 = k(q, M3, m[3]), k(M3, M2, m[2]), k(M2, m[0], m[1])
    w = K**2 / 2 * k4 * k3 * k2 / q * (4 * np.pi)**3 / (2 * np.pi)**8 / 2**4

    def direction():
        z, ph = rng.uniform(-1, 1, n), rng.uniform(0, 2 * np.pi, n)
        r = np.sqrt(1 - z * z)
        return np.array([r * np.cos(ph), r * np.sin(ph), z])

    def boost(p, P):
        M = np.sqrt(P[0]**2 - np.sum(P[1:]**2, axis=0))
        b = P[1:] / M
        bp = np.sum(b * p[1:], axis=0)
        g = P[0] / M
        return np.array([g * p[0] + bp, *(p[1:] + b * (p[0] + bp / (1 + g)))])
    e = direction()
    P4, P3 = np.array([np.sqrt(k4**2 + m[3]**2), *(k4 * e)]), np.array([np.sqrt(k4**2 + M3**2), *(-k4 * e)])
    e = direction()
    p3, P2 = boost(np.array([np.sqrt(k3**2 + m[2]**2), *(k3 * e)]), P3), boost(np.array([np.sqrt(k3**2 + M2**2), *(-k3 * e)]), P3)
    e = direction()
    p1, p2 = boost(np.array([np.sqrt(k2**2 + m[0]**2), *(k2 * e)]), P2), boost(np.array([np.sqrt(k2**2 + m[1]**2), *(-k2 * e)]), P2)
    return np.stack([p1, p2, p3, P4], axis=1), w


FOUR = {"PiPiPiPi": ((139.57061,) * 4, 4.0), "PiPiPi0Pi0": ((139.57061, 139.57061, 134.977, 134.977), 2.0)}


@oracle(st.tuples(fl(0.15, 2.5), COUP, LAM, logfl(0.2, 2), fl(0.1, 1.3), logfl(1e-3, 0.3)), quick=3, thorough=15, params=list(FOUR))
def four_body(case, n):
    """4 pi: Monte-Carlo integral of the current over own phase space"""
    x, c, a, rmv, rmx, rw = case
    m, sym = FOUR[n]
    o = obj(n)
    q = sum(m) * (1 + x)
    require(np.allclose(o.fsp_masses, m, atol=0.01), "%s: final-state masses %r", n, o.fsp_masses)
    c1 = c[0] - c[1]
    P, w = four_body_points(q, m, 60000, np.random.default_rng(17))
    J = cut(o.form_factor, P)
    require(np.shape(J) == (4, P.shape[2]), "%s current has shape %r", n, np.shape(J))
    JJ = -np.real(np.abs(J[0])**2 - np.sum(np.abs(J[1:])**2, axis=0))
    f = w * 1e-12 * JJ / (3 * (q * 1e-3)**2)        # w in MeV^4
    ref, err = c1**2 / sym * np.mean(f), c1**2 / sym * np.std(f) / math.sqrt(len(f))
    got = np.array([cut(o.integrated_form_factor, q=q, couplings=tuple(c), npts=1 << 16) for _ in range(2)])
    mean = np.mean(got)
    if c1 == 0:
        require(np.all(got == 0), "%s integral %r for isoscalar couplings", n, got)
        return "zero"
    close(mean, ref, 0.08 + 5 * err / ref, "%s integrated form factor at %g MeV" % (n, q))
    close(cut(o.integrated_form_factor, q=q, couplings=tuple(a * v for v in c), npts=1 << 15), a * a * mean, 0.1, "%s: couplings times %g" % (n, a))
    arr = np.array([q, 0.8 * sum(m)])
    close(cut(o.integrated_form_factor, q=arr, couplings=tuple(c)), [mean, 0], 0.1, "%s integrals of an array" % n)
    close(cut(o.width, mv=arr, couplings=tuple(c)), [0.5 * q * mean, 0], 0.1, "%s widths" % n)
    close(cut(o.width, mv=q, couplings=tuple(c)), 0.5 * q * mean, 0.1, "%s width" % n)
    mx, mv = 0.5 * q * rmx, q * rmv
    fac = xsec(np.array([q]), mx, mv, a, mv * rw)[0] * 0.5 * q
    if abs(q - 2 * mx) > 1e-6 * q:
        kw = dict(mx=mx, mv=mv, gvxx=a, wv=mv * rw, couplings=tuple(c))
        close(cut(o.cross_section, q=arr, **kw), [fac * mean, 0], 0.1, "%s cross sections" % n)
        close(cut(o.cross_section, q=q, **kw), fac * mean, 0.1, "%s cross section" % n)
    nb = 20
    E, wt = P[0], f
    ed = cut(o.energy_distributions, q, nbins=nb, couplings=tuple(c))
    for i, d in enumerate(ed):
        hi = (q * q + m[i]**2 - (sum(m) - m[i])**2) / (2 * q)
        judge4(d, m[i], hi, np.asarray(E[i]), wt, "%s energy of particle %d at %g MeV" % (n, i, q))
    for (i, j), d in cut(o.invariant_mass_distributions, q, nbins=nb, couplings=tuple(c)).items():
        s = P[:, i] + P[:, j]
        judge4(d, m[i] + m[j], q - (sum(m) - m[i] - m[j]), np.sqrt(np.maximum(s[0]**2 - np.sum(s[1:]**2, axis=0), 0)), wt, "%s invariant mass (%d, %d) at %g MeV" % (n, i, j, q))
    return "open"


def judge4(d, lo, hi, val, wt, what):
    b, p = np.asarray(d.bins), np.asarray(d.probabilities)
    require(np.all(np.diff(b) > 0) and b[0] > lo - 0.1 and b[-1] < hi + 0.1, "%s: bins %g..%g, kinematic range %g..%g", what, b[0], b[-1], lo, hi)
    require(np.all(np.isfinite(p)) and np.all(p >= 0), "%s: negative or non-finite probabilities", what)
    close(np.sum(p * np.diff(b)), 1.0, 1e-9, what + ": normalisation")
    got = np.concatenate([[0], np.cumsum(p * np.diff(b))])
    ref = np.array([np.sum(wt[val < e]) for e in b]) / np.sum(wt)
    k = int(np.argmax(np.abs(got - ref)))
    require(abs(got[k] - ref[k]) < 0.06, "%s: cumulative distribution at %g is %g, own Monte Carlo %g", what, b[k], got[k], ref[k])
