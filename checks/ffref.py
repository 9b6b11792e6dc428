"""Reference form factors of a vector mediator to hadrons (own compact implementation of the published vector-meson-dominance
parametrisations, energies in MeV in and out; `c` = (gvuu, gvdd, gvss)), and own phase-space integrals."""
import numpy as np
from functools import lru_cache
from scipy.special import gammaln, gamma

MPI, MPI0, MK, MK0, META, METAP, MOM, MPHI = .13957039, .1349768, .493677, .497611, .547862, .95778, .78266, 1.019461
FPI = 0.0922138
PI = np.pi


def iso(c):
    return 3 * (c[0] + c[1]), c[0] - c[1], -3 * c[2]


def fw(s, m, w):
    return m * m / (m * m - s - 1j * m * w)


def _b(s, m1, m2):
    return np.sqrt(max((1 - (m1 + m2)**2 / s) * (1 - (m1 - m2)**2 / s), 0.0))


def _gs_consts(M, G, m):
    b = _b(M * M, m, m)
    L = np.log((1 + b) / (1 - b))
    hres = G / M / PI * M * M * L
    r = 2 * m * m / M**2
    dh = G / PI / M / b**2 * ((3 - 2 * b * b - 3 * r) * L + 2 * b * (1 - r / (1 - b * b)))
    h0 = -8 * m * m / PI * G / M / b**3 - hres + M * M * dh
    return b, hres, dh, h0


def gs(s, M, G, m):
    """Gounaris-Sakurai"""
    br, hres, dh, h0 = _gs_consts(M, G, m)
    b = _b(s, m, m)
    hh = G / M / PI * s * (b / br)**3 * np.log((1 + b) / (1 - b)) - hres - (s - M * M) * dh
    return (M * M + h0) / (M * M - s + hh - 1j * np.sqrt(s) * np.sqrt(s) / M * (b / br)**3 * G)


def pw(s, M, G, m1, m2):
    """p-wave Breit-Wigner; below-threshold resonances have no width"""
    br2 = max((1 - (m1 + m2)**2 / M**2) * (1 - (m1 - m2)**2 / M**2), 0.0)
    g = 0.0 if br2 == 0 else np.sqrt(s) / M * (_b(s, m1, m2) / np.sqrt(br2))**3 * G
    return M * M / (M * M - s - 1j * np.sqrt(s) * g)


def _tower(beta, n):
    """dual-QCD couplings: alternating series with Gamma functions"""
    gb = [gamma(2 - beta)]
    for k in range(1, n):
        gb.append(gb[-1] * (1 - beta + k) / k)
    k = np.arange(n)
    c = gamma(beta - 0.5) / (0.5 + k) / np.sqrt(PI) * np.sin(PI * (beta - 1 - k)) / PI * np.array(gb) + 0j
    c[1::2] *= -1
    return c


@lru_cache(None)
def _pipi_tab(n=2000):
    M0 = np.array([.77337, 1.49, 1.87, 2.12, 2.321, 2.567])
    W0 = np.array([.1471, .429, .357, .3, .444, .491])
    wgt = np.array([1, 1, .59, .048, .4, .43]) * np.exp(1j * np.array([0, 0, -2.2, -2.0, -2.9, 1.19]))
    k = np.arange(n)
    M = M0[0] * np.sqrt(1 + 2.0 * k)
    M[:6] = M0
    W = W0[0] / M0[0] * M
    W[:6] = W0
    c = _tower(2.148, n)
    c[1::2] *= 1
    c[0] = 1.087633403691967
    tot = np.sum(c[1:6])
    c[1:6] = wgt[1:] * tot / np.sum(wgt[1:])
    return M, W, c


def _gs_vec(s, M, G, m):
    b = np.sqrt(1 - 4 * m * m / M**2)
    L = np.log((1 + b) / (1 - b))
    hres = G * M / PI * L
    r = 2 * m * m / M**2
    dh = G / PI / M / b**2 * ((3 - 2 * b * b - 3 * r) * L + 2 * b * (1 - r / (1 - b * b)))
    h0 = -8 * m * m / PI * G / M / b**3 - hres + M * M * dh
    v = _b(s, m, m)
    hh = G / M / PI * s * (v / b)**3 * np.log((1 + v) / (1 - v)) - hres - (s - M * M) * dh
    return (M * M + h0) / (M * M - s + hh - 1j * s / M * (v / b)**3 * G)


def pipi(q, c, neutral=False):
    s = (q / 1e3)**2
    M, W, cc = _pipi_tab()
    t = cc * _gs_vec(s, M, W, MPI)
    if not neutral:
        e = .00187 * np.exp(.106j)
        t[0] *= (1 + e * fw(s, .7824, .00833)) / (1 + e)
    return iso(c)[1] * np.sum(t) * (np.sqrt(2) if neutral else 1)


def _beta_of(c0):
    def f(b):
        return np.exp(gammaln(b - .5) - gammaln(b - 1)) * 2 / np.sqrt(PI)
    from scipy.optimize import brentq
    return brentq(lambda b: f(b) - c0, 1.0 + 1e-9, 20.0, xtol=1e-13)


@lru_cache(None)
def _kk_tab(which, n=200):
    M0, W0, A0, g = {
        "rho": ([.77549, 1.5206995754050117, 1.7409719246639341, 1.9922811314327789], [.1494, .21341728317817743, .08412224414791908, .2899733272437917],
                [1.1148916618504967, -.050374779737077324, -.014908906283692132, -.03902475997619905, -.038341465215871416], None),
        "omega": ([.78265, 1.4144344268685891, 1.655375231284883], [.00849, .0854413887755723, .16031760444832305],
                  [1.3653229680598022, -.02775156567495144, -.32497165559032715, 1.3993153161869765], 0.5),
        "phi": ([1.0194209171596993, 1.594759278457624, 2.156971341201067], [.004252653332329334, .028741821847408196, .6737556174184005],
                [.965842498579515, -.002379766320723148, -.1956211640216197, .16527771485190898], 0.2)}[which]
    beta = _beta_of(A0[0])
    k = np.arange(n)
    c = _tower(beta, n)
    M = M0[0] * np.sqrt(1 + 2.0 * k)
    M[:len(M0)] = M0
    W = M * (W0[0] / M0[0] if g is None else g)
    W[:len(W0)] = W0
    c[:len(A0)] = A0
    c[len(A0)] += 1 - np.sum(c)
    return M, W, c


def kk(q, c, neutral=False):
    s = (q / 1e3)**2
    mk = MK0 if neutral else MK
    c0, c1, cs = iso(c)
    M, W, a = _kk_tab("rho")
    out = (-.5 if neutral else .5) * c1 * np.sum(a * _gs_vec(s, M, W, MPI))
    M, W, a = _kk_tab("omega")
    out += c0 / 6 * np.sum(a * fw(s, M, W))
    M, W, a = _kk_tab("phi")
    t = a * np.array([pw(s, m, w, mk, mk) for m, w in zip(M, W)])
    if neutral:
        t[0] *= 1.055
    return out + cs / 3 * np.sum(t)


def etagamma(q, c):
    qq = q / 1e3
    s = qq * qq
    c0, c1, cs = iso(c)
    M = np.array([.77526, .78284, 1.01952, 1.465, 1.7])
    W = np.array([.1491, .00868, .00421, .4, .3])
    A = np.array([.0861, .00824, .0158, .0147, 0.0])
    ph = np.exp(1j * np.radians([0, 11.3, 170, 61, 0.0]))
    W = W.copy()
    W[0] *= M[0]**2 / s * ((s - 4 * MPI**2) / (M[0]**2 - 4 * MPI**2))**1.5
    return 1e-3 * np.sum(np.array([c1, c0, cs, c1, cs]) * A * ph * M**2 / (M**2 - s - 1j * qq * W))


def pigamma(q, c, alpha=0.0072973525698):
    qq = q / 1e3
    s = qq * qq
    c0, c1, cs = iso(c)
    f = .09266
    amp = c1 / (s - .77526**2 + 1j * qq * .1491) + .8846540224221084 * c0 / (s - .78265**2 + 1j * qq * .00849) - .06460651106718258 * cs / (s - 1.01946**2 + 1j * qq * .004247)
    return 1e-3 * np.sqrt(4 * PI * alpha) * (.007594981126020603 * 4 * np.sqrt(2) * s / 3 / f * amp - (2 * c[0] + c[1]) / (4 * PI**2 * f))


def etaomega(q, c):
    s = (q / 1e3)**2
    return 1e-3 * iso(c)[0] * (.0862 * fw(s, 1.43, .215) - .0648 * fw(s, 1.67, .113))


def etaphi(q, c):
    s = (q / 1e3)**2
    return 1e-3 * iso(c)[2] * (.175 * fw(s, 1.67, .122) + .00409 * np.exp(2.19j) * fw(s, 2.14, .0435))


def piomega(q, c):
    qq = q / 1e3
    s = qq * qq
    p = np.sqrt((s - (MOM + MPI0)**2) * (s - (MOM - MPI0)**2)) / (2 * qq)
    w0 = .1491 * .77526**2 / s * ((s - 4 * MPI0**2) / (.77526**2 - 4 * MPI0**2))**1.5 + 15.9**2 * p**3 / (12 * PI)
    t = sum(a * np.exp(1j * np.radians(ph)) * m * m / (m * m - s - 1j * qq * w) for a, ph, m, w in ((1.0, 0, .77526, w0), (.175, 124, 1.51, .44), (.014, -63, 1.72, .25)))
    return 1e-3 * 15.9 / 5.06325 * iso(c)[1] * t


def piphi(q, c):
    qq = q / 1e3
    s = qq * qq
    w1 = .203 * (.67 + .33 * 1.593**2 / s * ((s - 16 * MPI0**2) / (1.593**2 - 16 * MPI0**2))**1.5)
    t = .177522453644825 * .77526**2 / (.77526**2 - s - 1j * qq * .1491) + .023840592398187477 * np.exp(1j * np.radians(123.82008351626034)) * 1.593**2 / (1.593**2 - s - 1j * qq * w1)
    return 1e-3 * iso(c)[1] * t


def _rho_run(s, m, w, mu2):
    return w * m * m / s * ((s - mu2) / (m * m - mu2))**1.5


def _bw_run(s, m, w):
    """rho with running two-pion width (pi pi eta)"""
    return m * m / (m * m - s - 1j * np.sqrt(s) * _rho_run(s, m, w, 4 * MPI**2))


def _ppe(q, s, c, masses, widths, amps, norm):
    Q2, s = (q / 1e3)**2, s / 1e6
    a = np.array(amps) / np.sum(amps)
    t = a[0] * _bw_run(Q2, masses[0], widths[0]) + sum(a[i] * masses[i]**2 / (masses[i]**2 - Q2 - 1j * np.sqrt(Q2) * widths[i] * Q2 / masses[i]**2) for i in (1, 2, 3))
    return 1e-9 * norm / (4 * np.sqrt(3) * PI**2 * FPI**3) * iso(c)[1] * _bw_run(s, masses[0], widths[0]) * t


def pipieta(q, s, t, c):
    return _ppe(q, s, c, [.77549, 1.54, 1.76, 2.15], [.1494, .356, .113, .32], [1, .326 * np.exp(3.14j), .0115 * np.exp(3.14j), 0], 1.0)


def pipietap(q, s, t, c):
    return _ppe(q, s, c, [.77549, 1.54, 1.76, 2.11], [.1494, .356, .113, .176], [1, 0, 0, -.02], np.sqrt(2))


def pipiomega(q, s, t, c):
    qq = q / 1e3
    m = 1.6608543573197
    return iso(c)[0] * 2.728870588760009 * m * m / (m * m - qq * qq - 1j * qq * .3982595005228462) + 0 * s


def pipipi0(q, s, t, c):
    c0, c1, cs = iso(c)
    Q2, s, t = (q / 1e3)**2, s / 1e6, t / 1e6
    u = Q2 + MPI0**2 + 2 * MPI**2 - s - t

    def bw(x, m, w, a, b):
        return m * m / (x - m * m + 1j * np.sqrt(x) * _rho_run(x, m, w, (a + b)**2))

    def H(m, w):
        return bw(s, m, w, MPI, MPI) + bw(t, m, w, MPI, MPI0) + bw(u, m, w, MPI, MPI0)
    om = [(.7824, .00869, 18.2, c0), (1.01924, .00414, -.87, cs), (1.375, .25, -.77, c0), (1.631, .245, -1.12, c0)]
    f = sum(k * a * fw(Q2, m, w) for m, w, a, k in om) * H(.77609, .14446)
    f = f + cs * -.72 * fw(Q2, 1.01924, .00414) * H(1.465, .31) + c0 * -.59 * fw(Q2, 1.631, .245) * H(1.7, .235)
    f1 = bw(s, .77609, .14446, MPI, MPI) / .77609**2 - .1 * bw(s, 1.7, .26, MPI, MPI) / 1.7**2
    f1 = f1 * c1 * 3.768 * .77609**2 * .185 * fw(Q2, .78259, .00849) / .78259**2
    return 1e-9 * (f + f1)


def _pikk_amps(q, c):
    s = (q / 1e3)**2
    _, c1, cs = iso(c)
    a0 = cs * sum(a * np.exp(1j * p) * fw(s, m, w) for m, w, a, p in ((1.6334, .218, .233, 1.1e-7), (1.957, .267, .0405, 5.19)))
    a1 = c1 * sum(a * np.exp(1j * p) * fw(s, m, w) for m, w, a, p in ((.77526, .1491, -2.34, 0), (1.47, .4, .594, .317), (1.72, .25, -.0179, 2.57)))
    return a0, a1


def _kst(x, m1, m2):
    M, G = .8956, .047
    b2 = (1 - (m1 + m2)**2 / x) * (1 - (m1 - m2)**2 / x)
    r2 = (1 - (m1 + m2)**2 / M**2) * (1 - (m1 - m2)**2 / M**2)
    return 1 / (M * M - x - 1j * np.sqrt(x) * np.sqrt(x) / M * (np.maximum(b2, 0) / r2)**1.5 * G)


def _pikk(q, s, t, c, m, ks, kt):
    a0, a1 = _pikk_amps(q, c)
    n = 2 * 5.37392360229 / np.sqrt(6) * 1e-9
    s, t = s / 1e6, t / 1e6
    return n * ((a0 + ks * a1) * _kst(s, m[1], m[2]) + (a0 + kt * a1) * _kst(t, m[0], m[2]))


def pik0k0(q, s, t, c):
    return _pikk(q, s, t, c, (MK0, MK0, MPI0), 1, 1)


def pikpkm(q, s, t, c):
    return _pikk(q, s, t, c, (MK, MK, MPI0), -1, -1)


def pikk0(q, s, t, c):
    return _pikk(q, s, t, c, (MK0, MK, MPI), -1, 1)


G = 1e3
TWO = {     # class: (masses MeV, reference, kind)
    "PiPi": ((MPI * G, MPI * G), pipi, "PP"), "Pi0Pi0": ((MPI0 * G, MPI0 * G), lambda q, c: pipi(q, c, True), "PP"),
    "KK": ((MK * G, MK * G), kk, "PP"), "K0K0": ((MK0 * G, MK0 * G), lambda q, c: kk(q, c, True), "PP"),
    "EtaGamma": ((META * G, 0.0), etagamma, "PA"), "Pi0Gamma": ((MPI0 * G, 0.0), pigamma, "PA"),
    "EtaOmega": ((META * G, MOM * G), etaomega, "PV"), "EtaPhi": ((META * G, MPHI * G), etaphi, "PV"),
    "Pi0Omega": ((MPI0 * G, MOM * G), piomega, "PV"), "Pi0Phi": ((MPI0 * G, MPHI * G), piphi, "PV"),
}
THREE = {
    "PiPiPi0": ((MPI0 * G, MPI * G, MPI * G), pipipi0, "PPP", 1.0), "PiPiEta": ((META * G, MPI * G, MPI * G), pipieta, "PPP2", 1.0),
    "PiPiEtaPrime": ((METAP * G, MPI * G, MPI * G), pipietap, "PPP2", 1.0), "PiPiOmega": ((MOM * G, MPI * G, MPI * G), pipiomega, "PPV", 1.0),
    "Pi0Pi0Omega": ((MOM * G, MPI0 * G, MPI0 * G), pipiomega, "PPV", 0.5), "Pi0K0K0": ((MK0 * G, MK0 * G, MPI0 * G), pik0k0, "PPP", 1.0),
    "Pi0KpKm": ((MK * G, MK * G, MPI0 * G), pikpkm, "PPP", 1.0), "PiKK0": ((MK0 * G, MK * G, MPI * G), pikk0, "PPP", 1.0),
}
# amplitude depends only on this combination of (gvuu, gvdd, gvss)
ONLY = {"PiPi": (1, -1, 0), "Pi0Pi0": (1, -1, 0), "EtaOmega": (1, 1, 0), "EtaPhi": (0, 0, 1), "Pi0Omega": (1, -1, 0), "Pi0Phi": (1, -1, 0),
        "PiPiEta": (1, -1, 0), "PiPiEtaPrime": (1, -1, 0), "PiPiOmega": (1, 1, 0), "Pi0Pi0Omega": (1, 1, 0), "PiPiPiPi": (1, -1, 0), "PiPiPi0Pi0": (1, -1, 0)}


def lam(a, b, c):
    """Kallen function of masses (a, b, c are masses), factored: accurate at threshold"""
    return (a - b - c) * (a + b + c) * (a - b + c) * (a + b - c)


def lor2(kind, q, m):
    s = q * q
    if kind == "PP":
        return lam(q, *m) / s / (3 * s)            # -> (s - 4 m^2)/(3 s) for equal masses
    if kind == "PA":
        return (s - m[0]**2)**2 / (6 * s)
    return lam(q, *m) / (6 * s)


def int2(name, q, ff):
    m, _, kind = TWO[name]
    if q <= sum(m):
        return 0.0
    return np.sqrt(lam(q, *m)) / (8 * np.pi * q * q) * lor2(kind, q, m) * abs(ff)**2


def lor3(kind, q, m, s, t):
    """squared Lorentz structure: s=(p2+p3)^2, t=(p1+p3)^2"""
    E1, E2 = (q * q + m[0]**2 - s) / (2 * q), (q * q + m[1]**2 - t) / (2 * q)
    if kind == "PPV":
        return (2 + (E1 / m[0])**2) / (3 * q * q)
    p1, p2 = np.maximum(E1**2 - m[0]**2, 0), np.maximum(E2**2 - m[1]**2, 0)
    u = q * q + sum(x * x for x in m) - s - t
    dot = E1 * E2 - (u - m[0]**2 - m[1]**2) / 2
    return np.maximum(p1 * p2 - dot**2, 0) / 3


def dalitz(q, m, n=60):
    """nodes (s, t) and weights of the three-body phase-space integral: Gauss-Legendre in s and t after a sin^2 map
    (takes the square-root edges)"""
    x, w = np.polynomial.legendre.leggauss(n)
    th, wth = (x + 1) * np.pi / 4, w * np.pi / 4
    s0, s1 = (m[1] + m[2])**2, (q - m[0])**2
    s = s0 + (s1 - s0) * np.sin(th)**2
    ws = wth * (s1 - s0) * 2 * np.sin(th) * np.cos(th)
    rs = np.sqrt(s)
    e3, e1 = (s + m[2]**2 - m[1]**2) / (2 * rs), (q * q - s - m[0]**2) / (2 * rs)
    k3, k1 = np.sqrt(np.maximum(lam(rs, m[1], m[2]), 0)) / (2 * rs), np.sqrt(np.maximum(lam(q, rs, m[0]), 0)) / (2 * rs)
    mid, half = m[0]**2 + m[2]**2 + 2 * e1 * e3, 2 * k1 * k3
    S = s[:, None] + 0 * x[None, :]
    T = mid[:, None] + half[:, None] * x[None, :]
    Wt = ws[:, None] * half[:, None] * w[None, :] / (128 * np.pi**3 * q * q)
    return S, T, Wt
