"""Spin-summed tree amplitudes by explicit Dirac traces (numpy), for checking closed-form cross sections.  All momenta are
arrays [..., 4] in the chiral-independent Dirac representation, metric (+,-,-,-)."""
import numpy as np
_s = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
_z = np.zeros((2, 2))
G0 = np.block([[np.eye(2), _z], [_z, -np.eye(2)]]).astype(complex)
G = [G0] + [np.block([[_z, m], [-m, _z]]) for m in _s]
METRIC = np.array([1.0, -1, -1, -1])
ID = np.eye(4, dtype=complex)


def slash(p):
    p = np.asarray(p, float)
    return sum((METRIC[i] * p[..., i])[..., None, None] * G[i] for i in range(4))


def dot(a, b):
    return (a * b * METRIC).sum(-1)


def bar(m):
    return G0 @ np.conj(np.swapaxes(m, -1, -2)) @ G0


def trace(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = r @ m
    return np.trace(r, axis1=-2, axis2=-1)


def two_body(e, m1, m2, m3, m4, z):
    """p1 p2 -> k1 k2 in the centre-of-mass frame; z an array of cosines."""
    z = np.asarray(z, float)
    o = np.ones_like(z)
    s = e * e

    def mom(a, b):
        return np.sqrt(max((s - (a + b) ** 2) * (s - (a - b) ** 2), 0)) / (2 * e)
    pi, pf = mom(m1, m2), mom(m3, m4)
    sn = np.sqrt(np.maximum(1 - z * z, 0))
    p1 = np.stack([o * np.hypot(pi, m1), 0 * o, 0 * o, pi * o], -1)
    p2 = np.stack([o * np.hypot(pi, m2), 0 * o, 0 * o, -pi * o], -1)
    k1 = np.stack([o * np.hypot(pf, m3), pf * sn, 0 * o, pf * z], -1)
    k2 = np.stack([o * np.hypot(pf, m4), -pf * sn, 0 * o, -pf * z], -1)
    return p1, p2, k1, k2, pi, pf


def cross_section(e, m1, m2, m3, m4, msq, peak=None, n=120):
    """Integral of msq(p1,p2,k1,k2) over the solid angle / (64 pi^2 s) pf/pi, resolving poles at cos = +-peak (peak > 1)."""
    x, w = np.polynomial.legendre.leggauss(n)
    a = 1e9 if peak is None else max(peak, 1 + 1e-15)
    u1 = np.arctanh(1 / a)
    z = a * np.tanh(u1 * x)
    jac = a * u1 / np.cosh(u1 * x) ** 2 if a < 1e8 else np.ones_like(x)
    if a >= 1e8:
        z = x
    z = np.clip(z, -1, 1)
    p1, p2, k1, k2, pi, pf = two_body(e, m1, m2, m3, m4, z)
    return float(np.sum(w * jac * np.real(msq(p1, p2, k1, k2)))) * 2 * np.pi / (64 * np.pi ** 2 * e * e) * pf / pi


def xx_to_ss(e, mx, ms, g):
    def msq(p1, p2, k1, k2):
        a = g * g * ((slash(p1 - k1) + mx * ID) / (dot(p1 - k1, p1 - k1) - mx * mx)[..., None, None]
                     + (slash(p1 - k2) + mx * ID) / (dot(p1 - k2, p1 - k2) - mx * mx)[..., None, None])
        return trace(slash(p2) - mx * ID, a, slash(p1) + mx * ID, bar(a)) / 4
    return 0.5 * cross_section(e, mx, mx, ms, ms, msq, peak_t(e, mx, ms))


def peak_t(e, mx, ms):
    pi, pf = np.sqrt(e * e / 4 - mx * mx), np.sqrt(e * e / 4 - ms * ms)
    return (e * e / 2 - ms * ms) / (2 * pi * pf) if pi * pf > 0 else None


def ss_to_xx(e, mx, ms, g):
    """sum over fermion spins; initial scalars carry none"""
    def msq(p1, p2, k1, k2):
        a = g * g * ((slash(k1 - p1) + mx * ID) / (dot(p1 - k1, p1 - k1) - mx * mx)[..., None, None]
                     + (slash(k1 - p2) + mx * ID) / (dot(p2 - k1, p2 - k1) - mx * mx)[..., None, None])
        return trace(slash(k1) + mx * ID, a, slash(k2) - mx * ID, bar(a))
    return cross_section(e, ms, ms, mx, mx, msq, peak_t(e, mx, ms))


def xx_to_vv(e, mx, mv, g):
    def msq(p1, p2, k1, k2):
        r = 0
        pt = (slash(p1 - k1) + mx * ID) / (dot(p1 - k1, p1 - k1) - mx * mx)[..., None, None]
        pu = (slash(p1 - k2) + mx * ID) / (dot(p1 - k2, p1 - k2) - mx * mx)[..., None, None]
        for i in range(4):
            for j in range(4):
                a = g * g * (G[j] @ pt @ G[i] + G[i] @ pu @ G[j])
                r = r + METRIC[i] * METRIC[j] * trace(slash(p2) - mx * ID, a, slash(p1) + mx * ID, bar(a))
        return r / 4
    return 0.5 * cross_section(e, mx, mx, mv, mv, msq, peak_t(e, mx, mv))


def xx_to_med_to_xx(e, mx, m, width, g, vector):
    """x xbar -> x xbar through s- and t-channel exchange of one mediator (Breit-Wigner propagators in both channels)."""
    vert = G if vector else [ID]
    met = METRIC if vector else [1.0]

    def msq(p1, p2, k1, k2):
        ds = e * e - m * m + 1j * m * width
        t = dot(p1 - k1, p1 - k1)
        dt = t - m * m + 1j * m * width
        P1, P2, K1, K2 = slash(p1) + mx * ID, slash(p2) - mx * ID, slash(k1) + mx * ID, slash(k2) - mx * ID
        ss = st = tt = 0
        for i, gi in enumerate(vert):
            for j, gj in enumerate(vert):
                w = met[i] * met[j]
                ss = ss + w * trace(P2, gi, P1, gj) * trace(K1, gi, K2, gj)
                tt = tt + w * trace(K1, gi, P1, gj) * trace(P2, gi, K2, gj)
                st = st + w * trace(P2, gi, P1, gj, K1, gi, K2, gj)
        g4 = g ** 4 / 4
        return g4 * (ss / abs(ds) ** 2 + tt / np.abs(dt) ** 2 - 2 * np.real(st / (ds * np.conj(dt))))
    pi2 = e * e / 4 - mx * mx
    return cross_section(e, mx, mx, mx, mx, msq, 1 + m * m / (2 * pi2))
