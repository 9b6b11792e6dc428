"""Photon spectra of M -> a abar gamma, normalised to M -> a abar, from explicit amplitudes integrated numerically over the energies of a."""
import numpy as np
from ref.dirac import slash, dot, bar, trace, ID, G, METRIC

X, WT = np.polynomial.legendre.leggauss(48)


def _kin(M, m, k):
    """momenta for a fixed photon energy k: mass of the pair s; cosine in the pair frame mapped to resolve both collinear poles"""
    s = M * M - 2 * M * k
    b = np.sqrt(max(1 - 4 * m * m / s, 0.0))
    u1 = np.arctanh(b)
    z = np.tanh(u1 * X) / b if b > 1e-6 else X
    jac = u1 / np.cosh(u1 * X) ** 2 / b if b > 1e-6 else np.ones_like(X)
    kk = k * M / np.sqrt(s)             # photon energy in the pair frame
    e = np.sqrt(s) / 2 * np.ones_like(z)
    p = np.sqrt(s) / 2 * b
    sn = np.sqrt(np.maximum(1 - z * z, 0))
    o = 0 * z
    p1 = np.stack([e, p * sn, o, p * z], -1)
    p2 = np.stack([e, -p * sn, o, -p * z], -1)
    q = np.stack([kk + o, o, o, kk + o], -1)
    # p1.k and p2.k without cancellation
    p1k = kk * np.sqrt(s) / 2 * (1 - b * z) if b < 1 - 1e-6 else kk * np.sqrt(s) / 2 * _one_minus(b, u1, X, +1)
    p2k = kk * np.sqrt(s) / 2 * (1 + b * z) if b < 1 - 1e-6 else kk * np.sqrt(s) / 2 * _one_minus(b, u1, X, -1)
    return s, b, p1, p2, q, WT * jac, p1k, p2k


def _one_minus(b, u1, x, sgn):
    # 1 - tanh(y) with y = sgn*u1*x
    y = sgn * u1 * x
    return 2 / (1 + np.exp(2 * y))


def dnde(kind, M, m, k, alpha):
    """kind: 'S ff', 'V ff', 'S ss' (constant amplitude), 'V ss' (scalar QED with seagull)"""
    if not (0 < k < (M * M - 4 * m * m) / (2 * M)):
        return 0.0
    s, b, p1, p2, q, w, p1k, p2k = _kin(M, m, k)
    e2 = 4 * np.pi * alpha
    if kind == "S ss":
        eik = -(m * m / p1k ** 2 + m * m / p2k ** 2 - 2 * dot(p1, p2) / (p1k * p2k))
        a, a0 = eik * e2, 1.0
    elif kind == "V ss":
        g = np.diag(METRIC)
        T = (np.einsum("na,nb->nab", p1 + q - p2, p1 / p1k[:, None]) - np.einsum("na,nb->nab", p1 - p2 - q, p2 / p2k[:, None]) - 2 * g[None])
        a = e2 * np.einsum("nab,nab,a,b->n", T, T, METRIC, METRIC)
        a0 = M * M - 4 * m * m
    else:
        verts = [ID] if kind == "S ff" else G
        met = [1.0] if kind == "S ff" else -METRIC
        a = 0
        for i, gi in enumerate(verts):
            for n in range(4):
                A = (G[n] @ (slash(p1 + q) + m * ID) @ gi) / (2 * p1k)[:, None, None] + (gi @ (-slash(p2 + q) + m * ID) @ G[n]) / (2 * p2k)[:, None, None]
                a = a - met[i] * METRIC[n] * trace(slash(p1) + m * ID, A, slash(p2) - m * ID, bar(A)).real
        a = a * e2
        a0 = 2 * (M * M - 4 * m * m) if kind == "S ff" else 4 * (M * M + 2 * m * m)
    # dGamma/dk = 1/((2 pi)^3 8 M) int dE1 |M|^2, dE1 = (k/2) b dz (pair boosted by k/M ...): E1 = (M-k)/2 + (k/2) b z
    gam = np.sum(w * a) * (k / 2) * b / ((2 * np.pi) ** 3 * 8 * M)
    g0 = a0 * np.sqrt(1 - 4 * m * m / M / M) / (16 * np.pi * M)
    return float(gam / g0)
