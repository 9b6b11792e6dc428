"""Independent N-body phase space: volumes, moments and one-particle / pair densities by nested Gauss-Legendre.

Normalisation: dPi = (2 pi)^4 delta^4 prod d^3p / ((2 pi)^3 2E).
"""
from math import factorial
import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def pcm(M, m1, m2):
    x = (M - m1 - m2) * (M + m1 + m2) * (M - m1 + m2) * (M + m1 - m2)
    return np.sqrt(np.maximum(x, 0.0)) / (2 * M)


def phi2(M, m1, m2):
    return pcm(M, m1, m2) / (4 * np.pi * M)


def _nodes(a, b, n):
    """Nodes/weights on [a,b] smooth for sqrt end-points: mu = a + (b-a)(1-cos t)/2."""
    x, w = gl(n)
    t = (x + 1) * np.pi / 2
    u = (1 - np.cos(t)) / 2
    du = np.sin(t) / 2 * np.pi / 2 * w
    a, b = np.asarray(a, float), np.asarray(b, float)
    mu = a[..., None] + (b - a)[..., None] * u
    return mu, (b - a)[..., None] * du


def volume(M, ms, n=None):
    """Vectorised over M (array)."""
    ms = list(ms)
    M = np.asarray(M, float)
    k = len(ms)
    if k == 2:
        return phi2(M, ms[0], ms[1])
    n = n or {3: 48, 4: 32, 5: 24, 6: 18, 7: 14}.get(k, 12)
    # peel the last particle: Phi_k(M) = int d mu^2/(2 pi) Phi_2(M; mu, m_k) Phi_{k-1}(mu)
    lo, hi = sum(ms[:-1]), M - ms[-1]
    ok = hi > lo
    mu, w = _nodes(np.where(ok, lo, 0.0), np.where(ok, hi, 0.0), n)
    f = 2 * mu / (2 * np.pi) * phi2(M[..., None], mu, ms[-1]) * volume(np.where(ok[..., None], mu, lo + 1.0), ms[:-1], n)
    return np.where(ok, np.sum(f * w, axis=-1), 0.0)


def massless_volume(M, k):
    return (np.pi / 2) ** (k - 1) * M ** (2 * k - 4) / (factorial(k - 1) * factorial(k - 2)) / (2 * np.pi) ** (3 * k - 4)


def energy_density(M, ms, i, E):
    """d Phi / dE_i at E (unnormalised=exact normalisation): p/(4 pi^2) * Phi_{k-1}(recoil)."""
    E = np.asarray(E, float)
    m = ms[i]
    rest = [x for j, x in enumerate(ms) if j != i]
    mr2 = M * M + m * m - 2 * M * E
    mr = np.sqrt(np.maximum(mr2, 0))
    ok = (E > m) & (mr > sum(rest))
    mr = np.where(ok, mr, sum(rest) + 1.0)
    return np.where(ok, np.sqrt(np.maximum(E * E - m * m, 0)) / (4 * np.pi ** 2) * volume(mr, rest), 0.0)


def pair_density(M, ms, i, j, mu):
    """d Phi / d mu_ij."""
    mu = np.asarray(mu, float)
    rest = [x for k, x in enumerate(ms) if k not in (i, j)]
    ok = (mu > ms[i] + ms[j]) & (mu < M - sum(rest))
    m = np.where(ok, mu, ms[i] + ms[j] + 1e-3)
    if len(rest) == 1:
        v = phi2(M, m, rest[0])
    else:
        v = np.array([float(volume(np.array(M), [x] + rest)) for x in m.ravel()]).reshape(m.shape)
    return np.where(ok, 2 * mu / (2 * np.pi) * phi2(m, ms[i], ms[j]) * v, 0.0)


def moment_energy(M, ms, i, power=1, n=64):
    """<E_i^power> and the volume from the density."""
    m = ms[i]
    emax = (M * M + m * m - (sum(ms) - m) ** 2) / (2 * M)
    E, w = _nodes(np.array(m), np.array(emax), n)
    d = energy_density(M, ms, i, E)
    v = np.sum(d * w)
    return np.sum(d * w * E ** power) / v, v


def dalitz(M, ms, f, n=48):
    """int dPhi_3 f(s, t), s = (p2+p3)^2, t = (p1+p3)^2."""
    m1, m2, m3 = ms
    r, w = _nodes(np.array(m2 + m3), np.array(M - m1), n)   # sqrt(s)
    s = r * r
    # energies of 3 and 1 in the (23) rest frame; t = m1^2+m3^2+2(E1 E3 - p1 p3 cos)
    e3 = (s + m3 ** 2 - m2 ** 2) / (2 * r)
    e1 = (M * M - s - m1 ** 2) / (2 * r)
    p3 = pcm(r, m2, m3)
    p1 = M * pcm(M, m1, r) / r
    x, wx = gl(n)
    t = m1 ** 2 + m3 ** 2 + 2 * (e1 * e3)[:, None] + 2 * (p1 * p3)[:, None] * x
    # dPhi = 2 r dr/(2pi) Phi2(M;m1,r) Phi2(r;m2,m3) dcos/2
    ww = (w * 2 * r / (2 * np.pi) * phi2(M, m1, r) * phi2(r, m2, m3))[:, None] * wx / 2
    return float(np.sum(ww * f(np.broadcast_to(s[:, None], t.shape), t)))
