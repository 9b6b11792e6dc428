"""Independent decay spectra: rest-frame formulas from the literature, exact numerical boosts.  PDG constants are literal."""
import numpy as np
from functools import lru_cache
from .ps import gl

ME, MMU, MPI, MPI0 = 0.5109989461, 105.6583745, 139.57039, 134.9768
META, METAP, MK, MK0, MRHO, MOMEGA, MPHI = 547.862, 957.78, 493.677, 497.611, 775.26, 782.66, 1019.461
ALPHA = 1 / 137.035999084
FPI = 130.41 / np.sqrt(2)
FA, FV0, FVS = 0.0119, 0.0254, 0.10
BR_PI_MU, BR_PI_E = 0.9998770, 1.230e-4
BR_PI0_AA = 0.98823
R_MU = (ME / MMU) ** 2
E_MU_PI = (MPI ** 2 + MMU ** 2) / (2 * MPI)


class Spec:
    """A spectrum f on [lo, hi] (massless or massive product), analytic between the cuts."""
    def __init__(self, f, lo, hi, mass=0.0, cuts=()):
        self.f, self.lo, self.hi, self.mass = f, lo, hi, mass
        self.cuts = sorted(c for c in cuts if lo < c < hi)

    def __call__(self, e):
        e = np.asarray(e, float)
        ok = (e > self.lo) & (e < self.hi)
        with np.errstate(all="ignore"):
            return np.where(ok, self.f(np.where(ok, e, 0.5 * (self.lo + self.hi))), 0.0)

    def to(self, e):
        return np.log(e) if self.mass == 0 else np.arccosh(np.maximum(np.asarray(e) / self.mass, 1.0))

    def fro(self, y):
        return np.exp(y) if self.mass == 0 else self.mass * np.cosh(y)

    def window(self, E, g, b):
        if self.mass == 0:
            return E * g * (1 - b), E * g * (1 + b)
        y, eta = np.arccosh(np.maximum(E / self.mass, 1.0)), np.arctanh(b)
        # e -> m cosh(y -+ eta), exact without cancellation
        return self.mass * np.cosh(y - eta), self.mass * np.cosh(y + eta)

    def boost(self, E, g, n=24, splits=3):
        """Isotropic boost with Lorentz factor g at energies E (array): 1/(2 g b) int f de/k = 1/(2 g b) int f(y) dy."""
        E = np.atleast_1d(np.asarray(E, float))
        b = np.sqrt((g - 1) * (g + 1)) / g
        a, c = self.window(E, g, b)
        a, c = np.maximum(a, max(self.lo, 1e-300)), np.minimum(c, self.hi)
        pts = [max(self.lo, 1e-300)] + self.cuts + [self.hi]
        x, w = gl(n)
        tot = np.zeros(E.shape)
        for lo, hi in zip(pts[:-1], pts[1:]):
            u, v = np.clip(a, lo, hi), np.clip(c, lo, hi)
            u, v = self.to(u), self.to(v)
            for s in range(splits):
                p, q = u + (v - u) * s / splits, u + (v - u) * (s + 1) / splits
                y = 0.5 * (p + q)[..., None] + 0.5 * (q - p)[..., None] * x
                tot += np.sum(self.f_safe(self.fro(y)) * w, axis=-1) * 0.5 * (q - p)
        bad = (c <= a) | (E < self.mass) | (E <= 0)
        return np.where(bad, 0.0, tot / (2 * g * b))

    def f_safe(self, e):
        return self(e)

    def boosted(self, g, **k):
        """The boosted spectrum as a Spec (evaluated by quadrature on demand)."""
        b = np.sqrt((g - 1) * (g + 1)) / g
        eta = np.arctanh(b)
        if self.mass == 0:
            def mv(e, s):
                return e * np.exp(s * eta)
            lo, hi = self.lo * np.exp(-eta), self.hi * np.exp(eta)
        else:
            def mv(e, s):
                return self.mass * np.cosh(np.arccosh(max(e / self.mass, 1.0)) + s * eta)
            yl = np.arccosh(max(self.lo / self.mass, 1.0))
            lo = self.mass if yl <= eta else self.mass * np.cosh(yl - eta)
            hi = mv(self.hi, 1)
        cuts = [mv(e, s) for e in [self.lo] + self.cuts + [self.hi] for s in (1, -1) if e > 0]
        return Spec(lambda E: self.boost(np.ravel(E), g, **k).reshape(np.shape(E)), lo, hi, self.mass, cuts)

    def sampled(self, nodes=60, lo=1e-7):
        """Chebyshev interpolant of E f(E) between cuts in the natural variable (for nested boosts)."""
        pts = [max(self.lo, lo if self.mass == 0 else self.mass)] + self.cuts + [self.hi]
        segs = []
        for p, q in zip(pts[:-1], pts[1:]):
            if q - p < 1e-13 * q:
                continue
            u, v = float(self.to(p)), float(self.to(q))
            npan = max(1, int(np.ceil((v - u) / 1.0)))
            for k in range(npan):
                a, b = u + (v - u) * k / npan, u + (v - u) * (k + 1) / npan
                # cluster nodes so that end-point logarithms converge
                c = np.polynomial.chebyshev.Chebyshev.interpolate(lambda t: self.fro(t) * self(np.clip(self.fro(t), p * (1 + 1e-15), q * (1 - 1e-15))), nodes, domain=[a, b])
                segs.append((a, b, c))
        ends = np.array([s[1] for s in segs])
        first = segs[0]

        def f(e):
            e = np.asarray(e, float)
            y = self.to(e)
            out = np.zeros(e.shape)
            i = np.clip(np.searchsorted(ends, y), 0, len(segs) - 1)
            for k in np.unique(i):
                m = i == k
                out[m] = segs[k][2](np.maximum(y[m], first[0])) / e[m]
            return out
        return Spec(f, self.lo, self.hi, self.mass, self.cuts)


# ------------------------------------------------------------------ muon
def muon_photon_rest():
    r = R_MU

    def f(e):
        y = 2 * e / MMU
        j1 = (1 - y) * (-102 + 46 * y - 101 * y ** 2 + 55 * y ** 3) / 12
        j2 = (3 - 5 * y + 6 * y ** 2 - 6 * y ** 3 + 2 * y ** 4) * np.log((1 - y) / r)
        return ALPHA / (3 * np.pi * y) * 2 * (j1 + j2) * 2 / MMU / 2
    return Spec(f, 0.0, MMU / 2 * (1 - r))


def _unit(spec):
    n = spec_integral(spec)
    f = spec.f
    spec.f = lambda e: f(e) / n
    return spec


def spec_integral(s, power=0, n=48, splits=8):
    pts = [s.lo] + list(s.cuts) + [s.hi]
    x, w = gl(n)
    t = 0.0
    for lo, hi in zip(pts[:-1], pts[1:]):
        e = np.linspace(lo, hi, splits + 1)
        for p, q in zip(e[:-1], e[1:]):
            # sin^2-type map flattens square-root end points
            th = 0.25 * np.pi * (1 + x)
            z = p + (q - p) * np.sin(th) ** 2
            t += float(np.sum(s(z) * z ** power * w * (q - p) * np.sin(2 * th) * 0.25 * np.pi))
    return t


def panels_over(s, n=48, splits=12):
    """int f de/k over the whole rest-frame support."""
    y = np.linspace(float(s.to(s.lo)), float(s.to(s.hi)), splits + 1)
    x, w = gl(n)
    h, c = 0.5 * np.diff(y)[:, None], 0.5 * (y[1:] + y[:-1])[:, None]
    return float(np.sum(s(s.fro(c + h * x)) * h * w))


@lru_cache(None)
def muon_positron_rest():
    """Michel spectrum with electron mass: dN/dx ~ sqrt(x^2-4r) (3x(1+r) - 2x^2 - 4r), one positron per muon."""
    r = R_MU

    def f(e):
        x = 2 * e / MMU
        return np.sqrt(np.maximum(x * x - 4 * r, 0)) * (3 * x * (1 + r) - 2 * x * x - 4 * r)
    return _unit(Spec(f, ME, MMU / 2 * (1 + r), ME))


@lru_cache(None)
def muon_nu_rest(flavor):
    r = R_MU

    def fe(e):
        x = 2 * e / MMU
        return x * x * (1 - x - r) ** 2 / (1 - x)

    def fm(e):
        x = 2 * e / MMU
        return x * x * (1 - x - r) ** 2 / (1 - x) ** 3 * ((3 - 2 * x) * (1 - x) + r * (3 - x))
    # nu_mu falls from its plateau to zero within r of the end point
    return _unit(Spec(fe if flavor == "e" else fm, 0.0, MMU / 2 * (1 - r), cuts=[MMU / 2 * (1 - r - r * k) for k in (1, 4, 16, 80, 500, 4000)]))


# ------------------------------------------------------------------ charged pion
def pi_lnu_photon_rest(ml):
    """pi -> l nu gamma (inner bremsstrahlung + structure dependent), photons per pi -> l nu."""
    r = (ml / MPI) ** 2

    def f(e):
        x = 2 * e / MPI
        fv = FV0 * (1 + FVS * (1 - x))
        ff = (r + x - 1) * (MPI ** 2 * x ** 4 * (FA ** 2 + fv ** 2) * (r * r - r * x + r - 2 * (x - 1) ** 2)
                            - 12 * np.sqrt(2) * FPI * MPI * r * (x - 1) * x ** 2 * (FA * (r - 2 * x + 1) + x * fv)
                            - 24 * FPI ** 2 * r * (x - 1) * (4 * r * (x - 1) + (x - 2) ** 2))
        g = 12 * np.sqrt(2) * FPI * r * (x - 1) ** 2 * np.log(r / (1 - x)) * (
            MPI * x ** 2 * (FA * (x - 2 * r) - x * fv) + np.sqrt(2) * FPI * (2 * r * r - 2 * r * x - x * x + 2 * x - 2))
        return ALPHA * (ff + g) / (24 * np.pi * MPI * FPI ** 2 * (r - 1) ** 2 * (x - 1) ** 2 * r * x)
    return Spec(f, 0.0, MPI / 2 * (1 - r))


def combine(parts, mass=0.0):
    lo, hi = min(p.lo for _, p in parts), max(p.hi for _, p in parts)
    cuts = [c for _, p in parts for c in [p.lo, p.hi] + list(p.cuts)]
    return Spec(lambda e: sum(w * p(e) for w, p in parts), lo, hi, mass, sorted(set(cuts)))


@lru_cache(None)
def pion_photon_rest():
    mu = muon_photon_rest().boosted(E_MU_PI / MMU)
    return combine([(BR_PI_MU, mu), (BR_PI_MU, pi_lnu_photon_rest(MMU)), (BR_PI_E, pi_lnu_photon_rest(ME))]).sampled()


@lru_cache(None)
def pion_positron_rest():
    return combine([(BR_PI_MU, muon_positron_rest().boosted(E_MU_PI / MMU))], ME).sampled()


@lru_cache(None)
def pion_nu_rest(flavor):
    return combine([(BR_PI_MU, muon_nu_rest(flavor).boosted(E_MU_PI / MMU))]).sampled()


PI_E_LINE = (MPI ** 2 + ME ** 2) / (2 * MPI)
PI_NUE_LINE = (MPI ** 2 - ME ** 2) / (2 * MPI)
PI_NUMU_LINE = (MPI ** 2 - MMU ** 2) / (2 * MPI)


@lru_cache(None)
def rho_photon_rest(charged):
    if charged:
        ep = (MRHO ** 2 + MPI ** 2 - MPI0 ** 2) / (2 * MRHO)
        e0 = MRHO - ep
        g0 = e0 / MPI0
        b0 = np.sqrt(1 - 1 / g0 ** 2)
        pi0 = Spec(lambda e: 2 * BR_PI0_AA / (e0 * b0) + 0 * e, e0 * (1 - b0) / 2, e0 * (1 + b0) / 2)
        return combine([(1.0, pion_photon_rest().boosted(ep / MPI)), (1.0, pi0)]).sampled()
    return combine([(2.0, pion_photon_rest().boosted(MRHO / 2 / MPI))]).sampled()


def line_boost(e0, E, mass, g):
    """One particle of rest energy e0 (mass given), boosted."""
    b = np.sqrt((g - 1) * (g + 1)) / g
    k0 = np.sqrt(e0 * e0 - mass * mass)
    lo, hi = g * (e0 - b * k0), g * (e0 + b * k0)
    E = np.asarray(E, float)
    return np.where((E > lo) & (E < hi), 1 / (2 * g * b * k0), 0.0), lo, hi
