"""Thermally averaged cross sections.  Oracle: the relativistic Maxwell-Boltzmann average of the model's own annihilation cross section,
x/(2 K2(x))^2 int_2^inf z^2 (z^2-4) K1(x z) sigma(m z) dz, by an independent panel quadrature in exponentially scaled form with break points at
thresholds and resonances; exact results (sigma v_lab constant), linearity, and the low-temperature limit.  Generated: models, temperatures, and
cross sections of generated shape (power laws, thresholds, resonances).  Non-trivial: the average is positive."""
import math
import warnings
import numpy as np
from scipy import special, integrate
from vlib.runner import oracle, finding, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from checks import models as D
from hazma.relic_density._thermal_functions import thermal_cross_section as generic
from hazma.single_channel import SingleChannelAnn

ASSUMPTIONS = ["the averages of the scalar and vector mediator models come from kernels whose quadrature stops at an absolute tolerance and whose range of x ends at 300 "
               "(values pinned by the repository's own corpus): there, the check accepts the true average or exactly that documented value",
               "resonances narrower than 1% of the mass or a tenth of the temperature are not generated for the generic routine (adaptive quadrature without break points)"]
NODES = {n: np.polynomial.legendre.leggauss(n) for n in (12, 20)}
TMAX = 60.0


def average(sigma, x, cuts=(), res=(), rtol=3e-6):
    """thermal average of sigma(z), z = e_cm/m, with break points `cuts` and resonances `res` = (position, width) in z"""
    pts = {0.0, TMAX}
    pts |= set(np.geomspace(1e-6, 1.0, 7)) | {2.0, 4.0, 8.0, 16.0, 30.0}
    for c in cuts:
        t = (c - 2) * x
        if -1e-12 <= t < TMAX:
            d = min(1.0, TMAX - t)
            pts |= {t} | set(t + d * 10.0 ** np.arange(-6, 0.1)) | {t - d * 10.0 ** k for k in (-3., -2., -1.)}
    for r, w in res:
        for f in (0, .5, 1, 2, 4, 8, 16, 32, 64, 128, 256, 1024):
            pts |= {(r + f * w - 2) * x, (r - f * w - 2) * x}
    p = np.array(sorted(v for v in pts if 0 <= v <= TMAX))
    p = p[np.r_[True, np.diff(p) > 0]]

    def f(t):
        z = 2 + t / x
        return sigma(z) * z * z * (z + 2) * (t / x) * special.k1e(x * z) * np.exp(-t) / x

    def panel(a, b):
        g, w = NODES[12]
        h = (b - a) / 2
        return h * float(np.dot(w, [f(v) for v in (a + b) / 2 + h * g]))
    tot, stack = 0.0, []
    first = [(panel(a, b), a, b) for a, b in zip(p[:-1], p[1:])]
    scale = sum(abs(v[0]) for v in first)
    for v, a, b in first:
        if abs(v) < 1e-9 * scale:
            tot += v
            continue
        stack.append((v, a, b, 0))
    while stack:
        v, a, b, lev = stack.pop()
        m = (a + b) / 2
        l, r = panel(a, m), panel(m, b)
        if abs(l + r - v) <= rtol / 10 * scale or lev > 8:
            tot += l + r
        else:
            stack += [(l, a, m, lev + 1), (r, m, b, lev + 1)]
    return x / (2 * special.kve(2, x)) ** 2 * tot


X = st.one_of(logfl(0.05, 2000), logfl(3, 100), logfl(20, 400), st.sampled_from([1.0, 20.0, 25.0, 26.0, 300.0, 301.0, 500.0]))


# ---------------------------------------------------------------------------- generic routine on generated cross sections
@st.composite
def shapes(draw):
    k = draw(st.sampled_from(["power", "lab", "threshold", "resonance", "sum"]))
    a = draw(logfl(1e-30, 1e-3))
    return dict(kind=k, a=a, p=draw(st.sampled_from([-0.5, 0.5, 0.0, 1.0, 1.5])), q=draw(fl(0, 6)), zt=draw(logfl(2.001, 6)), zr=draw(fl(2.05, 6)), w=draw(logfl(0.01, 0.5)),
                b=draw(logfl(1e-3, 1e3)))


def terms(d):
    a = d["a"]
    out = dict(
        power=lambda z: a * (z * z - 4) ** d["p"] / z ** d["q"] if z > 2 else 0.0,
        lab=lambda z: a * (z * z - 2) / (z * math.sqrt(z * z - 4)) if z > 2 else 0.0,
        threshold=lambda z: a * math.sqrt(1 - (d["zt"] / z) ** 2) / math.sqrt(1 - 4 / z / z) / z ** 2 if z > max(d["zt"], 2) else 0.0,
        resonance=lambda z: a * math.sqrt(z * z - 4) / ((z * z - d["zr"] ** 2) ** 2 + (d["zr"] * d["w"]) ** 2) if z > 2 else 0.0)
    out["sum"] = lambda z: out["power"](z) + d["b"] * out["threshold"](z) + d["b"] * out["resonance"](z)
    return out[d["kind"]]


class Toy:
    def __init__(self, mx, sigma):
        self.mx, self.sigma = mx, sigma

    def annihilation_cross_sections(self, e_cm):
        s = self.sigma(e_cm / self.mx)
        return {"mu mu": s, "total": s}


def toy_expect(d, x):
    return average(terms(d), x, (2.0, d["zt"]) if d["kind"] in ("threshold", "sum") else (2.0,), ((d["zr"], d["w"]),) if d["kind"] in ("resonance", "sum") else ())


@oracle(st.tuples(shapes(), X, logfl(0.1, 1e4)), quick=1500, thorough=15000)
def generated_cross_sections(case):
    d, x, mx = case
    if d["kind"] in ("resonance", "sum") and d["w"] * x < 0.1:
        d = dict(d, w=0.1 / x)
    if d["kind"] == "sum":
        d = dict(d, zt=2 + min(d["zt"] - 2, 8 / x))
    got = float(cut(generic, x, Toy(mx, terms(d))))
    finite_nonneg(got, "thermal average")
    want = toy_expect(d, x)
    if d["kind"] == "threshold" and (d["zt"] - 2) * x > 25:
        require(got <= want * (1 + 1e-3), "thermal average %r above the true %r", got, want)      # beyond the range a double quadrature resolves
        return None
    deep = d["kind"] == "threshold" and (d["zt"] - 2) * x > 10
    close(got, want, 5e-2 if deep else 2e-3, "thermal average of %s at x=%r" % (d["kind"], x))
    if d["kind"] == "lab":
        close(got, d["a"], 1e-4, "average of a constant sigma*v_lab")
    return d["kind"] + ("/cold" if x > 25 else "")


@oracle(st.tuples(shapes(), shapes(), logfl(1e-4, 1e4), X.filter(lambda x: x < 300)), quick=600, thorough=8000)
def linearity(case):
    d1, d2, c, x = case
    d1, d2 = (dict(d, w=max(d["w"], 0.1 / x), zt=2 + min(d["zt"] - 2, 8 / x)) for d in (d1, d2))
    f, g = terms(d1), terms(d2)
    a, b = (float(cut(generic, x, Toy(100.0, h))) for h in (f, g))
    s = float(cut(generic, x, Toy(100.0, lambda z: f(z) + c * g(z))))
    close(s, a + c * b, 3e-3, "average of a sum of cross sections")
    close(float(cut(generic, x, Toy(3.0, f))), a, 1e-6, "average of the same sigma(z) at another mass", scale=1e-300)
    return d1["kind"] if a > 0 else None


@oracle(st.tuples(logfl(1e-30, 1e-3), fl(0, 4), logfl(500, 1e4)), quick=100, thorough=3000)
def low_temperature_limit(case):
    a, q, x = case
    # sigma v (v = velocity difference in the c.o.m. frame, 2 sqrt(1-4/z^2)) = a (2/z)^q
    got = float(cut(generic, x, Toy(50.0, lambda z: a * (2 / z) ** q / (2 * math.sqrt(1 - 4 / z / z)) if z > 2 else 0.0)))
    require(abs(got / a - 1) < 6 * (1 + q) / x, "sigma*v = %r at threshold but the average at x=%r is %r", a, x, got)
    return "s-wave"


@oracle(st.tuples(logfl(1, 1e3), st.sampled_from(["e e", "mu mu", "pi pi", "g g", "pi0 g"]), logfl(1e-20, 1e-5), X), quick=300, thorough=4000)
def single_channel(case):
    mx, fs, sig, x = case
    m = SingleChannelAnn(mx=mx, fs="photon photon" if fs == "g g" else "pi0 photon" if fs == "pi0 g" else fs, sigma=sig)
    zt = m.fs_mass / mx
    if (zt - 2) * x > 25:
        return None
    close(float(cut(generic, x, m)), average(lambda z: sig if z > zt else 0.0, x, (2.0, zt)), 0.2 if (zt - 2) * x > 10 else 1e-2 if zt > 2 else 1e-4, "thermal average of a constant cross section")
    return "open" if zt <= 2 else "threshold"


# ---------------------------------------------------------------------------- the models' own averages
SM = [2 * D.XS["me"], 2 * D.XS["mmu"], 2 * D.XS["mpi"], 2 * D.XS["mpi0"], 2 * D.XS["mpi"] + D.XS["mpi0"], D.XS["mpi0"]]


def documented(m, x, med, vector):
    """what the kernels are documented to return: scipy's default tolerances over [2, max(50/x, 100 or 150)], nothing beyond x = 300"""
    if x > 300:
        if not vector:
            return 0.0
        x = 300.0
    r = med / m.mx
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = integrate.quad(lambda z: m.annihilation_cross_sections(m.mx * z)["total"] * z * z * (z * z - 4) * special.k1(x * z), 2.0,
                           max(50 / x, 150.0 if vector else 100.0), points=[2.0, r, 2 * r])[0]
    return x / (2 * special.kn(2, x)) ** 2 * v


def true(m, x, med, width):
    return average(lambda z: m.annihilation_cross_sections(m.mx * z)["total"], x, [2.0, 2 * med / m.mx, (med + D.XS["mpi0"]) / m.mx] + [t / m.mx for t in SM], ((med / m.mx, width / m.mx),))


@oracle(st.tuples(D.points(D.SCALAR + D.VECTOR), X), quick=2000, thorough=12000)
def mediator_models(case):
    d, x = case
    m = D.build(d)
    vector = d["cls"] in D.VECTOR
    med, width = (m.mv, m.width_v) if vector else (m.ms, m.width_s)
    if any(0 < abs(med / m.mx - r) < 1e-9 for r in (1, 2)):
        return None           # a break point one rounding away from the end of the range
    got = float(cut(m.thermal_cross_section, x))
    finite_nonneg(abs(got), "thermal average")
    close(float(cut(generic, x, m)), got, 1e-12, "the generic routine and the model's own average")
    doc = documented(m, x, med, vector)
    if abs(got - doc) <= 1e-4 * abs(doc):
        return d["cls"] + "/documented" if got else None         # possibly negative
    finite_nonneg(got, "thermal average")
    close(got, true(m, x, med, width), 1e-3, "thermal average at x=%r (the documented unconverged value is %r)" % (x, doc))
    return d["cls"] + "/true" if got else None


def _fixed(vector):
    return D.build(dict(cls="KineticMixing", kw=dict(mx=100.0, mv=300.0, gvxx=1.0, eps=1e-3)) if vector else
                   dict(cls="HiggsPortal", kw=dict(mx=100.0, ms=300.0, gsxx=1.0, stheta=0.1)))


@finding("unconverged-average")
def unconverged_average():
    bad = 0
    for vector in (True, False):
        m = _fixed(vector)
        x = 20.0 if vector else 5.0
        t = true(m, x, 300.0, m.width_v if vector else m.width_s)
        bad += abs(m.thermal_cross_section(x) / t - 1) > 2e-3
    return bad == 2


@finding("no-average-beyond-300")
def no_average_beyond_300():
    m = _fixed(False)
    return m.thermal_cross_section(400.0) == 0.0 and true(m, 400.0, 300.0, m.width_s) > 0
