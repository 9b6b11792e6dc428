"""Relic density.  Oracle: degrees of freedom against the package's own table, equilibrium densities against momentum integrals, derivatives
against differences, the abundance against an independent integration of the freeze-out Boltzmann equation (and of the documented
semi-analytic approximation), metamorphic relations (monotone in the cross section, generic averages, GeV models against their own two-body
cross sections), and the relic-density limit against the abundance at the coupling it implies.  Non-trivial: a case whose abundance freezes out."""
import copy
import math
import os
import warnings
import numpy as np
from scipy import special, integrate, interpolate, optimize
import hazma
from hazma import parameters as P
from hazma.limits import RelicDensityLimit
from hazma.relic_density import relic_density
from hazma.relic_density import _thermal_functions as TF
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from checks import models as D

ASSUMPTIONS = ["dark matter is a two-component fermion-like species (g=2, Fermi statistics), as the package assumes",
               "equilibrium densities use five terms of the Bessel expansion: agreement to the size of the omitted terms",
               "abundances are compared at the accuracy of the requested ODE tolerances; semi-analytic against numeric within 20% (25% for falling averages), depending on the degrees-of-freedom transitions"]
TAB = np.loadtxt(os.path.join(os.path.dirname(hazma.__file__), "relic_density", "smdof.dat"), delimiter=",", skiprows=1).T
TT, GS, HE, GE = TAB[0] * 1e3, TAB[1], TAB[2], TAB[3]
MPL, RHO, S0 = 1.22091e22, 1.05375e-2, 2891.2
_gs, _he = interpolate.make_interp_spline(TT, GS), interpolate.make_interp_spline(TT, HE)


def gstar(T):
    return float(_gs(min(max(T, TT[0]), TT[-1])))


def heff(T):
    return float(_he(min(max(T, TT[0]), TT[-1])))


def entropy(T):
    return 2 * math.pi ** 2 / 45 * heff(T) * T ** 3


# ---------------------------------------------------------------------------- thermodynamics
@oracle(st.tuples(st.integers(0, len(TT) - 2), fl(0, 1)), quick=600, thorough=15000)
def degrees_of_freedom(case):
    i, f = case
    T = float(TT[i] ** (1 - f) * TT[i + 1] ** f)
    for fn, tab, what in ((TF.sm_sqrt_gstar, GS, "sqrt(g*)"), (TF.sm_dof_entropy, HE, "h_eff")):
        close(float(cut(fn, float(TT[i]))), tab[i], 1e-9, what + " at a table point")
        v = float(cut(fn, T))
        w = tab[max(i - 1, 0):i + 3]
        lo, hi = w.min(), w.max()
        require(lo - (hi - lo) - 1e-3 * hi <= v <= hi + (hi - lo) + 1e-3 * hi, "%s(%r) = %r outside its neighbours %r..%r", what, T, v, lo, hi)
        close(np.asarray(cut(fn, np.array([T, TT[i]]))), [v, tab[i]], 1e-12, what + " of an array")
    close(float(cut(TF.sm_dof_entropy, T)), heff(T), 1e-3, "h_eff between table points")
    close(float(cut(TF.sm_sqrt_gstar, T)), gstar(T), 1e-3, "sqrt(g*) between table points")
    close(float(cut(TF.sm_entropy_density, T)), entropy(T), 1e-3, "entropy density")
    return "table"


@oracle(st.tuples(logfl(1e-9, 1e-2), logfl(1, 1e6)), quick=60, thorough=500)
def outside_the_table(case):
    a, b = case
    for T, i in ((TT[0] * a, 0), (TT[-1] * b, -1)):
        close(float(cut(TF.sm_sqrt_gstar, float(T))), GS[i], 1e-9, "sqrt(g*) outside the table")
        close(float(cut(TF.sm_dof_entropy, float(T))), HE[i], 1e-9, "h_eff outside the table")
    return "out"


def density(T, m, g, fermion):
    """g/(2 pi^2) int p^2/(exp(E/T) +- 1) dp, with the size of the terms beyond the fifth"""
    s = 1 if fermion else -1
    x = m / T

    def f(k):              # k = p/T
        e = math.sqrt(k * k + x * x)
        return k * k / (math.exp(e - x) + s * math.exp(-x)) if e - x < 600 else 0.0
    v = sum(integrate.quad(f, a, b, epsabs=0, epsrel=1e-10, limit=200)[0] for a, b in ((0, 1 + x ** .5), (1 + x ** .5, 8 + 6 * x ** .5), (8 + 6 * x ** .5, 60 + 30 * x ** .5)))
    n = np.arange(6, 400)
    tail = 2 * np.sum(np.exp(-(n - 1) * x) * x * x * special.kve(2, n * x) / n) if x > 0 else 0.0
    # scaled by exp(x)
    return g * T ** 3 / (2 * math.pi ** 2) * v, g * T ** 3 / (2 * math.pi ** 2) * tail, x


XS = st.one_of(logfl(0.01, 1), logfl(1, 100), logfl(1, 100))
GDOF = st.sampled_from([1.0, 2.0, 3.0, 4.0])


@oracle(st.tuples(logfl(1e-3, 1e5), XS, GDOF, st.booleans()), quick=400, thorough=10000)
def equilibrium_density(case):
    T, x, g, fermion = case
    got = float(cut(TF.neq, T, x * T, g=g, is_fermion=fermion))
    want, tail, x = density(T, x * T, g, fermion)
    got *= math.exp(x)
    require(abs(got - want) <= 1e-7 * want + tail, "equilibrium density x=%r: %r, expected %r (omitted terms %r)", x, got, want, tail)
    close(np.asarray(cut(TF.neq, np.array([T, 2 * T]), x * T, g=g, is_fermion=fermion))[0] * math.exp(x), got, 1e-12, "equilibrium density of an array")
    m0 = float(cut(TF.neq, T, 0, g=g, is_fermion=fermion))
    close(m0, g * T ** 3 * special.zeta(3) / math.pi ** 2 * (0.75 if fermion else 1.0), 1e-9, "massless equilibrium density")
    return "fermion" if fermion else "boson"


def diff(f, t, h=2e-4):
    h *= t
    return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)


@oracle(st.tuples(logfl(0.03, 1e5), XS, GDOF, st.booleans(), st.booleans()), quick=600, thorough=15000)
def derivatives(case):
    T, x, g, fermion, massless = case
    m = 0.0 if massless else x * T
    kw = dict(g=g, is_fermion=fermion)
    n, s = float(cut(TF.neq, T, m, **kw)), float(cut(TF.sm_entropy_density, T))
    dn, ds = float(cut(TF.neq_deriv, T, m, **kw)), float(cut(TF.sm_entropy_density_deriv, T))
    close(dn, diff(lambda t: float(TF.neq(t, m, **kw)), T), 1e-5, "temperature derivative of the equilibrium density", scale=1e-7 * n / T)
    i = np.argmin(np.abs(TT - T))
    smooth = 1e-5 if min(abs(TT[i] - T), abs(TT[max(i - 1, 0)] - T)) > 1e-3 * T else 1e-3        # third derivative jumps at table points
    close(ds, diff(lambda t: float(TF.sm_entropy_density(t)), T), smooth, "temperature derivative of the entropy density")
    y = float(cut(TF.yeq, T, m, **kw))
    close(y, n / s, 1e-12, "equilibrium yield")
    dy = (dn * s - n * ds) / s ** 2
    close(float(cut(TF.yeq_deriv, T, m, **kw)), dy, 1e-9, "temperature derivative of the yield", scale=1e-6 * y / T)
    if not massless:
        close(float(cut(TF.yeq_derivx, x, m, **kw)), -dy * m / x ** 2, 1e-6, "x derivative of the yield", scale=1e-6 * y / x)
        close(float(cut(TF.weq, T, m, **kw)), math.log(n / s), 1e-9, "log of the equilibrium yield", scale=1.0)
    return ("massless" if massless else "massive") + ("/fermion" if fermion else "/boson")


# ---------------------------------------------------------------------------- abundances
def weq(x, m):
    T = m / x
    n = np.arange(1, 6)
    nb = x * x * float(np.sum((-1.0) ** (n + 1) / n * special.kve(2, n * x) * np.exp(-(n - 1) * x))) / (2 * math.pi ** 2)
    return math.log(2 * nb * T ** 3 / entropy(T)) - x


def lam(x, m):
    return math.sqrt(math.pi / 45) * MPL * m * gstar(m / x)


def numeric(m, sv, x0, xf):
    """omega h^2 by integrating the log yield in log x (implicit Runge-Kutta at tight tolerances)"""
    def f(lx, w):
        x = math.exp(lx)
        d = weq(x, m)
        return [-lam(x, m) / x * sv(x) * (math.exp(w[0]) - math.exp(min(2 * d - w[0], 700)))]

    def jac(lx, w):
        x = math.exp(lx)
        d = weq(x, m)
        return [[-lam(x, m) / x * sv(x) * (math.exp(w[0]) + math.exp(min(2 * d - w[0], 700)))]]
    sol = integrate.solve_ivp(f, (math.log(x0), math.log(xf)), [weq(x0, m)], method="Radau", jac=jac, rtol=1e-8, atol=1e-8)
    return math.exp(sol.y[0, -1]) * m * S0 / RHO


def semi(m, sv, delta):
    db = 1.0 if delta is None else delta * (2 + delta) / (1 + delta)

    def root(x):
        y = lambda t: math.exp(weq(t, m))  # noqa: E731
        h = 1e-3 * x
        dy = (8 * (y(x + h) - y(x - h)) - (y(x + 2 * h) - y(x - 2 * h))) / (12 * h)
        return (x * x * dy + lam(x, m) * db * sv(x) * y(x) ** 2) / y(x)
    xs = optimize.brentq(root, 0.5, 100.0, xtol=1e-10)
    cuts = np.exp(np.linspace(math.log(xs), math.log(100 * xs), 60))
    q, w = np.polynomial.legendre.leggauss(8)
    al = sum((b - a) / 2 * sum(wi * lam(t, m) * sv(t) / t ** 2 for wi, t in zip(w, (a + b) / 2 + (b - a) / 2 * q)) for a, b in zip(cuts[:-1], cuts[1:]))
    y = math.exp(weq(xs, m))
    return xs, y / (1 + y * al) * m * S0 / RHO


@st.composite
def toys(draw):
    """mass and <sigma v>(x) = s (x/20)^-n (1 + c/x), with freeze-out between x of about 8 and 35"""
    m = draw(logfl(0.5, 1e6))
    return dict(m=m, s=draw(logfl(1e-17, 1e-11)) * draw(st.sampled_from([1.0, 1.0, m / 1e3 if m > 1e3 else 1.0])), n=draw(st.sampled_from([0, 0, 0, 1, 2, 0.5])), c=draw(st.sampled_from([0.0, 1.0, 5.0])))


class Toy:
    def __init__(self, d, scale=1.0):
        self.mx, self.d, self.scale = d["m"], d, scale

    def thermal_cross_section(self, x):
        return self.scale * self.d["s"] * (x / 20) ** -self.d["n"] * (1 + self.d["c"] / x)


def freeze(d):
    try:
        xs = semi(d["m"], Toy(d).thermal_cross_section, None)[0]
    except ValueError:
        return None
    return xs if 5 < xs < 40 else None


@oracle(st.tuples(toys(), st.one_of(st.none(), fl(0.1, 2.0))), quick=200, thorough=5000)
def semi_analytic(case):
    d, delta = case
    if freeze(d) is None:
        return None
    got = float(cut(relic_density, Toy(d), semi_analytic=True, delta=delta))
    close(got, semi(d["m"], Toy(d).thermal_cross_section, delta)[1], 0.03, "semi-analytic relic density")
    return "n=%g" % d["n"]


@oracle(st.tuples(toys(), st.sampled_from([(1e-5, 1e-3), (1e-5, 1e-3), (1e-8, 1e-8)]), st.sampled_from([(1.0, None), (1.0, None), (2.0, None), (1.0, 500.0), (3.0, 2000.0)])), quick=100, thorough=2500)
def boltzmann_solution(case):
    d, (rtol, atol), (x0, xf) = case
    xs = freeze(d)
    if xs is None:
        return None
    m = Toy(d)
    got = float(cut(relic_density, m, semi_analytic=False, x0=x0, xf=xf, rtol=rtol, atol=atol))
    want = numeric(d["m"], m.thermal_cross_section, x0, x0 * math.exp(7) if xf is None else xf)
    close(got, want, 1e-2 if atol > 1e-4 else 2e-4, "relic density from the Boltzmann equation")
    if xf is None and xs > 10 and d["n"] < 2:
        full = float(cut(relic_density, m, semi_analytic=False))
        close(float(cut(relic_density, m)), full, 0.25 if d["n"] else 0.2, "semi-analytic against numeric relic density")
    return "n=%g" % d["n"]


@oracle(st.tuples(toys(), fl(1.02, 20), st.booleans()), quick=100, thorough=2500)
def monotone(case):
    d, k, semi_ = case
    if freeze(d) is None or freeze(dict(d, s=d["s"] * k)) is None:
        return None
    a = float(cut(relic_density, Toy(d), semi_analytic=semi_, rtol=1e-8, atol=1e-8))
    b = float(cut(relic_density, Toy(d, k), semi_analytic=semi_, rtol=1e-8, atol=1e-8))
    finite_nonneg([a, b], "relic density")
    require(b < a, "relic density %r does not fall when the cross section grows by %r (%r)", a, k, b)
    require(0.4 < a / b / k < 1.01, "relic density falls by %r when the cross section grows by %r", a / b, k)
    return "semi" if semi_ else "numeric"


class SigmaToy:
    """a model without a thermal average of its own: sigma v_lab constant (its average is that constant)"""
    def __init__(self, m, c):
        self.mx, self.c = m, c

    def annihilation_cross_sections(self, e_cm):
        z = e_cm / self.mx
        return {"total": self.c * (z * z - 2) / (z * math.sqrt(z * z - 4)) if z > 2 else 0.0}


@oracle(st.tuples(logfl(1, 1e5), logfl(1e-16, 1e-13), st.booleans()), quick=24, thorough=400)
def models_without_their_own_average(case):
    m, c, semi_ = case
    d = dict(m=m, s=c, n=0, c=0.0)
    if freeze(d) is None:
        return None
    close(float(cut(relic_density, SigmaToy(m, c), semi_analytic=semi_)), float(relic_density(Toy(d), semi_analytic=semi_)), 3e-3, "relic density of a constant sigma*v")
    return "generic"


@oracle(st.tuples(D.points(["HiggsPortal", "KineticMixing", "ScalarMediator", "VectorMediator"], mx=logfl(5, 1000))), quick=60, thorough=1500)
def mediator_models(case):
    """the abundance of the package's models follows from their thermal average"""
    m = D.build(case[0])
    try:
        xs, want = semi(m.mx, m.thermal_cross_section, None)
    except ValueError:
        return None
    if not 4 < xs < 60 or not all(m.thermal_cross_section(x) > 0 for x in np.geomspace(1, 200, 25)):
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = float(cut(relic_density, m))
    # the average is noisy (unconverged quadrature, C22): compare within the noise
    close(got, want, 0.15, "relic density of %s" % case[0]["cls"])
    return case[0]["cls"]


GEV2 = ["e e", "mu mu", "ve ve", "vt vt", "vm vm", "pi pi", "k0 k0", "k k", "pi0 gamma", "eta gamma", "pi0 phi", "eta phi", "eta omega", "v v"]


@oracle(st.tuples(st.sampled_from(["KineticMixingGeV", "BLGeV", "VectorMediatorGeV", "VectorMediatorGeV"]), fl(20, 350), st.one_of(fl(1.05, 1.6), fl(2.5, 4), fl(0.4, 0.8)), logfl(1e-4, 3e-2),
                  st.lists(fl(0.3, 1), min_size=9, max_size=9)), quick=4, thorough=40)
def gev_models(case):
    """the GeV models' relic density is that of the thermal average of their two-body cross sections"""
    n, mx, r, g, rest = case
    mv = r * mx
    kw = dict(mx=mx, mv=mv, gvxx=0.5)
    if n == "KineticMixingGeV":
        kw["eps"] = g
    elif n == "BLGeV":
        kw["g"] = g
    else:
        kw.update({k: g * f for k, f in zip(["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"], rest)})
    m = D.CLS[n](**kw)
    fns = [f for k, f in m.annihilation_cross_section_funcs().items() if k in GEV2]
    require(len(fns) == len(GEV2), "two-body channels %r", list(m.annihilation_cross_section_funcs()))
    # own average: sigma on a z grid refined at the resonance and at thresholds, exponentially weighted trapezoid on it
    zs = 2 + np.geomspace(1e-4, 60, 500)
    marks = [r, 2 * r] + [t / mx for t in (211.3, 279.14, 987.4, 995.2, 682.8, 1154.4, 1330.5)]
    zs = np.concatenate([zs] + [t * (1 + s * np.geomspace(1e-6, 0.3, 40)) for t in marks for s in (1, -1)])
    w = m.width_v() / mv
    zs = np.concatenate([zs, r * (1 + w * np.linspace(-30, 30, 241))])
    zs = np.unique(zs[(zs > 2 + 1e-6) & (zs < 70)])
    sig = np.array([sum(float(f(mx * z)) for f in fns) for z in zs])

    def sv(x):
        t = x * (zs - 2)
        y = sig * zs * zs * (zs * zs - 4) * special.k1e(x * zs) * np.exp(-np.minimum(t, 700))
        return x / (2 * special.kve(2, x)) ** 2 * float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(zs)))
    try:
        xs, want = semi(mx, sv, None)
    except ValueError:
        return None
    if not 4 < xs < 60:
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = float(cut(m.relic_density))
    # below the mediator's threshold the average falls steeply into a plateau, which the package's quadrature over x resolves only roughly
    close(got, want, 0.15 if r > 1 and r < 2 else 0.04, "relic density of %s" % n)
    return n


# ---------------------------------------------------------------------------- limit
class CouplingModel:
    def __init__(self, mx, s0, n, g):
        self.mx, self.s0, self.n, self.g = mx, s0, n, g

    def thermal_cross_section(self, x):
        return self.g ** 2 * self.s0 * (x / 20) ** -self.n

    def annihilation_cross_sections(self, e_cm):
        s = self.g ** 2 * self.s0 * (e_cm / self.mx) ** 3
        return {"a a": 0.25 * s, "b b": 0.75 * s, "total": s}


@oracle(st.tuples(st.lists(logfl(1, 1e5), min_size=1, max_size=3), st.sampled_from([0, 1]), logfl(1e-6, 1e-2), logfl(1e-4, 0.3), st.booleans(), fl(0.2, 5), st.sampled_from(["in", "in", "in", "in", "out"])), quick=60, thorough=1500)
def relic_limit(case):
    masses, n, g0, vx, log, pos, where = case
    s0 = 1.8e-15 / g0 ** 2
    ms = [CouplingModel(m, s0, n, 0.123) for m in masses]
    lo, hi = (g0 / 40 * min(pos, 1), g0 * 40 * max(pos, 1)) if where == "in" else (g0 * 30, g0 * 300)
    lim = RelicDensityLimit("g", lo, hi, vx=vx, log=log)
    before = [copy.copy(m.__dict__) for m in ms]
    got = np.asarray(cut(lim.constrain, ms), float)
    require(got.shape == (len(ms),), "one limit per model: %r", got.shape)
    require([m.__dict__ for m in ms] == before, "the limit modified the models it was given")
    for m, v in zip(ms, got):
        if where == "out":
            require(np.isnan(v), "no coupling in range gives the observed abundance but the limit is %r", v)
            continue
        # invert: coupling from the returned sigma*v
        cme = 2 * m.mx * (1 + vx ** 2 / 2)
        unit = vx * P.sv_inv_MeV_to_cm3_per_s * m.annihilation_cross_sections(cme)["total"] / m.g ** 2
        require(v > 0, "limit %r", v)
        g = math.sqrt(v / unit)
        require(lo * 0.999 <= g <= hi * 1.001, "coupling %r outside the range", g)
        om = float(relic_density(CouplingModel(m.mx, s0, n, g)))
        close(om, 0.1198, 2e-3, "abundance at the limiting coupling")
    return where
