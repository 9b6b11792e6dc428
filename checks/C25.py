"""CMB limits: deposition efficiency of generated models (spectra and lines as data) against an independent quadrature over the
published efficiency tables, velocity at recombination, the limit and the limit class."""
import copy
import math
import os
import numpy as np
import hazma
import hazma.cmb as cmb
from hazma.limits import CMBLimit
from hazma.limits._abstract import CompositeConstrainer
from hazma.single_channel import SingleChannelAnn
from vlib.runner import oracle, finding, require, close, cut
from checks.common import st, fl, logfl
from checks import stubs as S
from checks import models as D

ROOT = os.path.dirname(hazma.__file__)


def table(name):
    e, f = np.loadtxt(os.path.join(ROOT, "cmb_data", name), delimiter=",").T
    return e * 1e-6, f


TAB = {"g": table("f_eff_g.dat"), "ep": table("f_eff_ep.dat")}
FMAX = {k: float(v[1].max()) for k, v in TAB.items()}
EMIN = {k: float(v[0][0]) for k, v in TAB.items()}
XKD = st.one_of(logfl(1e-10, 1e-2), st.just(1e-4))
PANN = st.one_of(st.sampled_from([cmb.p_ann_planck_temp_pol, cmb.p_ann_planck_temp_pol_lensing, cmb.p_ann_planck_temp_pol_lensing_bao]), logfl(1e-33, 1e-28))
TLAST = 0.235         # eV


def eff(k, e):
    return np.interp(e, *TAB[k])


def velocity(mx, x_kd):
    """relative velocity today's literature uses: 2e-4 (T/eV) (MeV/mx) sqrt(1e-4/x_kd)"""
    return 2e-4 * TLAST / mx * math.sqrt(1e-4 / x_kd)


GX, GW = np.polynomial.legendre.leggauss(8)


def integrate(f, lo, hi, cuts=(), n=25, tol=2e-4, levels=24):
    """int f over [lo, hi]: panels uniform in log(e) and in log distance to the upper end, halved where halving changes the value"""
    if hi <= lo:
        return 0.0
    pts = {lo, hi} | {c for c in cuts if lo < c < hi}
    pts |= set(np.geomspace(lo, hi, n)[1:-1]) | set((hi - (hi - lo) * np.geomspace(1e-9, 0.5, n)))
    p = np.array(sorted(v for v in pts if lo <= v <= hi))

    def panel(a, b):
        h = (b - a) / 2
        x = ((a + b) / 2)[:, None] + h[:, None] * GX
        return h * (np.asarray(f(x.ravel()), float).reshape(x.shape) @ GW)
    a, b = p[:-1], p[1:]
    v = panel(a, b)
    done = 0.0
    for _ in range(levels):
        m = (a + b) / 2
        left, right = panel(a, m), panel(m, b)
        bad = np.abs(left + right - v) > tol / len(p) * (abs(done) + np.abs(v).sum())
        done += (left + right)[~bad].sum()
        a, b, v = np.r_[a[bad], m[bad]], np.r_[m[bad], b[bad]], np.r_[left[bad], right[bad]]
        if not len(a):
            break
    return float(done + v.sum())


def reference(k, mx, x_kd, spec, lines):
    q = 2 * mx * (1 + velocity(mx, x_kd) ** 2 / 2)
    inject = integrate(lambda e: e * spec(e, q), EMIN[k], q / 2, TAB[k][0])
    v = integrate(lambda e: e * spec(e, q) * eff(k, e), EMIN[k], q / 2, TAB[k][0])
    for e, mult in lines(q):
        if e > EMIN[k]:
            v += e * mult * eff(k, e)
            inject += e * mult
    return v / q, inject / q


@oracle(st.tuples(st.sampled_from(["g", "ep"]), st.integers(0, 10 ** 6), fl(0, 1)), quick=400, thorough=10000)
def efficiency_tables(case):
    k, i, t = case
    e, f = TAB[k]
    i %= len(e) - 1
    v = min(max(float(e[i] + t * (e[i + 1] - e[i])), e[0]), e[-1])
    for mod in (cmb, __import__("hazma.limits._cmb", fromlist=["x"])):
        fn = getattr(mod, "f_eff_" + k)
        got = float(cut(fn, v))
        close(got, f[i] + (v - e[i]) / (e[i + 1] - e[i]) * (f[i + 1] - f[i]), 1e-9, "deposition efficiency (%s) at %r MeV in %s" % (k, v, mod.__name__))
        require(0 <= got <= 1, "efficiency %r outside [0,1] at %r", got, v)
    return k


@oracle(st.tuples(logfl(1e-3, 1e5), logfl(1e-12, 1)), quick=100, thorough=2000)
def recombination_velocity(case):
    mx, x = case
    want = velocity(mx, x)
    close(float(cut(cmb.vx_cmb, mx, x)), want, 1e-9, "velocity at recombination", scale=0.0)
    close(float(cut(CMBLimit.vx_cmb, mx, x)), want, 1e-9, "velocity at recombination (limit class)", scale=0.0)
    return "v"


def expect(m, x_kd, pairs=(("g", 1.0, "photon", "gline"), ("ep", 2.0, "positron", "eline"))):
    """{g, ep}: (efficiency, injected fraction); electrons and positrons both deposit"""
    out = {}
    for k, mult, spec, line in pairs:
        def lines(q, line=line, mult=mult):
            _, bf, _ = S.rates(m, q)
            return [(c[line] * q / 2, bf[n] * (2.0 if n in ("g g", "e e") else 1.0)) for n, c in m.d.items() if c[line]]
        out[k] = reference(k, m.mx, x_kd, lambda e, q: mult * S.continuum(m, spec, e, q), lines)
    return out


@oracle(st.tuples(S.channels(mx=logfl(0.02, 5e4)), XKD, PANN), quick=250, thorough=6000)
def generated_models(case):
    d, x_kd, pann = case
    m = S.Ann(d)
    if S.rates(m, 2 * m.mx * (1 + velocity(m.mx, x_kd) ** 2 / 2))[2] <= 0:
        return None
    E = expect(m, x_kd)
    tol = 5e-3
    for k in ("g", "ep"):
        got = float(cut(getattr(m, "f_eff_" + k), x_kd))
        want, inj = E[k]
        require(abs(got - want) <= tol * want + 1e-12, "f_eff_%s of %r at x_kd=%r: got %r, expected %r", k, d, x_kd, got, want)
        require(-1e-15 <= got <= FMAX[k] * inj * (1 + tol) + 1e-12, "f_eff_%s=%r exceeds the maximal efficiency times the injected energy fraction %r", k, got, inj)
    tot = E["g"][0] + E["ep"][0]
    close(float(cut(m.f_eff, x_kd)), tot, 2 * tol, "f_eff is the sum of electrons and photons", scale=tot + 1e-12)
    if tot <= 0:
        return None
    want = pann * m.mx / tot
    before = copy.deepcopy(m.__dict__)
    close(float(cut(m.cmb_limit, x_kd, pann)), want, 2 * tol, "cmb_limit", scale=want)
    close(float(cut(m.cmb_limit, x_kd=x_kd)), 3.5e-31 * m.mx / tot, 2 * tol, "cmb_limit with the default bound", scale=3.5e-31 * m.mx / tot)
    lim = CMBLimit(x_kd, pann)
    require(lim.x_kd == x_kd and lim.p_ann == pann, "CMBLimit lost its parameters")
    other = S.Ann(d, factor=7.0)       # the overall rate does not matter
    got = cut(lim.constrain, [m, other])
    require(np.shape(got) == (2,), "constrain returned %r", got)
    close(got, np.array([want, want]), 2 * tol, "CMBLimit.constrain", scale=want)
    require(m.__dict__ == before, "the limit modified the model")
    ch = sorted(n for n in d["chans"])
    return "%d:%s" % (len(ch), "line" if any(c["gline"] or c["eline"] for c in d["chans"].values()) else "cont")


SC = ["e e", "g g", "mu mu", "pi pi", "pi0 g", "pi0 pi0", "k k", "pi0 k k", "eta g", "nue nue"]


@oracle(st.tuples(logfl(5, 3000), st.sampled_from(["e e", "g g", "mu mu", "pi pi", "pi0 g", "pi0 pi0", "k k", "eta g"]), XKD, PANN), quick=60, thorough=700)
def single_channel(case):
    mx, fs, x_kd, pann = case
    thr = {"e e": 2 * .511, "g g": 0, "mu mu": 2 * 105.66, "pi pi": 2 * 139.58, "pi0 g": 134.98, "pi0 pi0": 2 * 134.98, "k k": 2 * 493.68, "eta g": 547.87}[fs]
    if 2 * mx <= 1.02 * thr:
        return None
    m = SingleChannelAnn(mx, fs, 1e-20)
    q = 2 * mx * (1 + velocity(mx, x_kd) ** 2 / 2)
    m_of = {"pi0 g": 134.9768, "eta g": 547.862, "g g": 0.0}
    line_g = [] if fs not in m_of else [((q * q - m_of[fs] ** 2) / (2 * q), 2.0 if fs == "g g" else 1.0)]
    line_e = [(q / 2, 2.0)] if fs == "e e" else []
    g = reference("g", mx, x_kd, lambda e, q: np.asarray(m.total_spectrum(e, q), float), lambda q: line_g)[0]
    ep = reference("ep", mx, x_kd, lambda e, q: np.asarray(m.total_positron_spectrum(e, q), float), lambda q: line_e)[0]
    got = float(cut(m.f_eff_g, x_kd))
    require(abs(got - g) <= 2e-2 * g + 1e-9, "f_eff_g of %s at mx=%r: got %r, expected %r", fs, mx, got, g)
    got_ep = float(cut(m.f_eff_ep, x_kd))
    # the continuous n-body spectra already count electrons and positrons; listed finding: they are doubled again
    want = [ep] if fs == "e e" else [ep, 2 * ep]
    require(min(abs(got_ep - w) for w in want) <= 2e-2 * ep + 1e-9, "f_eff_ep of %s at mx=%r: got %r, expected %r", fs, mx, got_ep, ep)
    tot = got + got_ep
    if tot <= 0:
        return None
    close(float(cut(m.cmb_limit, x_kd, pann)), pann * mx / tot, 1e-6, "cmb_limit of a single channel", scale=pann * mx / tot)
    close(cut(CMBLimit(x_kd, pann).constrain, [m]), np.array([pann * mx / tot]), 1e-6, "CMBLimit of a single channel", scale=pann * mx / tot)
    return fs


@finding("single-channel-electron-double-count")
def _double():
    m = SingleChannelAnn(250.0, "mu mu", 1.0)
    q = 500.0 * (1 + velocity(250.0, 1e-4) ** 2 / 2)
    both = integrate(lambda e: e * np.asarray(m.total_positron_spectrum(e, q), float), EMIN["ep"], q / 2)
    ep = reference("ep", 250.0, 1e-4, lambda e, q: np.asarray(m.total_positron_spectrum(e, q), float), lambda q: [])[0]
    return .3 < both / q < .4 and abs(float(m.f_eff_ep(1e-4)) / ep - 2) < 0.05


REAL = {"HiggsPortal": dict(ms=logfl(300, 3000)), "HeavyQuark": dict(ms=logfl(300, 3000)), "KineticMixing": dict(mv=logfl(1200, 3000)),
        "ScalarMediator": dict(ms=logfl(300, 3000)), "VectorMediator": dict(mv=logfl(1200, 3000)), "QuarksOnly": dict(mv=logfl(1200, 3000))}


@st.composite
def real(draw):
    n = draw(st.sampled_from(sorted(REAL)))
    return draw(D.points([n], mx=logfl(1, 500), **REAL[n])) if not isinstance(n, dict) else n


@oracle(st.tuples(real(), st.sampled_from([1e-4, 1e-6])), quick=14, thorough=250)
def mediator_models(case):
    d, x_kd = case
    m = D.build(d)
    q = 2 * m.mx * (1 + velocity(m.mx, x_kd) ** 2 / 2)
    bfs = m.annihilation_branching_fractions(q)
    if not sum(bfs.values()) > 0:
        return None
    gl = [(v["energy"], (2.0 if n == "g g" else 1.0) * bfs.get(n, 0.0)) for n, v in m.gamma_ray_lines(q).items()]
    el = [(v["energy"], (2.0 if n == "e e" else 1.0) * bfs.get(n, 0.0)) for n, v in m.positron_lines(q).items()]
    g = reference("g", m.mx, x_kd, lambda e, q: np.asarray(m.total_spectrum(e, q), float), lambda q: gl)[0]
    ep = reference("ep", m.mx, x_kd, lambda e, q: 2 * np.asarray(m.total_positron_spectrum(e, q), float), lambda q: el)[0]
    for k, want in (("g", g), ("ep", ep)):
        got = float(cut(getattr(m, "f_eff_" + k), x_kd))
        require(abs(got - want) <= 2e-2 * want + 2e-5 * (g + ep), "f_eff_%s of %r: got %r, expected %r", k, d, got, want)
        require(-1e-12 <= got <= FMAX[k] * 1.05, "f_eff_%s=%r of %r outside its bounds", k, got, d)
    tot = g + ep
    if tot <= 0:
        return None
    close(float(cut(m.cmb_limit, x_kd)), 3.5e-31 * m.mx / tot, 4e-2, "cmb_limit of %r" % (d,), scale=3.5e-31 * m.mx / tot)
    return d["cls"]


class Comp(CompositeConstrainer):
    @property
    def description(self):
        return "composite"


class Named(CMBLimit):
    def __init__(self, nm, pann):
        super().__init__(1e-4, pann)
        self.nm = nm

    @property
    def name(self):
        return self.nm


@oracle(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["add", "add", "add", "reset"]), logfl(1e-33, 1e-28)), min_size=1, max_size=12), quick=40, thorough=500)
def composite_history(ops):
    """three composites used side by side: each evaluates exactly the limits added to it"""
    cs, ref = [Comp(), Comp([]), Comp()], [{}, {}, {}]
    m = SingleChannelAnn(100.0, "g g", 1.0)
    base = float(m.cmb_limit(p_ann=1.0))
    n = [0, 0, 0]
    for i, op, pann in ops:
        if op == "reset":
            cut(cs[i].reset_constrainers)
            ref[i], n[i] = {}, 0
        else:
            nm = "l%d" % n[i]
            n[i] += 1
            cut(cs[i].add_constrainer, Named(nm, pann))
            ref[i][nm] = pann * base
    for c, r in zip(cs, ref):
        require(len(c) == len(r), "composite holds %d limits, %d were added", len(c), len(r))
        fn = getattr(c, "constrain", None) or c._constrain
        got = cut(fn, [m])
        require(sorted(got) == sorted(r), "composite evaluated %r, added were %r", sorted(got), sorted(r))
        for k in r:
            close(got[k], np.array([r[k]]), 1e-9, "composite limit", scale=r[k])
    return "mixed" if sum(1 for r in ref if r) > 1 else "one"
