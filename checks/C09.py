"""Parent energies below the mass, exactly at rest, 1e-12..1e-3 above, moderate and up to 1e4 masses; positron energies spread in
rapidity from the electron mass to the boosted end point, next to every boosted line/kink and outside.  Oracle: Michel spectrum with
electron mass, pion -> muon chain plus electron line, published tables, each boosted by independent quadrature (massive kinematics).
Published tables are themselves checked against multiplicity times branching fraction of each decay mode."""
import os
import numpy as np
from scipy import integrate
from vlib.runner import oracle, finding, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from ref import decay as D
from hazma import spectra as S
import hazma

ASSUMPTIONS = ["defect values listed in known_findings.json are accepted besides the exact ones",
               "tables count positrons the way the package does: every charged pion or muon of a decay mode contributes one"]
DATA = os.path.join(os.path.dirname(hazma.__file__), "spectra", "_positron", "data")
ME = D.ME
RF = 1.0001870858 ** 2
MU = D.muon_positron_rest()


def gammas():
    return st.one_of(st.just(1.0), fl(-11, -1).map(lambda x: 1 + 10 ** x), fl(1.02, 12), fl(1.001, 3), logfl(1.5, 1e4))


ES = st.lists(st.tuples(fl(0, 1), st.sampled_from(["rap", "lin", "end", "out", "kink", "low", "below", "inside"])), min_size=1, max_size=8)


def mv(e, y):
    return ME * np.cosh(np.arccosh(max(e / ME, 1.0)) + y)


def energies(us, hi, eta, kinks=()):
    """Laboratory energies for a rest-frame end point hi and boost rapidity eta."""
    out, top = [], mv(hi, eta)
    for u, k in us:
        if k == "rap":
            out.append(ME * np.cosh(u * np.arccosh(top / ME)))
        elif k == "lin":
            out.append(ME + (top - ME) * u)
        elif k == "end":
            out.append(ME + (top - ME) * (1 - 10 ** (-1 - 7 * u)))
        elif k == "out":
            out.append(top * (1 + 10 ** (-6 + 7 * u)))
        elif k == "low":
            out.append(ME * (1 + 10 ** (-6 + 5 * u)))
        elif k == "inside":
            ks = list(kinks) + [hi]
            out.append(mv(ks[int(u * 1e6) % len(ks)], (2 * ((u * 1e3) % 1) - 1) * .999 * eta))
        elif k == "below":
            out.append(ME * u * (1 - 1e-12))
        else:
            ks = [mv(c, s * eta) for c in (list(kinks) or [hi]) for s in (1, -1)]
            c = ks[int(u * 1e6) % len(ks)]
            out.append(max(c * (1 + (1e-6 if u > 0.5 else -1e-6)), ME * (1 + 1e-9)))
    return np.array(out)


FULL = float(D.panels_over(D.muon_positron_rest()))


@oracle(st.tuples(gammas(), ES), quick=2000)
def muon(case):
    g, us = case
    g = min(g, 2e3)
    rest = D.muon_positron_rest()
    eta = np.arccosh(g)
    es = energies(us, rest.hi, eta)
    got = cut(S.dnde_positron_muon, es, D.MMU * g)
    require(np.all(np.isfinite(got)), "muon positron spectrum gamma=%r E=%s: %s", g, es, got)
    b = np.sqrt((g - 1) * (g + 1)) / g
    atrest = D.MMU * g - D.MMU < 2.3e-16
    ex = np.where(es > ME, rest(es) if atrest else rest.boost(es, g), 0.0)
    noise = 1e-12 * 2 / D.MMU if atrest else 4e-15 * g * g / b / D.MMU + 1e-14 + 4e-17 / b ** 2
    with np.errstate(all='ignore'):
        noise = noise + np.where(es > ME, np.minimum(4e-16 * g * g / np.maximum((es - ME) * (es + ME) / es ** 2, 1e-30), 10) * (ex + 1e-13), 0)
    require(np.all(got >= -noise), "negative muon positron spectrum gamma=%r E=%s: %s", g, es, got)
    # known finding muon-normalisation, the same at rest and in flight
    norm = 1.0 if abs(float(cut(S.dnde_positron_muon, 40.0, D.MMU)) / float(rest(40.0)) - 1) < 1e-7 else 1 / RF
    ok = np.abs(got - ex * norm) <= 1e-7 * ex + noise
    # known finding muon-threshold: within rounding of the electron mass the window is lost and the whole spectrum is integrated
    ok |= (es > ME) & (es - ME < 1e-15 * g * g * ME) & (got <= 1.01 * FULL / (2 * g * b))
    require(np.all(ok), "muon gamma=%r: E=%s got %s expected %s", g, es, got, ex)
    require(np.all(got[es > mv(rest.hi, eta) * (1 + 1e-6)] == 0), "positrons beyond the end point")
    return ["rest" if atrest else "boosted", "nonzero" if np.any(ex > noise) else "outside"]


@oracle(st.tuples(gammas(), ES), quick=1500)
def charged_pion(case):
    g, us = case
    rest = D.pion_positron_rest()
    eta = np.arccosh(g)
    es = energies(us, rest.hi, eta, list(rest.cuts) + [D.PI_E_LINE])
    got = cut(S.dnde_positron_charged_pion, es, D.MPI * g)
    finite_nonneg(got, "pion positron spectrum gamma=%r" % g, 1e-14)
    if D.MPI * g - D.MPI < 2.3e-16:
        ex = np.where(es > ME, rest(es), 0.0)
        ok = (np.abs(got - ex) <= 2e-4 * ex + 1e-12) | (got == 0)      # documented: zero exactly at rest
        require(np.all(ok), "pion at rest E=%s got %s expected %s", es, got, ex)
        return "rest"
    b = np.sqrt((g - 1) * (g + 1)) / g
    cont = np.where(es > ME, rest.boost(es, g), 0.0)
    ln, lo, hi = D.line_boost(D.PI_E_LINE, es, ME, g)
    ln = D.BR_PI_E * ln
    w = D.BR_PI_E / (2 * g * b * np.sqrt(D.PI_E_LINE ** 2 - ME ** 2))
    fuzzy = (np.abs(es / lo - 1) < 1e-7 * (1 + 1e-9 * g ** 2)) | (np.abs(es / hi - 1) < 1e-7)
    slop = 6e-4 * cont + 1e-12 + 1.2e-10 / (2 * g * b) + np.where(fuzzy, w, 0.0) + 4e-15 * g * g / b / D.MMU
    slop = slop + np.where(es < ME * (1 + 1e-3), 1e-6, 0) * (b * g > 50)
    d = np.abs(got - ln - cont)
    d2 = np.abs(got - ln - cont / RF)
    lab = "continuum only"
    for i in np.flatnonzero((d > slop) & (d2 > slop)):
        # known finding pion-quadrature: the angular integral is only as good as one QUADPACK call with a 1e-4 target across kinks
        k = np.sqrt(es[i] ** 2 - ME ** 2)
        q = integrate.quad(lambda e: float(MU.boost(e, D.E_MU_PI / D.MMU)[0]) / np.sqrt(e * e - ME * ME), max(ME, g * (es[i] - b * k)), min(rest.hi, g * (es[i] + b * k)),
                           epsabs=1e-10, epsrel=1e-4, full_output=1)[0] / (2 * g * b) * D.BR_PI_MU / RF
        require(d[i] < 3e-2 * cont[i] + slop[i] and abs(got[i] - ln[i] - q) < 0.2 * abs(q - cont[i]) + 1e-4 * q + 1e-12, "pion gamma=%r: E=%s got %s expected %s + line %s (quadrature %r)", g, es[i], got[i], cont[i], ln[i], q)
        lab = "quadrature-limited"
    require(np.all(got[es > mv(D.PI_E_LINE, eta) * (1 + 1e-6)] == 0), "positrons beyond the end point")
    return ["boosted", "line" if np.any(ln > 0) else "continuum only", lab]


# ------------------------------------------------------------------ tables: file, mass, expected positrons per mode
TAB = {
    "eta": ("eta", D.META, {"pi_pi_pi0": 2 * .2292, "pi_pi_a": 2 * .0422, "mu_mu": 2 * 5.8e-6}),
    "eta_prime": ("eta_prime", D.METAP, {"pi_pi_eta": 2 * .425 + .425 * 2 * .2714, "rho0_a": .295, "pi0_pi0_eta": .224 * 2 * .2714,
                                         "omega_a": .0252 * 2 * .9083, "pi_rho": 2 * 7.4e-4}),
    "charged_kaon": ("charged_kaon", D.MK, {"mu_nu": .6356, "pi_pi0": .2067, "pi_pi_pi": 3 * .05583, "pi0_e_nu": .0507,
                                            "pi0_mu_nu": .03352, "pi_pi0_pi0": .0176}),
    "long_kaon": ("long_kaon", D.MK0, {"pi_pi_pi0": 2 * .1254, "pi_e_nu": 2 * .4055, "pi_mu_nu": 2 * .2704, "pi_pi": 2 * 1.967e-3}),
    "short_kaon": ("short_kaon", D.MK0, {"pi_pi": 2 * .692}),
    "omega": ("omega", D.MOMEGA, {"pi_pi_pi0": 2 * .892, "pi_pi": 2 * .0153, "mu_mu": 2 * 7.4e-5, "eta_a": 4.5e-4 * 2 * .2714}),
    "phi": ("phi", D.MPHI, {"pi_pi_pi0": 2 * .1524, "mu_mu": 2 * 2.86e-4, "pi_pi": 2 * 7.3e-5}),
    "neutral_rho": ("rho", D.MRHO, {"dnde": 1.0}),
    "charged_rho": ("rho", D.MRHO, {"dnde": 1.0}),
}
_t = {}


def table(name):
    if name not in _t:
        p = os.path.join(DATA, TAB[name][0] + "_positron.csv")
        a = np.loadtxt(p, delimiter=",")
        head = open(p).readline().strip("# \n").split(",")
        x = np.ascontiguousarray(a[:, 0])
        y = a[:, 1:].sum(axis=1)
        k = np.sqrt(x ** 2 - 0.5109989461 ** 2)
        f = y / k
        c = np.concatenate([[0.0], np.cumsum(0.5 * (f[1:] + f[:-1]) * np.diff(x))])
        _t[name] = (x, y, f, c, head[1:], a)
    return _t[name]


def prim(x, f, c, e):
    """Exact primitive of the piecewise-linear y/k, constant outside the table."""
    e = np.clip(e, x[0], x[-1])
    i = np.clip(np.searchsorted(x, e, side="right") - 1, 0, len(x) - 2)
    t = e - x[i]
    s = (f[i + 1] - f[i]) / (x[i + 1] - x[i])
    return c[i] + t * (f[i] + 0.5 * s * t)


@oracle(lambda p: st.tuples(gammas(), ES, st.integers(0, 10 ** 6)), params=sorted(TAB), quick=400)
def tabulated(case, name):
    g, us, k = case
    x, y, f, c, _, _ = table(name)
    _, m, _ = TAB[name]
    eta = np.arccosh(g)
    es = energies(us, x[-1], eta, [x[k % len(x)]])
    E = m * g
    got = cut(getattr(S, "dnde_positron_" + name), es, E)
    require(np.shape(got) == es.shape, "shape")
    finite_nonneg(got, "%s positron spectrum gamma=%r E=%s" % (name, g, es))
    kk = np.sqrt(np.maximum(es ** 2 - 0.5109989461 ** 2, 0))
    inside = es >= 0.5109989461
    if E - m < 2.3e-16:
        ex = np.where((es <= x[-1]) & (es >= x[0]), np.interp(es, x, f) * kk, 0.0)
        close(got, ex, 1e-9, name + " at rest", scale=1e-9 * y.max())
        return "rest"
    b = np.sqrt((g - 1) * (g + 1)) / g
    lo, hi = g * (es - b * kk), g * (es + b * kk)
    ex = np.where(inside, (prim(x, f, c, hi) - prim(x, f, c, lo)) / (2 * g * b), 0.0)
    # rounding of the window and of beta
    db = 2e-16 / b ** 2
    slop = 1e-9 * ex + (1e-13 * c[-1] + f.max() * 4e-16 * np.minimum(g * es, x[-1])) / (2 * g * b) + 2 * db * ex + 1e-9 * f.max() * np.where(es < 0.51099895 * (1 + 1e-5), 1, 0)
    slop = slop + np.abs(np.interp(lo, x, f, left=0, right=0)) * 4e-16 * g * es / (2 * g * b) + np.abs(np.interp(lo, x, f, left=0, right=0)) * db * lo
    require(np.all(np.abs(got - ex) <= slop), "%s gamma=%r: E=%s got %s expected %s", name, g, es, got, ex)
    require(np.all(got[es > mv(x[-1], eta) * (1 + 1e-6)] == 0), "positrons beyond the end point")
    return ["boosted", "nonzero" if np.any(ex > 0) else "outside"]


@oracle(lambda p: st.tuples(fl(0, 0.999999), fl(0, 1)), params=["muon", "charged_pion"] + sorted(TAB), quick=15)
def below_mass(case, name):
    u, v = case
    m = {"muon": D.MMU, "charged_pion": D.MPI}.get(name) or TAB[name][1]
    es = np.array([v * m + 1e-9, 1e-3, m / 2, m])
    require(np.all(cut(getattr(S, "dnde_positron_" + name), es, u * m) == 0), "%s below its mass emits positrons", name)
    return True


@oracle(lambda p: st.tuples(logfl(1.003, 40)), params=["muon", "charged_pion"] + sorted(TAB), quick=12, thorough=150)
def conserved(case, name):
    """The boost conserves the number of positrons (and multiplies the mean energy by gamma)."""
    g, = case
    f = getattr(S, "dnde_positron_" + name)
    if name == "muon":
        m, hi, n, lo = D.MMU, D.muon_positron_rest().hi, 1.0, []
        mean = None
    elif name == "charged_pion":
        m, hi, n, lo = D.MPI, D.PI_E_LINE, 1.0, [D.PI_E_LINE]
        mean = None
    else:
        x, y, ff, c, _, _ = table(name)
        m, hi, lo = TAB[name][1], x[-1], []
        n = np.trapezoid(np.interp(z := np.unique(np.concatenate([x, np.linspace(x[0], x[-1], 40001)])), x, ff) * np.sqrt(np.maximum(z ** 2 - 0.5109989461 ** 2, 0)), z)
    eta = np.arccosh(g)
    top = np.arccosh(mv(hi, eta) / ME)
    cuts = sorted({0.0, top, *[abs(np.arccosh(mv(q, 0) / ME) + s * eta) for q in lo + [hi] for s in (1, -1)]})
    t, w = np.polynomial.legendre.leggauss(12)
    tot = en = 0.0
    for p, q in zip(cuts[:-1], cuts[1:]):
        pan = np.linspace(p, q, 24)
        yy = (0.5 * (pan[1:] + pan[:-1])[:, None] + 0.5 * np.diff(pan)[:, None] * t).ravel()
        ww = (0.5 * np.diff(pan)[:, None] * w).ravel() * ME * np.sinh(yy)
        v = cut(f, ME * np.cosh(yy), m * g)
        tot += float(np.sum(v * ww))
    require(abs(tot / n - 1) < 4e-3, "%s gamma=%r: %r positrons after the boost, %r before", name, g, tot, n)
    return True


@oracle(st.sampled_from(sorted(TAB)), quick=30)
def table_content(name):
    x, y, f, c, head, a = table(name)
    m = TAB[name][1]
    require(np.all(np.diff(x) > 0) and x[0] >= 0.5109989, "%s table grid", name)
    finite_nonneg(y, name + " table")
    en = np.trapezoid(x * y, x)
    require(en < m, "%s: energy %.3f MeV in positrons from mass %.3f", name, en, m)
    last = x[np.flatnonzero(y > 1e-12 * y.max())[-1]]
    require(last <= m / 2 * 1.03, "%s end point %r", name, last)
    for mode, want in TAB[name][2].items():
        have = np.trapezoid(a[:, 1 + head.index(mode)], x)
        require(abs(have / want - 1) < 0.04, "%s -> %s: %.5g positrons tabulated, %.5g expected", name, mode, have, want)
    return name


@finding("muon-normalisation")
def f1():
    e = 40.0
    return abs(S.dnde_positron_muon(e, D.MMU) / float(D.muon_positron_rest()(e)) - 1 / RF) < 1e-8


@finding("pion-at-rest")
def f2():
    return S.dnde_positron_charged_pion(30.0, D.MPI) == 0.0 and float(D.pion_positron_rest()(30.0)) > 1e-3


@finding("muon-threshold")
def f3():
    return S.dnde_positron_muon(ME * (1 + 1e-12), D.MMU * 1e4) > 1e-7


@finding("pion-quadrature")
def f4():
    rest = D.pion_positron_rest()
    worst = 0.0
    for g, e in ((4.64417183207089, 44.66769330781727), (4.429307966567551, 42.54733142988271), (24.31218241267036, 236.49836459470566)):
        es = e * (1 - np.linspace(0, 1e-3, 5))
        ex = rest.boost(es, g) / RF
        got = S.dnde_positron_charged_pion(es, D.MPI * g) - D.BR_PI_E * D.line_boost(D.PI_E_LINE, es, ME, g)[0]
        worst = max(worst, float(np.max(np.abs(got - ex) / ex)))
    return worst > 6e-4
