"""Parent energies below the mass, at rest, just above, moderate and up to 1e4 masses; neutrino energies log-spread below the boosted
end point, next to every boosted line/kink and outside; flavour None/e/mu/tau and invalid names.  Oracle: tree-level muon-decay
neutrino spectra with electron mass, pion chain plus nu_mu and nu_e lines, published tables (quadratic or linear interpolation of
dN/dE/E), each boosted by independent quadrature.  Tables are checked against multiplicity x branching fraction of each mode."""
import os
import numpy as np
from scipy import integrate, interpolate
from vlib.runner import oracle, finding, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from ref import decay as D
from hazma import spectra as S
import hazma

ASSUMPTIONS = ["defect values listed in known_findings.json are accepted besides the exact ones",
               "neutrinos and antineutrinos are counted together, as the package's tables do"]
DATA = os.path.join(os.path.dirname(hazma.__file__), "spectra", "_neutrino", "data")


def gammas():
    return st.one_of(st.just(1.0), fl(-11, -1).map(lambda x: 1 + 10 ** x), fl(1.02, 12), fl(1.001, 3), logfl(1.5, 1e4))


ES = st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "lin", "end", "out", "kink", "inside"])), min_size=1, max_size=8)


def energies(us, hi, eta, kinks=()):
    out, top = [], hi * np.exp(eta)
    for u, k in us:
        if k == "log":
            out.append(top * 10 ** (-7 * u))
        elif k == "lin":
            out.append(max(top * u, 1e-9))
        elif k == "end":
            out.append(top * (1 - 10 ** (-1 - 7 * u)))
        elif k == "out":
            out.append(top * (1 + 10 ** (-6 + 7 * u)))
        elif k == "inside":  # anywhere inside the boost window of a line or edge of the rest spectrum
            ks = list(kinks) + [hi]
            v = (u * 1e3) % 1
            out.append(ks[int(u * 1e6) % len(ks)] * np.exp((2 * v - 1) * 0.999 * eta) * (1 - 1e-9 * (eta < 1e-8)))
        else:
            ks = [c * np.exp(s * eta) for c in list(kinks) + [hi] for s in (1, -1)]
            out.append(ks[int(u * 1e6) % len(ks)] * (1 + (1e-6 if u > 0.5 else -1e-6)))
    return np.array(out)


def rows(f, es, E, flavor_seed):
    """The 3 x n array, checked against every flavour selection and scalar calls."""
    got = cut(f, es, E)
    require(np.shape(got) == (3, len(es)), "shape %s for %d energies", np.shape(got), len(es))
    fl_ = ("e", "mu", "tau")[flavor_seed % 3]
    one = cut(f, es, E, flavor=fl_)
    require(np.array_equal(one, got[flavor_seed % 3]), "flavour %r is not the corresponding row", fl_)
    i = flavor_seed % len(es)
    sc = np.asarray(cut(f, float(es[i]), E))
    require(sc.shape == (3,) and np.array_equal(sc, got[:, i]), "scalar energy gives %s, array row %s", sc, got[:, i])
    require(np.all(got[2] == 0), "tau neutrinos from a light particle")
    return got


@oracle(st.tuples(gammas(), ES, st.integers(0, 99)), quick=2000)
def muon(case):
    g, us, k = case
    eta = np.arccosh(g)
    es = energies(us, D.MMU / 2 * (1 - D.R_MU), eta)
    got = rows(S.dnde_neutrino_muon, es, D.MMU * g, k)
    b = np.sqrt((g - 1) * (g + 1)) / g if g > 1 else 1.0
    atrest = D.MMU * g - D.MMU < 2.3e-16
    for i, flv in enumerate(("e", "mu")):
        rest = D.muon_nu_rest(flv)
        ex = rest(es) if atrest else rest.boost(es, g)
        # single closed form: rounding noise 1e-16/beta/E_mu; the end point is a cancellation of poles (1-x)^-2
        noise = 1e-13 if atrest else 3e-15 / b / (D.MMU * g) + 1e-16 / b ** 2 * 0.05 + 4e-17 * g / b
        require(np.all(np.isfinite(got[i])), "%s neutrinos of a muon gamma=%r E=%s: %s", flv, g, es, got[i])
        require(np.all(np.abs(got[i] - ex) <= 3e-7 * ex + noise), "nu_%s of a muon gamma=%r E=%s: got %s expected %s", flv, g, es, got[i], ex)
        require(np.all(got[i][es > rest.hi * np.exp(eta) * (1 + 1e-6)] == 0), "neutrinos beyond the end point")
    return ["rest" if atrest else "boosted", "nonzero" if np.any(got[0] > 1e-14) else "outside"]


@oracle(st.tuples(gammas(), ES, st.integers(0, 99)), quick=400, thorough=6000)
def charged_pion(case):
    g, us, k = case
    eta = np.arccosh(g)
    es = energies(us, D.PI_NUE_LINE, eta, list(D.pion_nu_rest("e").cuts) + [D.pion_nu_rest("e").hi, D.PI_NUMU_LINE])
    got = rows(S.dnde_neutrino_charged_pion, es, D.MPI * g, k)
    labs = set()
    for i, flv in enumerate(("e", "mu")):
        rest = D.pion_nu_rest(flv)
        if D.MPI * g - D.MPI < 2.3e-16:      # the lines are delta functions at rest
            close(got[i], rest(es), 3e-6, "nu_%s of a pion at rest" % flv, scale=1e-9)
            labs.add("rest")
            continue
        b = np.sqrt((g - 1) * (g + 1)) / g
        cont = rest.boost(es, g)
        e0, w = ((D.PI_NUE_LINE, D.BR_PI_E), (D.PI_NUMU_LINE, D.BR_PI_MU))[i]
        ln, lo, hi = D.line_boost(e0, es, 0.0, g)
        fuzzy = (np.abs(es / lo - 1) < 1e-7) | (np.abs(es / hi - 1) < 1e-7)
        mults = (1.0, 2.0) if flv == "e" else (1.0,)          # documented: the electron line is added twice
        slop = 3e-5 * cont + 1e-12 + 1e-7 / (2 * g * b) * np.minimum(1, 1) * 0.2 + np.where(fuzzy, 2 * w / (2 * g * b * e0), 0.0) + 1e-16 / b ** 2 * 0.05 + w * ln * (1e-9 + 2e-15 / b ** 2)
        for j, e in enumerate(es):
            if any(abs(got[i, j] - cont[j] - m * w * ln[j]) <= slop[j] for m in mults):
                labs.add("exact")
                continue
            # known finding pion-window: the energy window is not clipped to the support and the quadrature can miss it
            mu = D.muon_nu_rest(flv)
            q = D.BR_PI_MU * integrate.quad(lambda x: float(mu.boost(x, D.E_MU_PI / D.MMU)[0]) / x, e * g * (1 - b), e * g * (1 + b), full_output=1)[0] / (2 * g * b)
            res = [got[i, j] - m * w * ln[j] for m in mults]
            lo_, hi_ = min(q, cont[j]), max(q, cont[j])
            require(e * g * (1 + b) > rest.hi and any(lo_ - 0.02 * abs(lo_) - slop[j] <= r <= hi_ + 0.02 * hi_ + slop[j] for r in res) and abs(q - cont[j]) > 0.3 * slop[j],
                    "nu_%s of a pion gamma=%r E=%r: got %r, expected %r + line %r (quadrature of the reference %r)", flv, g, e, got[i, j], cont[j], w * ln[j], q)
            labs.add("window")
        require(np.all(got[i][es > max(e0, rest.hi) * np.exp(eta) * (1 + 1e-6)] == 0), "neutrinos beyond the end point")
    return sorted(labs)


@oracle(st.tuples(fl(-12, 4), fl(0, 1), st.integers(0, 1)), quick=600)
def pion_lines(case):
    """The two-body lines of a moving pion, from almost at rest on: a box of the right area inside the boost window, nothing outside."""
    x, v, i = case
    E = D.MPI * (1 + 10 ** x)
    g = E / D.MPI
    if not g > 1:
        return None
    b = np.sqrt((E - D.MPI) * (E + D.MPI)) / E
    eta = np.arctanh(b)
    e0, w = ((D.PI_NUE_LINE, D.BR_PI_E), (D.PI_NUMU_LINE, D.BR_PI_MU))[i]
    flv = ("e", "mu")[i]
    e = e0 * np.exp((2 * v - 1) * eta * .98)
    rounding = 1e-15 / b ** 2 + 1e-15 / eta
    if rounding > .1:
        return None
    box = w / (2 * g * b * e0)
    got = float(cut(S.dnde_neutrino_charged_pion, e, E)[i])
    out = [float(cut(S.dnde_neutrino_charged_pion, e0 * np.exp(s * eta * 1.02), E)[i]) for s in (1, -1)]
    # the continuum varies slowly over a narrow window, so the step across its edge is the line
    cont = D.pion_nu_rest(flv).boost(np.array([e, e0 * np.exp(eta * 1.02), e0 * np.exp(-eta * 1.02)]), g)
    slop = 1e-4 * np.max(cont) + box * (1e-6 + rounding) + 1e-12
    if np.min(cont) < 0 or x > 0 or box < 10 * slop:      # fast pions: charged_pion (known finding pion-window)
        return None
    mult = (1.0, 2.0) if flv == "e" else (1.0,)           # known finding: the electron line twice
    require(any(abs(got - cont[0] - m * box) <= slop for m in mult), "nu_%s line of a pion with E - m = %r MeV at E = %r: %r, expected %r", flv, E - D.MPI, e, got, cont[0] + box)
    require(all(abs(o - c) <= slop for o, c in zip(out, cont[1:])), "nu_%s of a pion with E - m = %r MeV outside the line: %s, expected %s", flv, E - D.MPI, out, cont[1:])
    return "near rest" if x < -5 else "moving"


# mode -> (branching fraction, nu_e multiplicity, nu_mu multiplicity); lines of two-body modes at rest are not tabulated
KL_MU = .2704
TAB = {
    "eta": ("eta", D.META, {"pi_pi_pi0": (.2292, 2, 4), "pi_pi_a": (.0422, 2, 4), "mu_mu": (5.8e-6, 2, 2)}),
    "eta_prime": ("eta_prime", D.METAP, {"pi_pi_eta": (.425, 2, 4), "pi_rho": (7.4e-4 / 2, 2, 4)}),
    "charged_kaon": ("charged_kaon", D.MK, {"mu_vm": (.6356, 1, 1), "pi_pi0": (.2067, 1, 2), "pi_pi_pi": (.05583, 3, 6), "pi0_e_ve": (.0507, 1, 0),
                                            "pi0_mu_vm": (.03352, 1, 2), "pi_pi0_pi0": (.0176, 1, 2)}),
    "long_kaon": ("long_kaon", D.MK0, {"pi_pi_pi0": (.1254, 2, 4), "pi_e_ve": (.4055, 2, 2), "pi_mu_vm": (KL_MU, 3, 3), "pi_pi": (1.967e-3, 2, 4)}),
    "short_kaon": ("short_kaon", D.MK0, {"pi_pi": (.692, 2, 4)}),
    "omega": ("omega", D.MOMEGA, {"pi_pi_pi0": (.892, 2, 4), "pi_pi": (.0153, 2, 4), "mu_mu": (7.4e-5, 2, 2)}),
    "phi": ("phi", D.MPHI, {"pi_pi_pi0": (.1524, 2, 4), "mu_mu": (2.86e-4, 2, 2), "pi_pi": (7.3e-5, 2, 4)}),
    "neutral_rho": ("neutral_rho", D.MRHO, {"pi_pi": (1.0, 2, 4)}),
    "charged_rho": ("charged_rho", D.MRHO, {"pi_pi0": (1.0, 1, 2)}),
}
_t = {}


def table(name, flv):
    key = (name, flv)
    if key not in _t:
        p = os.path.join(DATA, "%s_neutrino_%s.csv" % (TAB[name][0], flv))
        a = np.loadtxt(p, delimiter=",")
        x = np.ascontiguousarray(a[:, 0])
        y = a[:, 1:].sum(axis=1)
        q = interpolate.make_interp_spline(x, y / x, k=2)
        l = interpolate.make_interp_spline(x, y / x, k=1)
        l.F, q.F = l.antiderivative(), q.antiderivative()
        _t[key] = (x, y, l, q, open(p).readline().strip("# \n").split(",")[1:], a)
    return _t[key]


@oracle(lambda p: st.tuples(gammas(), ES, st.integers(0, 10 ** 6)), params=sorted(TAB), quick=400)
def tabulated(case, name):
    g, us, k = case
    m = TAB[name][1]
    eta = np.arccosh(g)
    x0 = table(name, "e")[0]
    es = energies(us, x0[-1], eta, [x0[k % len(x0)]])
    E = m * g
    got = rows(getattr(S, "dnde_neutrino_" + name), es, E, k)
    for i, flv in enumerate(("e", "mu")):
        x, y, f1, f2, _, _ = table(name, flv)
        peak = (y / x).max()
        wiggle = 1e-3 * peak * x[-1]     # quadratic interpolation undershoots next to steps
        if E - m < 2.3e-16:
            inside = (es >= x[0]) & (es <= x[-1])
            q = np.where(inside, f2(np.clip(es, x[0], x[-1])) * es, 0)
            l = np.where(inside, f1(np.clip(es, x[0], x[-1])) * es, 0)
            low = (es < x[0]) & (np.abs(got[i] - y[0] * (es / x[0]) ** 2) <= 0.05 * y[0])
            ok = low | (np.abs(got[i] - q) <= 1e-8 * np.abs(q) + 1e-10 * y.max()) | (np.abs(got[i] - l) <= 1e-8 * np.abs(l) + 1e-10 * y.max())
            require(np.all(ok), "nu_%s of %s at rest E=%s: got %s, table %s", flv, name, es, got[i], q)
            continue
        b = np.sqrt((g - 1) * (g + 1)) / g
        lo, hi = es * g * (1 - b), es * g * (1 + b)
        cl = lambda z: np.clip(z, x[0], x[-1])
        cands = []
        for f in (f2, f1):
            cands.append((f.F(cl(hi)) - f.F(cl(lo))) / (2 * g * b))
        q, l = cands
        tot = float(f1.F(x[-1]))
        if g > 50:        # gamma (1 - beta) of the code loses digits as gamma^2
            b_ = np.sqrt(1 - (E / m) ** -2)
            lo, hi = (E / m) * (es - b_ * es), (E / m) * (es + b_ * es)
            q, l = [(f.F(cl(hi)) - f.F(cl(lo))) / (2 * g * b) for f in (f2, f1)]
        slop = 1e-8 * np.abs(q) + 4e-16 * g * es * peak / (2 * g * b) + (3e-15 * tot + 4e-14 * peak * np.minimum(g * es, x[-1])) / (2 * g * b) + 1e-15 / b ** 2 * y.max()
        ok = (np.abs(got[i] - q) <= slop) | (np.abs(got[i] - l) <= slop)
        require(np.all(ok), "nu_%s of %s gamma=%r E=%s: got %s, expected %s", flv, name, g, es, got[i], q)
        require(np.all(got[i] >= -1e-2 * y.max()), "negative spectrum")
        require(np.all(got[i][es > x[-1] * np.exp(eta) * (1 + 1e-6)] == 0), "neutrinos beyond the end point")
    return ["rest" if E - m < 2.3e-16 else "boosted", "nonzero" if np.any(got > 0) else "outside"]


ALL = ["muon", "charged_pion"] + sorted(TAB)


@oracle(lambda p: st.tuples(fl(0, 0.999999), fl(0, 1), st.text("abcdemutx_ ", max_size=5)), params=ALL, quick=20)
def below_mass_and_bad_flavour(case, name):
    u, v, bad = case
    m = {"muon": D.MMU, "charged_pion": D.MPI}.get(name) or TAB[name][1]
    f = getattr(S, "dnde_neutrino_" + name)
    es = np.array([v * m + 1e-9, 1e-3, m / 2, m])
    require(np.all(cut(f, es, u * m) == 0), "%s below its mass emits neutrinos", name)
    return True


@oracle(lambda p: st.tuples(logfl(1.003, 20)), params=ALL, quick=10, thorough=150)
def conserved(case, name):
    """Particle numbers of each flavour survive the boost: one nu_e per muon and pion, one nu_mu per muon, two per pion."""
    g, = case
    f = getattr(S, "dnde_neutrino_" + name)
    eta = np.arccosh(g)
    if name == "muon":
        m, ks, ns = D.MMU, [D.MMU / 2 * (1 - D.R_MU)], [(1.0,), (1.0,)]
    elif name == "charged_pion":
        m = D.MPI
        ks = [D.PI_NUE_LINE, D.PI_NUMU_LINE] + list(D.pion_nu_rest("e").cuts) + [D.pion_nu_rest("e").hi]
        ns = [(1.0, 1.0 + D.BR_PI_E), (2.0 * D.BR_PI_MU,)]
    else:
        m = TAB[name][1]
        ks, ns = [], []
        for flv in ("e", "mu"):
            x, y, f1, _, _, _ = table(name, flv)
            ks += [x[-1], x[0]]
            z = np.linspace(x[0], x[-1], 40001)
            ns.append((np.trapezoid(f1(z) * z, z),))
    top = np.log(max(ks)) + eta
    bot = np.log(max(ks)) - eta - 16
    cuts = sorted({bot, top, *[c for q in ks for s in (1, -1) if bot < (c := np.log(q) + s * eta) < top]})
    t, w = np.polynomial.legendre.leggauss(8)
    tot = np.zeros(3)
    for p, q in zip(cuts[:-1], cuts[1:]):
        pan = np.linspace(p, q, max(3, int(40 * (q - p) / (top - bot)) + 12 if name not in TAB else 120))
        yy = (0.5 * (pan[1:] + pan[:-1])[:, None] + 0.5 * np.diff(pan)[:, None] * t).ravel()
        ww = (0.5 * np.diff(pan)[:, None] * w).ravel() * np.exp(yy)
        tot += np.sum(cut(f, np.exp(yy), m * g) * ww, axis=1)
    for i in range(2):
        require((name == "charged_pion" and g > 3 and tot[i] < 1.001 * ns[i][0]) or any(abs(tot[i] / n - 1) < (3e-4 if name not in TAB else 5e-3) for n in ns[i]), "%s gamma=%r flavour %d: %r neutrinos after the boost, %r before", name, g, i, tot[i], ns[i])
    return True


@oracle(st.sampled_from(sorted(TAB)), quick=30)
def table_content(name):
    m = TAB[name][1]
    en = 0.0
    for i, flv in enumerate(("e", "mu")):
        x, y, _, _, head, a = table(name, flv)
        require(np.all(np.diff(x) > 0) and x[0] > 0, "%s table grid", name)
        finite_nonneg(a, name + " table")
        en += np.trapezoid(x * y, x)
        last = x[np.flatnonzero(y > 1e-12 * y.max())[-1]]
        require(last <= m / 2 * 1.03, "%s end point %r", name, last)
        for mode, (br, *mult) in TAB[name][2].items():
            require(mode in head, "%s table lacks mode %s", name, mode)
            have, want = np.trapezoid(a[:, 1 + head.index(mode)], x), br * mult[i]
            require(abs(have - want) <= 0.05 * want + 1e-12, "%s -> %s: %.5g nu_%s tabulated, %.5g expected", name, mode, have, flv, want)
        require(set(head) == set(TAB[name][2]), "%s table modes %s", name, head)
    require(en < m, "%s: %.3f MeV in neutrinos from mass %.3f", name, en, m)
    return name


@finding("pion-electron-line-twice")
def f1():
    g, e = 3.0, 69.5
    b = np.sqrt(1 - 1 / g ** 2)
    top = D.PI_NUE_LINE * g * (1 + b)
    jump = float(S.dnde_neutrino_charged_pion(top * (1 - 1e-9), D.MPI * g, flavor="e") - S.dnde_neutrino_charged_pion(top * (1 + 1e-9), D.MPI * g, flavor="e"))
    return abs(jump * 2 * g * b * D.PI_NUE_LINE / D.BR_PI_E - 2) < 0.01


@finding("pion-window")
def f2():
    g = 200.0
    es = np.linspace(0.02, 0.99, 60) * D.pion_nu_rest("e").hi * 2 * g
    ex = D.pion_nu_rest("e").boost(es, g)
    got = S.dnde_neutrino_charged_pion(es, D.MPI * g, flavor="e")
    return bool(np.any(got < 0.5 * ex))


@finding("kaon-line-missing")
def f3():
    """K -> mu nu: 63.6 % of charged kaons emit a monochromatic muon neutrino; the boosted spectrum lacks it."""
    g = 2.0
    b = np.sqrt(1 - 1 / g ** 2)
    e0 = (D.MK ** 2 - D.MMU ** 2) / (2 * D.MK)
    lo = e0 * g * (1 - b)
    d = 1e-4 * lo
    v = S.dnde_neutrino_charged_kaon(np.array([lo + d, lo - d]), D.MK * g, flavor="mu")
    j = v[0] - v[1]
    return j < 0.5 * 0.6356 / (2 * g * b * e0)


@finding("long-kaon-muon-mode-flavour")
def f4():
    """K_L -> pi mu nu yields 2 nu_e and 4 nu_mu; the table holds 3 and 3 (direct neutrino filed under nu_e)."""
    x, _, _, _, head, a = table("long_kaon", "e")
    return np.trapezoid(a[:, 1 + head.index("pi_mu_vm")], x) > 2.5 * KL_MU
