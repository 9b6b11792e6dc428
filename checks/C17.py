"""Right-handed neutrinos at generated mass, mixing and flavour.  Oracle: partial widths from textbook formulas re-derived here (two-body
closed forms, Fermi-theory matrix elements integrated over the Dalitz plot, hadronic spectral integrals), squared matrix elements of the
package integrated over the Dalitz plot against its widths, distributions normalised, supported and adding up to the parent mass, and channel
spectra against the multi-particle spectra of the particles that the channel names.
Non-trivial: at least one massive channel open; classes name flavour and channel."""
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg, finding
from checks.common import st, fl, logfl
from checks import models as D
from hazma import spectra, parameters as PR
from hazma.rh_neutrino import RHNeutrino, _widths as W

Generation = type(RHNeutrino(100.0, 1e-3, "e").gen)
from hazma.form_factors.vector import VectorFormFactorPiPi

ASSUMPTIONS = ["pion form factor decided by C20, multi-particle spectra by C12, constants by C27",
               "charged-current three-lepton matrix element: the package's lepton-neutrino pairing is taken as its definition",
               "isospin limit of the two-pion channels (charged pion mass for both) and Dirac normalisation of neutral-current channels as documented"]

ML = {"e": PR.electron_mass, "mu": PR.muon_mass, "tau": PR.tau_mass}
NU = {"e": "ve", "mu": "vm", "tau": "vt"}
GEN = {"e": 0, "mu": 1, "tau": 2}
FL = ["e", "mu", "tau"]
GF, S2 = 1.1663787e-11, float(PR.sin_theta_weak) ** 2
FF = VectorFormFactorPiPi()
XG, WG = np.polynomial.legendre.leggauss(60)
VUD, VUS = abs(PR.Vud), abs(PR.Vus)
MPI, MPI0, META, MK = PR.charged_pion_mass, PR.neutral_pion_mass, PR.eta_mass, PR.charged_kaon_mass
MRHO, MOM, MPHI = PR.rho_mass, PR.omega_mass, PR.phi_mass


def lam(a, b, c):
    return max((a - (np.sqrt(b) + np.sqrt(c)) ** 2) * (a - (np.sqrt(b) - np.sqrt(c)) ** 2), 0.0)


def gl(f, a, b, n=8):
    tot = 0.0
    for k in range(n):
        lo, hi = a + (b - a) * k / n, a + (b - a) * (k + 1) / n
        tot += 0.5 * (hi - lo) * sum(w * f(0.5 * (hi + lo) + 0.5 * (hi - lo) * x) for x, w in zip(XG, WG))
    return tot


def dalitz(M, m1, m2, m3, f):
    """Integral of f(s=m23^2, t=m13^2) over the Dalitz plot, with its width normalisation: Gamma = int / (256 pi^3 M^3)."""
    lo, hi = (m2 + m3) ** 2, (M - m1) ** 2
    if hi <= lo:
        return 0.0
    out = 0.0
    th = 0.25 * np.pi * (XG + 1)  # sin^2 substitution resolves both endpoints
    for x, w in zip(th, WG * 0.25 * np.pi):
        s = lo + (hi - lo) * np.sin(x) ** 2
        js = (hi - lo) * np.sin(2 * x)
        e3 = (s + m3 ** 2 - m2 ** 2) / (2 * np.sqrt(s))
        e1 = (M * M - s - m1 ** 2) / (2 * np.sqrt(s))
        p = np.sqrt(max(e3 ** 2 - m3 ** 2, 0) * max(e1 ** 2 - m1 ** 2, 0))
        mid = m1 ** 2 + m3 ** 2 + 2 * e1 * e3
        t = mid + 2 * p * XG
        out += w * js * 2 * p * np.sum(WG * np.array([float(f(s, ti)) for ti in t]))
    return out / (256 * np.pi ** 3 * M ** 3)


def fermi(M, m1, m2, m3, f):
    return dalitz(M, m1, m2, m3, f)


def nc_width(M, ml, same):
    """nu f fbar with couplings gL, gR; the charged current adds one to gL for the neutrino's own lepton."""
    gl_, gr = -0.5 + S2 + (1.0 if same else 0.0), S2

    def f(s, t):
        u = M * M + 2 * ml * ml - s - t
        d = lambda a, b: a * b / 4  # noqa: E731  (N.a)(nu.b)
        nf, nfb = M * M + ml * ml - t, M * M + ml * ml - u   # 2 N.l2, 2 N.l3: t=m13^2 -> recoil of 2
        vf, vfb = u - ml * ml, t - ml * ml                   # 2 nu.l2, 2 nu.l3
        nv = M * M - s
        return 64 * GF ** 2 * (gl_ ** 2 * d(nfb, vf) + gr ** 2 * d(nf, vfb) + gl_ * gr * ml ** 2 * nv / 2)
    return dalitz(M, 0.0, ml, ml, f)


def cc_width(M, ma, mb):
    def f(s, t):
        return 16 * GF ** 2 * (s - ma ** 2 - mb ** 2) * (M * M - s)
    return dalitz(M, 0.0, ma, mb, f)


def ref_widths(mx, theta, fl_):
    u2 = (0.5 * np.tan(2 * theta)) ** 2
    v, l, ml = NU[fl_], fl_, ML[fl_]
    r = {}
    r[v + " a"] = 9 * float(PR.alpha_em) * GF ** 2 * mx ** 5 / (256 * np.pi ** 4)

    def ps0(m, f):
        return GF ** 2 * f ** 2 * mx ** 3 * (1 - (m / mx) ** 2) ** 2 / (16 * np.pi) if mx > m else 0.0

    def vec0(m, g, k):
        return (GF * k * g / m) ** 2 * mx ** 3 / (32 * np.pi) * (1 + 2 * (m / mx) ** 2) * (1 - (m / mx) ** 2) ** 2 if mx > m else 0.0

    def psc(m, f, ck):
        if mx <= m + ml:
            return 0.0
        a, b = (ml / mx) ** 2, (m / mx) ** 2
        return (GF * ck * f) ** 2 * mx ** 3 / (8 * np.pi) * ((1 - a) ** 2 - b * (1 + a)) * np.sqrt(lam(1, a, b))

    def vecc(m, g, ck):
        if mx <= m + ml:
            return 0.0
        a, b = (ml / mx) ** 2, (m / mx) ** 2
        return (GF * ck * g) ** 2 * mx ** 3 / (16 * np.pi * m * m) * ((1 - a) ** 2 + b * (1 + a) - 2 * b * b) * np.sqrt(lam(1, a, b))
    r[v + " pi0"], r[v + " eta"] = ps0(MPI0, 91.924), ps0(META, 57.8)
    r[l + " pi"], r[l + " k"] = 2 * psc(MPI, 92.2138, VUD), 2 * psc(MK, 110.379, VUS)
    r[v + " rho"] = vec0(MRHO, 0.162e6, 1 - 2 * S2)
    r[v + " omega"] = vec0(MOM, 0.153e6, 4 / 3 * S2)
    r[v + " phi"] = vec0(MPHI, 0.234e6, 4 / 3 * S2 - 1)
    r[l + " rho"] = 2 * vecc(MRHO, 0.162e6, VUD)

    def F2(s):
        return abs(FF.form_factor(q=float(np.sqrt(s)), couplings=(2 / 3, -1 / 3))) ** 2
    M2 = mx * mx
    cuts = [4 * MPI ** 2] + [c ** 2 for c in (600, 700, 740, 770, 778, 782, 784, 790, 830, 950, 1200, 1500)]

    def had(f, top):
        if top <= 4 * MPI ** 2:
            return 0.0
        pts = [c for c in cuts if c < top] + [top]
        return sum(gl(f, a, b, 1) for a, b in zip(pts, pts[1:]))
    r[v + " pi pi"] = GF ** 2 * mx ** 3 * (1 - 2 * S2) ** 2 / (768 * np.pi ** 3) * had(
        lambda s: F2(s) * (1 - 4 * MPI ** 2 / s) ** 1.5 * (1 - s / M2) ** 2 * (1 + 2 * s / M2), M2)
    a = (ml / mx) ** 2
    r[l + " pi pi0"] = 0.0 if mx < ml else 2 * VUD ** 2 * GF ** 2 * mx ** 3 / (384 * np.pi ** 3) * had(
        lambda s: F2(s) * (1 - 4 * MPI ** 2 / s) ** 1.5 * np.sqrt(lam(1, s / M2, a)) * ((1 - a) ** 2 + s / M2 * (1 + a) - 2 * (s / M2) ** 2), (mx - ml) ** 2)
    for o in FL:
        r["%s %s %s" % (v, o, o)] = nc_width(mx, ML[o], o == fl_) if mx > 2 * ML[o] else 0.0
        r["%s %s %s" % (v, NU[o], NU[o])] = GF ** 2 * mx ** 5 / (768 * np.pi ** 3) * (2 if o == fl_ else 1)
        if o != fl_:
            w = 2 * cc_width(mx, ML[fl_], ML[o]) if mx > ML[fl_] + ML[o] else 0.0
            r["%s %s %s" % (NU[o], fl_, o)] = r["%s %s %s" % (NU[o], o, fl_)] = w
    return {k: x * u2 for k, x in r.items()}


PS_KEYS = ("pi0", "eta", "pi", "k")
POINT = D.points(["RHNeutrino"], mx=st.one_of(logfl(0.01, 1), logfl(1, 3000), logfl(100, 2000), st.builds(
    lambda m, d: m * (1 + d), st.sampled_from([2 * ML["e"], MPI0, MPI + ML["e"], MPI + ML["mu"], 2 * ML["mu"], 2 * MPI, META, MK + ML["e"], MRHO, MOM, MPHI, ML["tau"] + ML["e"],
                                               ML["tau"] + MPI, ML["e"] + ML["mu"], ML["mu"] + 2 * MPI]), st.sampled_from([-1e-3, -1e-9, 1e-6, 1e-3, 0.02]))), theta=logfl(1e-9, 0.7))


@oracle(POINT, quick=60, thorough=1500)
def widths(d):
    kw = d["kw"]
    m = D.build(d)
    w = cut(m.decay_widths)
    ref = ref_widths(kw["mx"], kw["theta"], kw["flavor"])
    require(set(w) == set(ref) | {"total"}, "channels %s", sorted(w))
    for n, x in ref.items():
        require(np.isfinite(w[n]) and w[n] >= 0, "width into %s is %r", n, w[n])
        if x == 0 or w[n] == 0:
            # within a rounding error of threshold either answer is right
            require(max(x, w[n]) < 1e-9 * max(ref.values()), "width into %s is %r, expected %r", n, w[n], x)
            continue
        tol = 3e-3 if n.count(" ") == 2 else 1e-9
        parts = n.split(" ")
        if len(parts) == 2 and parts[1] in PS_KEYS:
            # listed (pseudoscalar-normalisation): exactly a quarter of the PCAC width
            tol = 1e-7
            if abs(w[n] - x / 4) <= tol * x:
                continue
        close(w[n], x, tol, "width into %s" % n, scale=1e-12 * max(ref.values()))
    close(w["total"], sum(x for n, x in w.items() if n != "total"), 1e-12, "total width")
    some = [n for n in w if n != "total"][::5]
    one = cut(m.decay_width, some)
    for n in some:
        close(one[n], w[n], 1e-12, "single width of " + n, scale=1e-300)
    return [kw["flavor"]] + [n for n in ref if ref[n] > 0]


@finding("pseudoscalar-normalisation")
def _ps():
    return abs(RHNeutrino(300.0, 1e-3, "e").decay_widths()["ve pi0"] / ref_widths(300.0, 1e-3, "e")["ve pi0"] - 0.25) < 1e-6


@oracle(st.tuples(POINT, st.sampled_from(FL)), quick=30, thorough=600)
def matrix_elements(case):
    """Widths are the Dalitz integrals of the package's squared matrix elements; distributions are those of the named particles."""
    d, o = case
    kw = d["kw"]
    m = D.build(d)
    mx, fl_ = kw["mx"], kw["flavor"]
    g, go = Generation(GEN[fl_]), Generation(GEN[o])
    out = []
    trip = [(g, go, go)] + ([(go, g, go), (go, go, g)] if go != g else [])
    for t3 in trip:
        ms = (0.0, ML[FL[t3[1]]], ML[FL[t3[2]]])
        w = cut(W.width_v_l_l, m, *t3)
        if mx <= sum(ms) * (1 + 1e-5):
            continue
        mk = getattr(W, "_make_msqrd_and_masses_v_l_l", None)
        if mk is None:  # a private helper: its results are also seen through the spectra
            continue
        f, masses = cut(mk, m, *t3)
        close(masses, ms, 1e-12, "masses of v l l")
        vals = []

        def fn(s, t):
            v = f(s, t)
            vals.append(v)
            return v
        close(dalitz(mx, *ms, fn), w, 3e-3, "Dalitz integral for %s" % (t3,))
        require(min(vals) >= -1e-6 * max(vals), "negative squared matrix element for %s", t3)
        out.append("v l l")
        if mx > sum(ms) * 1.02:
            dists = cut(W.energy_distributions_v_l_l, m, *t3, nbins=40)
            check_dists(dists, mx, ms, f)
    if True:
        I = dalitz(mx, 0.0, 0.0, 0.0, lambda s, t: W.msqrd_v_v_v(s, t, m, go))
        w = cut(W.width_v_v_v, m, go)
        # listed (vvv-normalisation): the matrix element integrates to exactly six times the width
        require(abs(I / w - 1) < 1e-3 or abs(I / w - 6) < 6e-3, "three-neutrino matrix element integrates to %r of the width", I / w)
        check_dists(cut(W.energy_distributions_v_v_v, m, go, nbins=40), mx, (0.0, 0.0, 0.0), lambda s, t: W.msqrd_v_v_v(s, t, m, go))
    if 2 * MPI * 1.02 < mx < 800:
        close(dalitz(mx, 0.0, MPI, MPI, lambda s, t: cut(W.msqrd_v_pi_pi, s, t, m, FF)), cut(W.width_v_pi_pi, m, FF, epsabs=0.0, epsrel=1e-4), 2e-3, "Dalitz integral for v pi pi")
        out.append("v pi pi")
        check_dists(cut(W.energy_distributions_v_pi_pi, m, FF, nbins=20), mx, (0.0, MPI, MPI), None)
    ml = ML[fl_]
    if (2 * MPI + ml) * 1.02 < mx < 800:
        close(dalitz(mx, ml, MPI, MPI, lambda s, t: cut(W.msqrd_l_pi0_pi, s, t, m, FF)), cut(W.width_l_pi0_pi, m, FF, epsabs=0.0, epsrel=1e-4), 2e-3, "Dalitz integral for l pi pi0")
        out.append("l pi pi0")
    return [fl_] + out


def check_dists(dists, mx, ms, f):
    require(len(dists) == 3, "%d distributions", len(dists))
    mean = []
    for i, dd in enumerate(dists):
        b, p = np.asarray(dd.bins), np.asarray(dd.probabilities)
        others = sum(ms) - ms[i]
        close(b[0], ms[i], 1e-9, "lower edge", scale=1e-9 * mx)
        close(b[-1], (mx * mx + ms[i] ** 2 - others ** 2) / (2 * mx), 1e-9, "upper edge of particle %d" % i)
        pr = p * np.diff(b)
        close(pr.sum(), 1.0, 1e-9, "normalisation")
        require(pr.min() >= -1e-9, "negative probability")
        mean.append(float(np.sum(pr * 0.5 * (b[1:] + b[:-1]))))
    close(sum(mean), mx, 3e-3, "mean energies add up to %r" % mean)


@finding("vvv-normalisation")
def _vvv():
    m = RHNeutrino(300.0, 1e-3, "e")
    return abs(dalitz(300.0, 0, 0, 0, lambda s, t: W.msqrd_v_v_v(s, t, m, Generation(0))) / W.width_v_v_v(m, Generation(0)) - 6) < 6e-3


def msqrd_ref(mx, names, fl_, m):
    """Squared matrix elements (up to normalisation) in terms of s=m23^2, t=m13^2 for the named particles, written for that order."""
    if len(names) == 2:
        return None
    a, b, c = names
    if a in NU.values() and b in NU.values():
        return lambda s, t: s * t + (s + t) * (mx * mx - s - t)
    if b in ("pi", "pi0"):
        ml = ML.get(a, 0.0)

        def had(s, t):
            F = np.abs(FF.form_factor(q=np.sqrt(s), couplings=(2 / 3, -1 / 3))) ** 2
            u = mx * mx + ml * ml + 2 * MPI ** 2 - s - t
            pa, pb = 0.5 * (mx * mx + MPI ** 2 - t), 0.5 * (mx * mx + MPI ** 2 - u)   # N.p2, N.p3
            qa, qb = 0.5 * (u - ml ** 2 - MPI ** 2), 0.5 * (t - ml ** 2 - MPI ** 2)     # l.p2, l.p3
            q2 = 4 * MPI ** 2 - s
            nl = 0.5 * (mx * mx + ml ** 2 - s)
            return (2 * (pa - pb) * (qa - qb) - nl * q2) * F
        return had
    own = NU[fl_]
    m2, m3 = ML[b], ML[c]
    if a == own:
        same = b == fl_
        gl_, gr = -0.5 + S2 + (1.0 if same else 0.0), S2
        ml = m2

        def nc(s, t):
            u = mx * mx + 2 * ml * ml - s - t
            x = gl_ ** 2 + gr ** 2
            return x * ((mx * mx + ml * ml - u) * (u - ml * ml) + (mx * mx + ml * ml - t) * (t - ml * ml)) + 4 * gl_ * gr * ml ** 2 * (mx * mx - s)
        return nc
    l, dn = (m2, m3) if b == fl_ else (m3, m2)

    def cc(s, t):
        x = t if b == fl_ else mx * mx + m2 * m2 + m3 * m3 - s - t   # invariant mass of the neutrino and the other lepton
        return (x - dn * dn) * (mx * mx + l * l - x)
    return cc


@oracle(st.tuples(D.points(["RHNeutrino"], mx=st.one_of(logfl(1, 1500), logfl(300, 1500)), theta=logfl(1e-6, 0.1)), st.integers(0, 21),
                  st.lists(fl(-0.1, 1), min_size=1, max_size=4), st.sampled_from(["photon", "positron", "neutrino"])), quick=120, thorough=3000)
def channel_spectra(case):
    d, i, us, prod = case
    kw = d["kw"]
    m = D.build(d)
    mx, fl_ = kw["mx"], kw["flavor"]
    chans = [n for n, x in cut(m.decay_widths).items() if n != "total" and not n.endswith(" a") and x > 0 or n.endswith("pi0")]
    ch = chans[i % len(chans)]
    F = {"photon": m.spectrum_funcs, "positron": m.positron_spectrum_funcs, "neutrino": getattr(m, "_neutrino_spectrum_funcs", None)}[prod]
    if F is None:
        return None
    es = mx / 2 * np.array([10 ** (-2.5 * u) for u in us])
    f = cut(cut(F)[ch], es)
    names = ch.split(" ")
    names = ["rho0" if n == "rho" and names[0] in NU.values() else n for n in names]
    if names[1:] == ["pi", "pi0"]:
        names = [names[0], "pi0", "pi"]
    from hazma.parameters import standard_model_masses as SM
    if mx < sum(SM[n] for n in names):
        require(np.all(np.asarray(f) == 0), "%s below threshold has a spectrum", ch)
        return "below threshold"
    fn = {"photon": spectra.dnde_photon, "positron": spectra.dnde_positron, "neutrino": spectra.dnde_neutrino}[prod]
    kws = dict(include_fsr=True, average_fsr=True) if prod == "photon" else {}
    if len(names) == 3:
        kws.update(msqrd=msqrd_ref(mx, names, fl_, m), msqrd_signature="st", nbins=30, three_body_integrator="quad")
    ref = fn(es, mx, tuple(names), **kws)
    finite_nonneg(f, "%s spectrum of %s" % (prod, ch), 1e-9)
    require(np.shape(f) == np.shape(ref), "shape %s", np.shape(f))
    close(f, ref, 5e-3 if len(names) == 3 else 1e-9, "%s spectrum of %s" % (prod, ch), scale=1e-5 * np.max(ref) + 1e-300)
    return [ch, prod]


@oracle(D.points(["RHNeutrino"]), quick=150, thorough=2000)
def lines(d):
    kw = d["kw"]
    m = D.build(d)
    mx, fl_ = kw["mx"], kw["flavor"]
    bf = cut(m.decay_branching_fractions)
    g = cut(m.gamma_ray_lines)
    require(set(g) == {NU[fl_] + " a"}, "photon lines %s", sorted(g))
    close(g[NU[fl_] + " a"]["energy"], mx / 2, 1e-12, "photon line")
    p = cut(m.positron_lines)
    exp = {"e " + k: (mx * mx + ML["e"] ** 2 - mm ** 2) / (2 * mx) for k, mm in (("pi", MPI), ("k", MK)) if fl_ == "e" and mx > mm + ML["e"]}
    require(set(p) == set(exp), "positron lines %s, expected %s", sorted(p), sorted(exp))
    for k, e in exp.items():
        close(p[k]["energy"], e, 1e-9, "positron line of " + k)
        close(p[k]["bf"], bf[k], 1e-12, "branching fraction of the line " + k)
    n = getattr(m, "_neutrino_line_energies", None)
    if n is not None:
        v = NU[fl_]
        exp = {v + " a": mx / 2}
        for k, mm in (("pi0", MPI0), ("eta", META)):
            if mx > mm:
                exp[v + " " + k] = (mx * mx - mm * mm) / (2 * mx)
        got = cut(n)
        require(set(got) == set(exp), "neutrino lines %s, expected %s", sorted(got), sorted(exp))
        for k, e in exp.items():
            close(got[k], e, 1e-9, "neutrino line of " + k)
    return [fl_] + list(p)
