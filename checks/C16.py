"""GeV-scale vector models (general, kinetic mixing, B-L) at generated masses, couplings and energies.  Oracle: closed-form leptonic widths,
every width through the propagator for the cross sections, the general model at the couplings each submodel stands for, exact coupling
scaling, and channel spectra assembled from the particle spectra at the energies of the channel's actual particles (two-body kinematics, or
the channel's own energy distributions); pair-produced mediators by boosting the mediator's decay.  Non-trivial: something is open."""
import math
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl, signed
from checks import models as D
from ref import dirac as T
from hazma import spectra as SP
from hazma.spectra import altarelli_parisi as AP
from hazma.form_factors import vector as vff

ASSUMPTIONS = ["the hadronic form factors themselves are C20's subject; here they enter as partial widths and energy distributions",
               "positron spectra of these models count electrons and positrons, as the package does", "four-body channels are Monte Carlo: statistical tolerances",
               "photon lines (pi0 gamma, eta gamma) and positron/neutrino lines are not in the channel's continuum; final-state radiation of "
               "mesons other than pions and kaons, and in channels with other mesons, is neglected, as documented"]
ME, MMU, MPI, MPI0 = 0.5109989461, 105.6583745, 139.57039, 134.9768
MK, MK0, META, METAP, MW, MPHI = 493.677, 497.611, 547.862, 957.78, 782.66, 1019.461
QE = math.sqrt(4 * math.pi * D.ALPHA)
M = dict(e=ME, mu=MMU, ve=0, vm=0, vt=0, pi=MPI, pi0=MPI0, k=MK, k0=MK0, eta=META, etap=METAP, omega=MW, phi=MPHI, gamma=0)
CH = ["e e", "mu mu", "ve ve", "vm vm", "vt vt", "pi pi", "k0 k0", "k k", "pi0 gamma", "eta gamma", "pi0 phi", "eta phi", "eta omega", "pi0 pi0 gamma", "pi pi pi0",
      "pi pi eta", "pi pi etap", "pi pi omega", "pi0 pi0 omega", "pi0 k0 k0", "pi0 k k", "pi k k0", "pi pi pi pi", "pi pi pi0 pi0"]
LEP = dict(zip(CH[:5], ["gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"]))
QUARK = ["gvuu", "gvdd", "gvss"]
NAMES = ["gvxx"] + QUARK + list(LEP.values())
MC = CH[-2:]
MCT = {c: 0.5 for c in MC}
MCT["pi pi pi0"] = 0.08


def thr(c):
    return MPI0 + MW if c == "pi0 pi0 gamma" else sum(M[p] for p in c.split())


def couplings(d):
    k = d["kw"]
    if d["cls"] == "KineticMixingGeV":
        e = k["eps"] * QE
        return dict(gvxx=k["gvxx"], gvuu=-2 * e / 3, gvdd=e / 3, gvss=e / 3, gvee=e, gvmumu=e, gvveve=0., gvvmvm=0., gvvtvt=0.)
    if d["cls"] == "BLGeV":
        g = k["g"]
        return dict(gvxx=k["gvxx"], gvuu=g / 3, gvdd=g / 3, gvss=g / 3, gvee=-g, gvmumu=-g, gvveve=-g, gvvmvm=-g, gvvtvt=-g)
    return {n: k[n] for n in NAMES}


def fwidth(g, mf, m, nu=False):
    if m <= 2 * mf:
        return 0.0
    return g * g * math.sqrt(1 - 4 * mf * mf / m / m) * (m * m + 2 * mf * mf) / (12 * math.pi * m) / (2 if nu else 1)


LEPM = {c: (ME if c == "e e" else MMU if c == "mu mu" else 0.0) for c in LEP}
SC = {c: "sigma_xx_to_" + c.replace(" ", "_") for c in CH + ["v v"]}
WD = {c: "width_v_to_" + c.replace(" ", "_") for c in CH + ["x x"]}
# masses: mostly cheap ones; thresholds of the heavier channels; occasionally up to 2 GeV
MV = st.one_of(logfl(1, 1000), logfl(1, 1000), logfl(1, 1000), st.tuples(st.sampled_from(CH[:14]), fl(-2e-3, 2e-3)).map(lambda t: max(thr(t[0]), 1.0) * (1 + t[1])), fl(1000, 2000))
GENERAL = ["VectorMediatorGeV", "VectorMediatorGeV", "KineticMixingGeV", "BLGeV"]


@oracle(st.tuples(D.points(GENERAL, mv=MV), st.one_of(st.none(), fl(-1e-3, 1e-3))), quick=80, thorough=4000)
def widths(case):
    d, tie = case
    if tie is not None:
        d = dict(cls=d["cls"], kw=dict(d["kw"], mx=d["kw"]["mv"] / 2 * (1 + tie)))
    m = D.build(d)
    k, mv, mx = couplings(d), m.mv, m.mx
    for n, v in k.items():
        close(getattr(m, n), v, 1e-14, "coupling " + n)
    pw = cut(m.partial_widths)
    require(set(pw) == set(CH) | {"x x"}, "partial widths for %s", sorted(pw))
    for c, g in LEP.items():
        close(pw[c], fwidth(k[g], LEPM[c], mv, LEPM[c] == 0), 1e-10 + 1e-14 / max(abs(1 - 2 * LEPM[c] / mv), 1e-16), "width of V -> %s (mv=%r)" % (c, mv))
    close(pw["x x"], fwidth(k["gvxx"], mx, mv), 1e-10 + 1e-14 / max(abs(1 - 2 * mx / mv), 1e-16), "width of V -> x x")
    for c in CH:
        w = pw[c]
        finite_nonneg(float(w), "width of V -> %s (mv=%r)" % (c, mv))
        if mv <= thr(c) * (1 - 1e-9):
            require(w == 0.0, "V -> %s below threshold (mv=%r): %r", c, mv, w)
        # a channel of identical structure with the opposite charge assignment never vanishes identically
        elif mv > thr(c) * (1 + 1e-6) and d["cls"] == "KineticMixingGeV" and c not in ("ve ve", "vm vm", "vt vt"):
            require(w > 0.0, "photon-like mediator does not decay to %s above threshold (mv=%r)", c, mv)
        close(float(cut(getattr(m, WD[c]))), float(w), MCT.get(c, 1e-6), "partial width of " + c)
    close(float(cut(m.width_v)), sum(pw.values()), 1e-12, "total width")
    if d["cls"] != "VectorMediatorGeV":
        g = D.build(dict(cls="VectorMediatorGeV", kw=dict(mx=mx, mv=mv, **k)))
        for c, w in cut(g.partial_widths).items():
            close(pw[c], w, MCT.get(c, 1e-6), "width of V -> %s in %s and in the general model with its couplings" % (c, d["cls"]))
    n = sum(pw[c] > 0 for c in CH)
    return "%s:%d" % (d["cls"], n) if n else None


@oracle(st.tuples(D.points("VectorMediatorGeV", mv=st.one_of(logfl(100, 1000), fl(600, 1300)), **{q: NZ for q, NZ in [(q, signed(fl(0.05, 1))) for q in QUARK]}), st.sampled_from([2.0, -2.0, 0.25])),
        quick=30, thorough=1500)
def scaling(case):
    """quark couplings scale every hadronic width and rate quadratically and no leptonic one; lepton couplings only their own channel"""
    d, f = case
    kw = d["kw"]
    base = D.build(d)
    a = cut(base.partial_widths)
    b = cut(D.build(dict(cls=d["cls"], kw=dict(kw, **{q: kw[q] * f for q in QUARK}))).partial_widths)
    c = cut(D.build(dict(cls=d["cls"], kw=dict(kw, **{g: kw[g] * f for g in LEP.values()}))).partial_widths)
    for ch in CH:
        t = MCT.get(ch, 1e-11)
        close(b[ch], a[ch] * (1.0 if ch in LEP else f * f), t, "V -> %s after scaling the quark couplings by %r" % (ch, f))
        close(c[ch], a[ch] * (f * f if ch in LEP else 1.0), t, "V -> %s after scaling the lepton couplings by %r" % (ch, f))
    close(b["x x"], a["x x"], 1e-13, "V -> x x after scaling quark couplings")
    n = sum(a[ch] > 0 for ch in CH if ch not in LEP)
    return "hadronic:%d" % n if n else None




ENERGY = st.one_of(logfl(1e-4, 0.05), logfl(0.02, 2.0), logfl(0.02, 2.0), fl(-0.5, -1e-6))


@oracle(st.tuples(D.points(GENERAL, mv=st.one_of(logfl(1, 900), logfl(1, 900), fl(900, 1500)), mx=logfl(1, 700)), ENERGY, st.sampled_from(["mx", "channel", "res"])),
        params=CH, quick=14, thorough=300)
def propagator(case, c):
    """sigma_i(Q) is the width into i of a mediator of mass Q, seen through the propagator"""
    d, x, tie = case
    m = D.build(d)
    q = {"mx": 2 * m.mx, "channel": max(thr(c), 2.0), "res": m.mv}[tie] * (1 + x)
    if len(c.split()) > 2 and q > 2200:
        return None
    mx, mv = m.mx, m.mv
    got = cut(getattr(m, SC[c]), q)
    if c in MC:
        if q <= 2 * mx or q < thr(c):
            require(got == 0.0, "cross section of %s below threshold (Q=%r, 2mx=%r): %r", c, q, 2 * mx, got)
            return "closed"
    require(np.ndim(got) == 0, "cross section of %s at a single energy has shape %s", c, np.shape(got))
    arr = cut(getattr(m, SC[c]), np.array([q, 0.5 * min(2 * mx, max(thr(c), 1.0)), q]))
    require(np.shape(arr) == (3,) and arr[1] == 0.0, "cross section of %s for three energies, the second below threshold: %r", c, arr)
    close(float(arr[0]), float(got), MCT.get(c, 1e-12), "cross section of %s over an array" % c)
    if q <= 2 * mx or q < thr(c) * (1 - 1e-12):
        require(got == 0.0, "cross section of %s below threshold (Q=%r, 2mx=%r): %r", c, q, 2 * mx, got)
        return "closed"
    finite_nonneg(float(got), "cross section of %s at %r" % (c, q))
    if abs(q - thr(c)) < 1e-12 * q or q < 2 * mx * (1 + 1e-13):
        return None
    wv = float(m.width_v())
    other = D.build(dict(cls=d["cls"], kw=dict(d["kw"], mv=q)))
    gam = float(cut(getattr(other, WD[c])))
    prop = (q * q - mv * mv) ** 2 + (mv * wv) ** 2
    ref = m.gvxx ** 2 * (q * q + 2 * mx * mx) * gam / (math.sqrt(q * q - 4 * mx * mx) * prop)
    t = MCT.get(c, 1e-6) + 1e-14 / abs(1 - 2 * mx / q) + 1e-14 * q * q / math.sqrt(prop) + (1e-14 / abs(1 - thr(c) / q) if thr(c) else 0)
    close(float(got), ref, t, "sigma(x x -> %s) at Q=%r (mv=%r) against the width of a mediator of that mass" % (c, q, mv))
    return c if ref > 0 else None


@oracle(st.tuples(D.points(GENERAL, mv=logfl(1, 900), mx=logfl(1, 500)), logfl(1e-3, 1.0)), quick=200, thorough=4000)
def fractions(case):
    d, x = case
    m = D.build(d)
    mx, mv = m.mx, m.mv
    q = min(2 * mx * (1 + x), 1100.0)
    if q <= 2 * mx:
        return None
    mc = q > 4 * MPI0
    sig = cut(m.annihilation_cross_sections, q)
    own = {c: float(cut(getattr(m, n), q)) for c, n in SC.items()}
    require(set(sig) == set(own) | {"total"}, "channels %s", sorted(sig))
    tot = sum(own.values())
    for c, v in own.items():
        close(float(sig[c]), v, MCT.get(c, 1e-12), "cross section of " + c)
    close(float(sig["total"]), sum(float(v) for c, v in sig.items() if c != "total"), 1e-12, "inclusive cross section")
    bf = cut(m.annihilation_branching_fractions, q)
    if tot == 0:
        return None
    close(sum(float(bf[c]) for c in own), 1.0, 0.02 if mc else 1e-12, "sum of branching fractions")
    for c, v in own.items():
        close(float(bf[c]), v / tot, MCT.get(c, 0.03) if mc else 1e-12, "branching fraction of " + c, scale=1e-6 if mc else 0)
    if q > 2 * mv * (1 + 1e-9):
        b = math.sqrt((1 - 4 * mx * mx / q / q) * (1 - 4 * mv * mv / q / q))
        close(own["v v"], T.xx_to_vv(q, mx, mv, m.gvxx), 1e-8 + 1e-12 / b ** 2, "sigma(x x -> V V) at %r" % q)
    else:
        require(own["v v"] == 0.0 or q > 2 * mv, "V V below threshold")
    return "%s:%s" % (d["cls"], "vv" if own["v v"] > 0 else "s")


# ---- spectra -------------------------------------------------------------------------------------------------------------------------
NONE = lambda e, E, *a: np.zeros_like(e)        # noqa: E731


def part(kind, p, flavor):
    """spectrum function of a particle for one product kind"""
    nm = dict(mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", kl="long_kaon", ks="short_kaon", eta="eta", etap="eta_prime", omega="omega", phi="phi").get(p)
    if nm is None:
        return NONE
    f = getattr(SP, "dnde_%s_%s" % (kind, nm), None)
    if f is None:
        return NONE
    return (lambda e, E: np.asarray(f(e, E, flavor))) if kind == "neutrino" else f


def summed(parts, kind, flavor):
    fs = [part(kind, p, flavor) for p in parts]
    return lambda e, E: sum(w * np.asarray(f(e, E)) for w, f in zip([1.0 / len(fs)] * len(fs), fs))


KIND = st.sampled_from([("photon", None), ("photon", None), ("positron", None), ("neutrino", "e"), ("neutrino", "mu")])
SEEN = {"photon": "spectrum_funcs", "positron": "positron_spectrum_funcs", "neutrino": "neutrino_spectrum_funcs"}


def channel(m, kind, flavor, c):
    fs = getattr(m, SEEN[kind])
    return (fs(flavor) if kind == "neutrino" else fs())[c]


def fsr(kind, p, e, s):
    if kind != "photon" or p not in ("e", "mu", "pi", "k"):
        return np.zeros_like(e)
    f = AP.dnde_photon_ap_fermion if p in ("e", "mu") else AP.dnde_photon_ap_scalar
    return 2 * np.asarray(f(e, s, M[p], charge=-1.0))


TWO = [c for c in CH if len(c.split()) == 2]
ES = st.lists(fl(0.001, 1.05), min_size=1, max_size=6)
GEN = dict(gvuu=signed(fl(0.1, 1)), gvdd=signed(fl(0.1, 1)), gvss=signed(fl(0.1, 1)), gvee=signed(fl(0.1, 1)), gvmumu=signed(fl(0.1, 1)))


def two_body(kind, flavor, c, q, e):
    a, b = c.split()
    ma, mb = M[a], M[b]
    ea, eb = (q * q + ma * ma - mb * mb) / (2 * q), (q * q - ma * ma + mb * mb) / (2 * q)
    r = fsr(kind, a, e, q * q) if a == b else np.zeros_like(e)
    if c == "k0 k0":        # one long, one short
        return r + part(kind, "kl", flavor)(e, ea) + part(kind, "ks", flavor)(e, eb)
    return r + part(kind, a, flavor)(e, ea) + part(kind, b, flavor)(e, eb)


@oracle(st.tuples(D.points("VectorMediatorGeV", mx=logfl(1, 20), mv=logfl(1, 300), **GEN), st.sampled_from(TWO), KIND, logfl(1e-4, 1.0), ES), quick=700, thorough=20000)
def two_body_spectra(case):
    d, c, (kind, flavor), x, es = case
    m = D.build(d)
    q = max(thr(c), 2 * m.mx) * (1 + x)
    e = np.sort(np.array(es)) * q / 2 + (ME if kind == "positron" else 0)
    got = np.asarray(cut(channel(m, kind, flavor, c), e, q))
    require(got.shape == e.shape, "%s spectrum of %s has shape %s", kind, c, got.shape)
    if float(getattr(m, SC[c])(q)) == 0.0:
        require(not np.any(got), "%s spectrum of the closed channel %s", kind, c)
        return None
    ref = two_body(kind, flavor, c, q, e)
    close(got, ref, 1e-9, "%s spectrum of %s at %r" % (kind + (" " + flavor if flavor else ""), c, q), scale=1e-12)
    return "%s:%s" % (kind, c) if np.any(ref != 0) else None


FF = {"pi pi pi0": ("PiPiPi0", ["pi0", "pi", "pi"], "pi"), "pi pi eta": ("PiPiEta", ["eta", "pi", "pi"], None), "pi pi etap": ("PiPiEtaPrime", ["etap", "pi", "pi"], None),
      "pi pi omega": ("PiPiOmega", ["omega", "pi", "pi"], None), "pi0 pi0 omega": ("Pi0Pi0Omega", ["omega", "pi0", "pi0"], None), "pi0 k0 k0": ("Pi0K0K0", ["kl", "ks", "pi0"], None),
      "pi0 k k": ("Pi0KpKm", ["k", "k", "pi0"], None), "pi k k0": ("PiKK0", ["k0", "k", "pi"], None), "pi pi pi pi": ("PiPiPiPi", ["pi"] * 4, "pi"),
      "pi pi pi0 pi0": ("PiPiPi0Pi0", ["pi", "pi", "pi0", "pi0"], "pi")}
MASS = dict(M, kl=MK0, ks=MK0)


def n_body(kind, flavor, c, q, cp, e):
    """decay part, and the pair invariant masses for radiation"""
    name, order, rad = FF[c]
    ff = getattr(vff, "VectorFormFactor" + name)()
    dists = ff.energy_distributions(q=q, couplings=vff.VectorFormFactorCouplings(*cp), nbins=40)
    tot = np.zeros_like(e)
    mean = 0.0
    for p, dist in zip(order, dists):
        b, w = np.asarray(dist.bin_centers), np.asarray(dist.probabilities)
        require(b.min() > MASS[p] * (1 - 1e-6), "energies of the %s in %s start at %r", p, c, b.min())
        w = w * np.diff(dist.bins)
        w = w / w.sum()
        mean += (b * w).sum()
        f = summed(["kl", "ks"], kind, flavor) if p == "k0" else part(kind, p, flavor)
        if f is not NONE:
            tot = tot + sum(wi * np.asarray(f(e, bi)) for wi, bi in zip(w, b) if wi > 0)
    close(mean, q, 0.01, "mean energies of the particles of %s" % c)
    lo = hi = np.zeros_like(e)
    if rad and kind == "photon":        # radiation of the charged pair(s), between the kinematic extremes of the pair's mass
        pairs = 2 if c == "pi pi pi pi" else 1
        rest = sum(MASS[p] for p in order) - 2 * MPI
        top = q - rest
        # radiation of a given scale is increasing in the pair mass
        hi = pairs * 2 * np.asarray(AP.dnde_photon_ap_scalar(e, top ** 2, MPI))
    return tot, lo, hi


def pair_fsr(c, q, cp, e):
    """radiation averaged over the distribution of the charged pair's mass, from the channel's own invariant-mass distributions"""
    name, order, rad = FF[c]
    ff = getattr(vff, "VectorFormFactor" + name)()
    inv = ff.invariant_mass_distributions(q=q, couplings=vff.VectorFormFactorCouplings(*cp), nbins=40)
    keys = {"pi pi pi0": [((1, 2), 1.0)], "pi pi pi0 pi0": [((0, 1), 1.0)], "pi pi pi pi": [((0, 1), 2.0)]}[c]
    r = np.zeros_like(e)
    for k, wt in keys:
        b, w = np.asarray(inv[k].bin_centers), np.asarray(inv[k].probabilities) * np.diff(inv[k].bins)
        w = w / w.sum()
        r = r + wt * sum(wi * 2 * np.asarray(AP.dnde_photon_ap_scalar(e, bi ** 2, MPI)) for wi, bi in zip(w, b))
    return r


@oracle(st.tuples(D.points("VectorMediatorGeV", mx=logfl(1, 20), mv=logfl(1, 300), **GEN), KIND, logfl(3e-3, 0.6), ES), params=sorted(FF), quick=16, thorough=250)
def n_body_spectra(case, c):
    d, (kind, flavor), x, es = case
    m = D.build(d)
    q = thr(c) * (1 + x)
    e = np.sort(np.array(es)) * q / 2 + (ME if kind == "positron" else 0)
    cp = tuple(d["kw"][k] for k in QUARK)
    if float(getattr(m, WD[c].replace("width_v", "sigma_xx"))(q)) == 0.0:
        return None
    got = np.asarray(cut(channel(m, kind, flavor, c), e, q))
    dec, lo, hi = n_body(kind, flavor, c, q, cp, e)
    # tolerance: 25-bin trapezoid against 40-bin sums; the spectra vary over the bins, so compare with the peak as well
    grid = np.geomspace(0.02 * q, 0.5 * q, 25)
    peak = np.max(n_body(kind, flavor, c, q, cp, grid)[0]) if np.any(dec) or kind == "photon" else 0.0
    rel, ab = (0.15, 0.04) if c in MC else (0.08, 0.02)
    rad = pair_fsr(c, q, cp, e) if kind == "photon" and FF[c][2] else 0 * e
    ref = dec + rad
    bad = np.abs(got - ref) > rel * np.abs(ref) + ab * peak
    require(not np.any(bad), "%s spectrum of %s at Q=%r, energies %r: %r instead of %r", kind + (" " + flavor if flavor else ""), c, q, e[bad], got[bad], ref[bad])
    return "%s" % kind if np.any(ref > 0) else None


@oracle(st.tuples(D.points("VectorMediatorGeV", mx=logfl(1, 20), mv=logfl(1, 300), **GEN), logfl(1e-3, 0.5)), quick=60, thorough=1000)
def omega_pion(case):
    """pi0 pi0 gamma is omega pi0 with omega -> pi0 gamma: three photons' worth of pions plus one, conserving energy"""
    d, x = case
    m = D.build(d)
    q = thr("pi0 pi0 gamma") * (1 + x)
    if float(m.sigma_xx_to_pi0_pi0_gamma(q)) == 0.0:
        return None
    e = np.linspace(1e-3, q / 2 * 1.0001, 6001)
    got = np.asarray(cut(channel(m, "photon", None, "pi0 pi0 gamma"), e, q))
    de = e[1] - e[0]
    br = 0.98823
    epi = (q * q + MPI0 ** 2 - MW ** 2) / (2 * q)
    eom = q - epi
    eg = (MW ** 2 - MPI0 ** 2) / (2 * MW) * eom / MW        # mean energy of the photon after the boost
    close(got.sum() * de, 1 + 4 * br, 0.02, "number of photons in pi0 pi0 gamma at %r" % q)
    close((got * e).sum() * de, eg + br * (q - eg), 0.02, "energy of the photons in pi0 pi0 gamma at %r" % q)
    return "%d" % (3 * x)


@oracle(st.tuples(D.points(GENERAL, mv=logfl(3, 540)), KIND, logfl(1e-5, 2.0), ES), quick=200, thorough=4000)
def mediator_pairs(case):
    """V V: each mediator's decay at rest (channel spectra at Q = mv, weighted with the widths, lines included) boosted to half the energy"""
    d, (kind, flavor), x, es = case
    mv = d["kw"]["mv"]
    q = 2 * mv * (1 + x)
    d = dict(cls=d["cls"], kw=dict(d["kw"], mx=mv * (1 + x) * 0.9))
    m = D.build(d)
    if float(m.sigma_xx_to_v_v(q)) == 0.0:
        return None
    g = q / (2 * mv)
    b = math.sqrt(1 - 1 / g ** 2)
    mass = ME if kind == "positron" else 0.0
    emax = g * (1 + b) * mv / 2
    e = mass + np.sort(np.array(es)) * emax
    got = np.asarray(cut(channel(m, kind, flavor, "v v"), e, q))
    rest = D.build(dict(cls=d["cls"], kw=dict(d["kw"], mx=mv * 1e-3)))
    pw = {k: float(v) for k, v in m.partial_widths().items()}
    tot = sum(pw.values())
    if tot == 0:
        return None
    # rest frame spectrum on a rapidity grid; dN/dE = int dN/dE' dE'/(2 g b k')
    top = mv / 2
    y = np.linspace(math.log(1e-4 * mv) if mass == 0 else 0.0, math.log(top) if mass == 0 else math.acosh(max(top / mass, 1.0)), 3001)
    E = np.exp(y) if mass == 0 else mass * np.cosh(y)
    r = np.zeros_like(E)
    for c in CH:
        if pw[c] > 0:
            r += pw[c] / tot * np.asarray(channel(rest, kind, flavor, c)(E, mv))
    cum = np.concatenate([[0.0], np.cumsum(0.5 * (r[1:] + r[:-1]) * np.diff(y))])
    k = np.sqrt(np.clip(e * e - mass * mass, 0, None))
    rap = (lambda v: np.log(v)) if mass == 0 else (lambda v: np.arccosh(np.clip(v / mass, 1, None)))
    lo, hi = rap(g * (e - b * k)), rap(g * (e + b * k))
    I = (np.interp(hi, y, cum) - np.interp(lo, y, cum)) / (2 * g * b)
    ref = 2 * I
    lines = []
    if kind == "photon":
        lines = [(pw[c] / tot * 2, (mv * mv - M[p] ** 2) / (2 * mv)) for c, p in (("pi0 gamma", "pi0"), ("eta gamma", "eta")) if mv > M[p]]
    elif kind == "positron":
        lines = [(pw["e e"] / tot * 4, mv / 2)] if mv > 2 * ME else []
    else:
        lines = [(pw[{"e": "ve ve", "mu": "vm vm"}[flavor]] / tot * 4, mv / 2)]
    edge = np.zeros(e.shape, bool)
    for w, e0 in lines:
        k0 = math.sqrt(max(e0 * e0 - mass * mass, 0))
        if k0 == 0:
            continue
        a, z = g * (e0 - b * k0), g * (e0 + b * k0)
        ref = ref + np.where((e > a) & (e < z), w / (2 * g * b * k0), 0.0)
        edge |= (np.abs(e / a - 1) < 1e-6) | (np.abs(e / z - 1) < 1e-6)
    # both sides sample the rest-frame spectrum; the samplings differ near its endpoint and at low energy
    I2 = (np.interp(hi + 0.02, y, cum) - np.interp(lo - 0.02, y, cum)) / (2 * g * b)
    I3 = (np.interp(np.maximum(hi - 0.02, lo), y, cum) - np.interp(np.minimum(lo + 0.02, hi), y, cum)) / (2 * g * b)
    tol = 0.02 * np.abs(ref) + 2 * np.abs(I2 - I3) * 0.5 + 1e-12 + 0.004 * 2 * np.max(r) / (2 * g * b)
    bad = (np.abs(got - ref) > tol) & ~edge & np.isfinite(ref)
    require(not np.any(bad), "%s spectrum of V V at Q=%r (mv=%r), energies %r: %r instead of %r", kind, q, mv, e[bad], got[bad], ref[bad])
    require(np.all(np.isfinite(got)), "%s spectrum of V V: %r", kind, got)
    return "%s:%s" % (kind, d["cls"]) if np.any(ref > 0) else None


@oracle(st.tuples(D.points(GENERAL, mv=logfl(1, 900), mx=logfl(1, 400)), logfl(1e-3, 0.5)), quick=120, thorough=2500)
def lines(case):
    d, x = case
    m = D.build(d)
    q = 2 * m.mx * (1 + x)
    sig = {c: float(cut(getattr(m, n), q)) for c, n in SC.items()}
    tot = sum(sig.values())
    if tot == 0 or q > 1000:
        return None
    mc = 0.02 if q > 4 * MPI0 else 1e-12
    exp = {c: (sig[c] / tot, (q * q - M[p] ** 2) / (2 * q)) for c, p in (("pi0 gamma", "pi0"), ("eta gamma", "eta"))}
    n = 0

    def same(got, exp, what):
        nonlocal n
        for c in set(got) | set(exp):
            bf = exp.get(c, (0.0, 0.0))[0]
            if c not in got:
                require(bf == 0, "%s line of %s is missing", what, c)
                continue
            close(float(got[c]["bf"]), bf, mc, "weight of the %s line of %s" % (what, c), scale=1e-9)
            if bf > 0:
                close(float(got[c]["energy"]), exp[c][1], 1e-9, "energy of the %s line of %s" % (what, c))
                n += 1
    same(cut(m.gamma_ray_lines, q), exp, "photon")
    same(cut(m.positron_lines, q), {"e e": (sig["e e"] / tot, q / 2)}, "positron")
    for f, c in (("e", "ve ve"), ("mu", "vm vm"), ("tau", "vt vt")):
        same(cut(m.neutrino_lines, q, f), {c: (sig[c] / tot, q / 2)}, "nu_" + f)
    return "%d" % n if n else None
