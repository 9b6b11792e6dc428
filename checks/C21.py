"""Photon and positron spectra of annihilation in the mediator models at generated masses, couplings and energies.  Oracle: final-state
radiation from explicit amplitudes (Dirac traces, scalar QED) integrated numerically; soft limit; pair channels re-assembled from the
single-particle spectra; mediator (pair) channels by an independent boost quadrature of the mediator's rest-frame spectrum.
Non-trivial: some spectrum value is positive."""
import math
import numpy as np
from scipy.integrate import quad
from vlib.runner import oracle, require, close, cut, finite_nonneg, finding
from checks.common import st, fl, logfl
from checks import models as D
from checks.models import W, ALPHA
from ref import fsr as F
from ref import boost as B
from hazma import spectra as S
from hazma.scalar_mediator.scalar_mediator_decay_spectrum import scalar_mediator_decay_spectrum as s_photon
from hazma.scalar_mediator.scalar_mediator_positron_spec import dnde_decay_s as s_positron
from hazma.vector_mediator.vector_mediator_decay_spectrum import dnde_decay_v as v_photon
from hazma.vector_mediator.vector_mediator_positron_spec import dnde_decay_v as v_positron

ASSUMPTIONS = ["single-particle spectra are decided by C08-C10, rates by C14 and C15",
               "mediator spectra are tabulated (500 points) and integrated adaptively by the package: compared to a few per mille of the local scale"]
LME, LMMU, LMPI, LMPI0, LALPHA = 0.510998928, 105.6583715, 139.57018, 134.9766, 1 / 137.0
NTAB = 500


# ------------------------------------------------------------------ final-state radiation
US = st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "edge", "out"])), min_size=1, max_size=6)


def photon_energies(us, top, soft=6):
    return np.array([top * (10 ** (-soft * (1 - u)) if k == "log" else max(u, 1e-9) if k == "lin" else 1 + (u - .5) * 1e-2 if k == "edge" else 1 + u + 1e-9) for u, k in us])


@oracle(st.tuples(st.sampled_from(D.SCALAR + D.VECTOR).flatmap(D.points), st.sampled_from(["e", "mu", "pi"]), st.one_of(logfl(1e-3, .1), logfl(.05, 30)), US, st.booleans()), quick=900)
def fsr(case):
    d, part, x, us, closed = case
    m = D.build(d)
    mass = dict(e=W["me"], mu=W["mmu"], pi=W["mpi"])[part]
    scalar = d["cls"] in D.SCALAR
    Q = 2 * max(m.mx, mass) * (1 + x)
    if closed:
        Q = 2 * min(m.mx, mass) + x / (1 + x) * 2 * abs(m.mx - mass)
    top = (Q * Q - 4 * mass * mass) / (2 * Q)
    is_open = Q > 2 * max(m.mx, mass)
    e = photon_energies(us, max(top, 1e-3 * Q))
    if scalar:
        f = (lambda e: m.dnde_xx_to_s_to_pipig(e, Q)) if part == "pi" else (lambda e: m.dnde_xx_to_s_to_ffg(e, Q, mass))
    else:
        f = (lambda e: m.dnde_xx_to_v_to_pipig(e, Q)) if part == "pi" else (lambda e: m.dnde_xx_to_v_to_ffg(e, Q, part))
    keep = e.copy()
    got = cut(f, e)
    require(np.array_equal(e, keep), "input modified")
    require(got.shape == e.shape, "shape %s", got.shape)
    kind = ("S " if scalar else "V ") + ("ss" if part == "pi" else "ff")
    ref = np.array([F.dnde(kind, Q, mass, float(v), ALPHA) if is_open else 0.0 for v in e])
    raw = got
    got = np.where(np.abs(e / top - 1) < 1e-9, ref, got) if top > 0 else got       # end point itself: rounding of the bound
    finite_nonneg(got, "photon spectrum", floor=1e-9 * ALPHA / Q)
    scale = np.abs(ref).max() if len(ref) else 0
    close(got, ref, 1e-6 + 1e-13 * (Q / mass) ** 2, "FSR spectrum of %s at Q=%r" % (part, Q), scale=1e-9 * scale + 1e-13 / Q)
    for i in range(min(2, len(e))):
        close(cut(f, float(e[i])), raw[i], 1e-13, "single energy")
    if is_open:
        # universal soft factor
        k = 1e-7 * top
        b = math.sqrt(1 - 4 * mass * mass / Q / Q)
        soft = 2 * ALPHA / math.pi / k * ((1 + b * b) / (2 * b) * math.log((1 + b) / (1 - b)) - 1) if b > 1e-3 else None
        if soft:
            close(cut(f, k), soft, 1e-5 + 1e-13 * (Q / mass) ** 2, "soft-photon limit of %s at Q=%r" % (part, Q))
    return "%s:%s" % (kind, "open" if is_open else "closed") if is_open and np.any(ref > 0) else None


# ------------------------------------------------------------------ pair channels
@oracle(st.tuples(D.points(D.SCALAR + D.VECTOR), logfl(1e-3, 10), US), quick=500)
def channels(case):
    d, x, us = case
    m = D.build(d)
    scalar = d["cls"] in D.SCALAR
    q = 2 * m.mx * (1 + x)
    e = np.sort(photon_energies(us, q / 2, 5))
    h = q / 2
    z = np.zeros(len(e))
    if scalar:
        fsr_ = {"e e": cut(m.dnde_xx_to_s_to_ffg, e, q, W["me"]), "mu mu": cut(m.dnde_xx_to_s_to_ffg, e, q, W["mmu"]), "pi pi": cut(m.dnde_xx_to_s_to_pipig, e, q), "pi0 pi0": z}
    else:
        fsr_ = {"e e": cut(m.dnde_xx_to_v_to_ffg, e, q, "e"), "mu mu": cut(m.dnde_xx_to_v_to_ffg, e, q, "mu"), "pi pi": cut(m.dnde_xx_to_v_to_pipig, e, q), "pi0 g": z}
    dec = {"e e": z, "mu mu": 2 * S.dnde_photon_muon(e, h), "pi pi": 2 * S.dnde_photon_charged_pion(e, h), "pi0 pi0": 2 * S.dnde_photon_neutral_pion(e, h),
           "pi0 g": S.dnde_photon_neutral_pion(e, (q * q + W["mpi0"] ** 2) / (2 * q))}
    fns = {"e e": m.dnde_ee, "mu mu": m.dnde_mumu, "pi pi": m.dnde_pipi}
    fns.update({"pi0 pi0": m.dnde_pi0pi0} if scalar else {"pi0 g": m.dnde_pi0g})
    some = False
    for n, f in fns.items():
        a, b, c = cut(f, e, q), cut(f, e, q, "fsr"), cut(f, e, q, "decay")
        close(b, fsr_[n], 1e-12, "FSR part of " + n)
        close(c, dec[n], 1e-6, "decay part of " + n, scale=1e-6 * np.abs(dec[n]).max() + 1e-300)
        close(a, b + c, 1e-12, "whole spectrum of " + n)
        finite_nonneg(a, n, floor=1e-6 * ALPHA / q)
        some = some or np.any(np.asarray(a) > 0)
        try:
            f(e, q, "bogus")
        except ValueError:
            pass
        else:
            require(False, "%s accepts spectrum_type='bogus'", n)
    table = cut(m.spectrum_funcs)
    for n, f in fns.items():
        if n in table:
            close(cut(table[n], e, q), cut(f, e, q), 1e-13, "spectrum_funcs " + n)
    ep = np.sort(np.maximum(e, 0.52))
    pt = cut(m.positron_spectrum_funcs)
    close(cut(m.dnde_pos_mumu, ep, q), S.dnde_positron_muon(ep, h), 1e-13, "positrons of mu mu")
    close(cut(m.dnde_pos_pipi, ep, q), S.dnde_positron_charged_pion(ep, h), 1e-13, "positrons of pi pi")
    for n, f in (("mu mu", m.dnde_pos_mumu), ("pi pi", m.dnde_pos_pipi)):
        if n in pt:
            close(cut(pt[n], ep, q), cut(f, ep, q), 1e-13, "positron_spectrum_funcs " + n)
    return d["cls"] if some else None


# ------------------------------------------------------------------ mediator decay spectra
_DUMMY = {k: D.build(v) for k, v in dict(
    S=dict(cls="ScalarMediator", kw=dict(mx=1e-9, ms=1.0, gsxx=1.0, gsff=0, gsGG=0, gsFF=0, lam=1e5)),
    V=dict(cls="VectorMediator", kw=dict(mx=1e-9, mv=1.0, gvxx=1.0, gvuu=0, gvdd=0, gvss=0, gvee=0, gvmumu=0))).items()}


def fsr_rest(model, part, M):
    """rest-frame FSR spectrum with the closed forms decided above; the compiled tables use alpha = 1/137"""
    d = _DUMMY[model]
    a = LALPHA / ALPHA
    mass = dict(e=LME, mu=LMMU, pi=LMPI)[part]
    top = (M * M - 4 * mass * mass) / (2 * M)
    if top <= 0:
        return (lambda e: np.zeros_like(e)), 0.0

    def f(e):
        e = np.asarray(e)
        x = 2 * e / M
        r = mass / M
        ok = (e > 0) & (e < top)
        xs = np.where(ok, x, 0.5 * 2 * top / M)
        b = np.sqrt(np.maximum(1 - 4 * r * r / (1 - xs), 0))
        L = np.log((1 + b) ** 2 * (1 - xs) / (4 * r * r))
        b0 = math.sqrt(1 - 4 * r * r)
        if model == "S" and part != "pi":
            v = (2 * (1 - xs) * (4 * r * r - 1) * b + ((xs + 4 * r * r) ** 2 + 2 * (1 - xs - 6 * r * r)) * L) / b0 ** 3 * 2
        elif model == "S":
            v = (-(1 - xs) * b + (1 - xs - 2 * r * r) * L) / b0 * 4
        elif part != "pi":
            v = (-b * (2 - 2 * xs + xs * xs + 4 * (1 - xs) * r * r) + (2 + (xs - 2) * xs - 4 * xs * r * r - 8 * r ** 4) * L) / b0 / (1 + 2 * r * r) * 2
        else:
            v = (b * (-1 + xs + xs * xs + 4 * (1 - xs) * r * r) + (1 - xs - 2 * r * r) * (1 - 4 * r * r) * L) / b0 ** 3 * 4
        return np.where(ok, v * ALPHA * a / (math.pi * M * xs), 0.0)
    return f, top


def soft_tab(f, M):
    """the package extends the tabulated decay spectra below 0.1 MeV as 1/E"""
    def g(e):
        e = np.asarray(e, float)
        lo = f(np.array([0.1]))[0] * 0.1 / np.maximum(e, 1e-300)
        return np.where(e < 0.1, lo, f(np.maximum(e, 0.1)))
    return g


def arr(fn, *a):
    return lambda e: fn(np.ascontiguousarray(np.ravel(e)), *a).reshape(np.shape(e))


def box_edges(E, m):
    if E <= m:
        return []
    b = math.sqrt(1 - m * m / E / E)
    return [E * (1 - b) / 2, E * (1 + b) / 2]


def rest_parts(model, M):
    """name -> (rest-frame continuum per unit branching fraction, break points, line energies with multiplicity)"""
    h = M / 2
    P = {}
    for n, p in (("e e g", "e"), ("mu mu g", "mu"), ("pi pi g", "pi")):
        f, top = fsr_rest(model, p, M)
        P[n] = (f, [top], [])
    mu = arr(S.dnde_photon_muon, h)
    pi = arr(S.dnde_photon_charged_pion, h)
    gm, gp = h / W["mmu"], h / W["mpi"]
    P["mu mu"] = (lambda e: 2 * soft_tab(mu, M)(e), [W["mmu"] / 2 * (gm + math.sqrt(max(gm * gm - 1, 0)))], [])
    P["pi pi"] = (lambda e: 2 * soft_tab(pi, M)(e), [69.783 * (gp + math.sqrt(max(gp * gp - 1, 0))), 69.783 / (gp + math.sqrt(max(gp * gp - 1, 0)))], [])
    if model == "S":
        P["pi0 pi0"] = (lambda e: 2 * arr(S.dnde_photon_neutral_pion, h)(e), box_edges(h, W["mpi0"]), [])
        P["g g"] = (None, [], [(h, 2)])
    else:
        ep = (M * M + LMPI0 ** 2) / (2 * M)
        P["pi0 g"] = (lambda e: arr(S.dnde_photon_neutral_pion, ep)(e), box_edges(ep, W["mpi0"]), [((M * M - LMPI0 ** 2) / (2 * M), 1)])
    return P


def boosted_photon(f, cuts, E, beta, top):
    g = 1 / math.sqrt((1 - beta) * (1 + beta))
    a, b = E * g * (1 - beta), min(E * g * (1 + beta), top)
    if not b > a:
        return 0.0
    cuts = [math.log(c) for c in cuts if c > 0 and a < c < b] + [math.log(.1)] * (a < .1 < b)
    return B.panels(lambda y: f(np.exp(y)), math.log(a), math.log(b), cuts, n=32, splits=8) / (2 * g * beta)


def quad_photon(f, E, E0, M):
    """the package's own quadrature over the emission angle, which can miss the cone of a fast mediator (listed finding)"""
    g, b = E0 / M, math.sqrt(1 - (M / E0) ** 2)
    return quad(lambda c: float(f(np.array([E * g * (1 - b * c)]))[0]) / (2 * g * abs(1 - b * c)), -1, 1, points=[-1, 1], epsabs=1e-10, epsrel=1e-5)[0]


BRS = st.tuples(fl(0, 1), fl(0, 1), fl(0, 1), fl(0, 1), fl(0, 1), fl(0, 1)).filter(lambda t: sum(t) > 0.05).map(lambda t: [float(v / sum(t)) for v in t])
MED = st.tuples(logfl(1.2, 3000), logfl(1e-3, 20))


@oracle(st.tuples(st.sampled_from("SV"), MED, BRS, st.lists(fl(0, 1), min_size=2, max_size=4), st.integers(0, 127)), quick=160, thorough=4000)
def decay_photons(case):
    model, (M, g1), br, us, bits = case
    E0 = M * (1 + g1)
    beta = math.sqrt(1 - (M / E0) ** 2)
    top = E0 * (1 + beta) / 2
    e = np.sort(np.array([top * 10 ** (-4 * (1 - u)) for u in us] + [top * 1.001]))
    P = rest_parts(model, M)
    names = ["e e g", "mu mu g", "pi pi g", "mu mu", "pi pi"] + (["pi0 pi0", "g g"] if model == "S" else ["pi0 g"])
    idx = dict(zip(["e", "mu", "pi0", "pi", "g"], range(5)))
    w = {"e e g": "e", "mu mu g": "mu", "pi pi g": "pi", "mu mu": "mu", "pi pi": "pi", "pi0 pi0": "pi0", "g g": "g", "pi0 g": "pi0"}
    modes = [n for i, n in enumerate(names) if bits >> i & 1]
    pw = np.array(br[:5])
    pw *= np.array([M > 2 * LME, M > 2 * W["mmu"], M > 2 * W["mpi0"] if model == "S" else M > W["mpi0"], M > 2 * W["mpi"], 1.0])      # closed channels have no width

    def ref(n, kf=None):
        f, cuts, lines = P[n]
        b = pw[idx[w[n]]]
        cont = np.array([boosted_photon(f, cuts, float(v), beta, M / 2) if f else 0.0 for v in e]) * b
        line = sum(mult * np.array([B.line(e0, float(v), 0.0, beta) for v in e]) for e0, mult in lines) * b if lines else 0 * cont
        return cont, line
    R = {n: ref(n) for n in (modes if model == "S" else names)}
    tol = lambda r: np.abs(r) * 6e-3 + 1e-9 + 2e-3 * np.abs(r).max()        # noqa: E731

    def edge(v):        # a few adjacent points of the kinematic boundaries of lines and boxes are ambiguous
        bad = np.zeros(len(e), bool)
        for n in P:
            for e0 in [l[0] for l in P[n][2]] + [M / 2]:
                for s in (1, -1):
                    bad |= np.abs(e / (e0 * E0 / M * (1 + s * beta)) - 1) < 1e-6
        return bad

    def alternatives(names_):
        """every combination of the listed defects: half FSR, single photon of the pair line, misplaced pi0 gamma line, missed cone"""
        for cone in (0, 1):
            cont = {n: np.array([quad_photon(lambda x, f=P[n][0]: np.where(x <= M / 2, f(x), 0), float(v), E0, M) for v in e]) * pw[idx[w[n]]]
                    if cone and P[n][0] else R[n][0] for n in names_}
            for half in (1, .5) if model == "S" else (1,):
                for pos in (0, 1):
                    c = sum((cont[n] * (half if n.endswith(" g") and P[n][0] and n != "pi0 g" else 1) for n in names_), np.zeros(len(e)))
                    for n in names_:
                        if P[n][2]:
                            c = c + (R[n][1] if not pos else pw[idx[w[n]]] * np.array([B.line(M / 2, float(v), 0.0, beta) for v in e]))
                    yield c

    def cmp(got, names_, what):
        r = sum((R[n][0] + R[n][1] for n in names_), np.zeros(len(e)))
        got = np.asarray(got, float)
        finite_nonneg(got, what, floor=1e-9 / M)
        ok = (np.abs(got - r) <= tol(r)) | edge(r)
        if not ok.all():
            for alt in alternatives(names_):
                ok |= np.abs(got - alt) <= tol(alt)
                if ok.all():
                    break
        require(ok.all(), "%s: got %r, expected %r at energies %r (M=%r, E=%r, fractions %r)", what, got, r, e, M, E0, br)
        require(got[-1] == 0.0, "%s: %r beyond the end point", what, got[-1])
        return r
    if model == "S":
        r = cmp(cut(s_photon, e, E0, M, pw, modes), modes, "photons of a boosted scalar mediator, modes %s" % modes)
        a = cut(s_photon, float(e[0]), E0, M, list(pw), modes)
        close(a, cut(s_photon, e, E0, M, pw, modes)[0], 1e-12, "single energy")
    else:
        mode = "total" if bits % 3 == 0 or not modes else modes[0]
        use = names if mode == "total" else [mode]
        r = cmp(cut(v_photon, e, E0, M, pw, mode), use, "photons of a boosted vector mediator, mode " + mode)
    return "%s:%s" % (model, "relativistic" if g1 > 1 else "slow") if np.any(r > 0) else None


@finding("scalar-fsr-half")
def _half():
    r = [s_photon(50.0, 200.0 * 1.0000001, 200.0, [1.0, 0, 0, 0, 0], ["e e g"]) / float(fsr_rest("S", "e", 200.0)[0](50.0)),
         s_photon(50.0, 600.0 * 1.0000001, 600.0, [0, 0, 0, 1.0, 0], ["pi pi g"]) / float(fsr_rest("S", "pi", 600.0)[0](50.0))]
    return all(abs(v - .5) < 1e-4 for v in r)


@finding("scalar-gg-line-once")
def _gg():
    return bool(abs(s_photon(100.0, 250.0, 150.0, [0, 0, 0, 0, 1.0], ["g g"]) * 200.0 - 1.0) < 1e-9)


@finding("mediator-forward-cone")
def _cone():
    M, E0 = 403.4287934927351, 6714.116901581758
    return bool(s_photon(2121.27206, E0, M, [0, 0, 1.0, 0, 0], ["pi0 pi0"]) == 0.0)


@finding("vector-pi0g-line-energy")
def _v_line():
    M, E0 = 200.0, 250.0
    beta = math.sqrt(1 - (M / E0) ** 2)
    hi = E0 * (1 + beta) / 2       # far above (M^2-mpi0^2)/(2M) boosted
    lo = (M * M - LMPI0 ** 2) / (2 * M) * E0 / M * (1 + beta)
    e = np.array([0.999 * hi, 0.5 * (lo + hi)])
    got = v_photon(e, E0, M, np.array([0., 0, 1, 0, 0]), "pi0 g")
    return got[0] > 0.9 / (E0 * beta) and lo < 0.999 * hi


@oracle(st.tuples(st.sampled_from("SV"), MED, BRS, st.lists(fl(0, 1), min_size=2, max_size=4), st.sampled_from(["total", "total", "e e", "mu mu", "pi pi"])), quick=160, thorough=4000)
def decay_positrons(case):
    model, (M, g1), br, us, fs = case
    E0 = M * (1 + g1)
    beta = math.sqrt(1 - (M / E0) ** 2)
    top = E0 * (1 + beta) / 2
    e = np.sort(np.array([LME + (top - LME) * 10 ** (-4 * (1 - u)) for u in us] + [top * 1.001, 0.3]))
    pw = np.array(br[:3]) * np.array([M > 2 * LME, M > 2 * W["mmu"], M > 2 * W["mpi"]])      # closed channels have no width
    fn = s_positron if model == "S" else v_positron
    got = np.asarray(cut(fn, e, E0, M, pw, fs))
    h = M / 2
    parts = {"mu mu": (arr(S.dnde_positron_muon, h), 1, W["mmu"]), "pi pi": (arr(S.dnde_positron_charged_pion, h), 2, W["mpi"])}
    r = np.zeros(len(e))
    for n, (f, i, mass) in parts.items():
        if fs in ("total", n) and h > mass:
            g = h / mass
            cuts = []
            for rest in (52.83, 69.78):
                p = math.sqrt(rest ** 2 - LME ** 2)
                cuts += [g * rest - math.sqrt(g * g - 1) * p, g * rest + math.sqrt(g * g - 1) * p]
            r += pw[i] * np.array([B.boost_rapidity(f, float(v), LME, beta, LME, h, cuts, splits=12) if v > LME else 0.0 for v in e])
    c = r.copy()
    line, extra, raw = np.zeros(len(e)), np.zeros(len(e)), got
    if fs in ("total", "e e"):
        line = pw[0] * np.array([B.line(h, float(v), LME, beta) for v in e])
    elif pw[0]:
        # known finding: the e+ e- line is added to every single mode
        extra = pw[0] / (E0 * beta) * (np.abs(e - E0 / 2) <= E0 * beta / 2 * math.sqrt(1 - 4 * LME ** 2 / M / M))
        got = np.where(np.abs(got - c - extra) <= 6e-3 * (c + extra) + 2e-3 * extra.max(), np.maximum(got - extra, 0), got)
    # known finding: the boosted e+ e- line lacks 1/sqrt(1 - 4 me^2/M^2)
    vel = math.sqrt(1 - 4 * LME ** 2 / M / M)
    finite_nonneg(got, "positrons of a boosted mediator")
    scale = 2e-3 * (c.max() + line.max()) + 1e-9
    near = np.zeros(len(e), bool)
    p = math.sqrt(h * h - LME ** 2)
    for s in (1, -1):
        near |= np.abs(e / (E0 / M * (h + s * beta * p)) - 1) < 1e-6
    tab = np.where(e < 5 * LME, 4e-2, 6e-3)       # the table is coarse where the spectrum rises from threshold
    good = np.minimum(np.abs(got - c - line), np.abs(got - c - line * vel)) <= tab * (c + line) + scale
    if not (good | near).all():     # known finding: the quadrature over the emission angle misses the cone of a fast mediator
        g = E0 / M
        te = np.logspace(math.log10(LME), math.log10(h), NTAB)
        ty = sum(pw[i] * f(te) for n, (f, i, mass) in parts.items() if fs in ("total", n))
        for j in np.flatnonzero(~(good | near)):
            v = float(e[j])
            if v <= LME:
                continue
            q = math.sqrt(v * v - LME ** 2)
            def integrand(z, v=v, q=q):
                rest = g * (v - q * beta * z)
                return q / (2 * g * math.sqrt((1 + (beta * z) ** 2) * v * v - (1 + beta ** 2 * (z * z - 1)) * LME ** 2 - 2 * beta * z * v * q)) * np.interp(rest, te, ty)
            cone = quad(integrand, -1, 1, points=[-1, 1], epsabs=1e-10, epsrel=1e-5)[0]
            good[j] = min(abs(got[j] - cone - line[j]), abs(got[j] - cone - line[j] * vel), abs(raw[j] - cone - extra[j])) <= tab[j] * (cone + line[j]) + 0.05 * scale
    require((good | near).all(), "positrons (%s) of a boosted %s mediator: got %r, expected %r at %r (M=%r, E=%r, fractions %r)", fs, model, got, c + line, e, M, E0, br)
    require(np.all(got[e > top] == 0) and np.all(got[e < LME] == 0), "positrons outside the kinematic range: %r at %r", got, e)
    return "%s:%s" % (model, fs) if np.any(c + line > 0) else None


@finding("positron-line-velocity")
def _vel():
    M, E0 = 1.2, 2.4
    got = s_positron(np.array([1.2]), E0, M, np.array([1., 0, 0]), "e e")[0]
    return abs(got / B.line(0.6, 1.2, LME, math.sqrt(.75)) - math.sqrt(1 - 4 * LME ** 2 / M / M)) < 1e-6


@finding("positron-mode-includes-line")
def _mode():
    return bool(s_positron(np.array([60.0]), 150.0, 120.0, np.array([1., 0, 0]), "mu mu")[0] > 0.9 / (150 * .6))


@finding("positron-nan-at-electron-mass")
def _nan():
    return bool(np.isnan(s_positron(np.array([LME]), 250.0, 250.0, np.array([1.0, 0, 0]), "total")[0]))


# ------------------------------------------------------------------ the models' mediator channels are those spectra
@oracle(st.tuples(D.points(D.SCALAR + D.VECTOR), logfl(1e-3, 5), st.lists(fl(0, 1), min_size=1, max_size=3)), quick=150, thorough=2500)
def mediator_channels(case):
    d, x, us = case
    d = dict(cls=d["cls"], kw=dict(d["kw"]))
    m = D.build(d)
    scalar = d["cls"] in D.SCALAR
    M = m.ms if scalar else m.mv
    q = 2 * max(m.mx, M) * (1 + x)
    if q > 60 * M:
        q = 60 * M
    e = np.sort([q / 2 * 10 ** (-4 * (1 - u)) for u in us])
    ep = LME + 1e-6 + e
    pw = cut(m.partial_widths)
    tot = pw["total"]
    if not tot > 0 or M < 2.1 * LME:
        require(np.all(np.asarray(cut(m.dnde_ss if scalar else m.dnde_vv, e, q)) == 0) or tot > 0, "stable mediator with a spectrum")
        return None
    br = {k: float(np.real(v)) / tot for k, v in pw.items()}
    posw = np.array([br["e e"], br["mu mu"], br["pi pi"]])
    if scalar:
        ref = 2 * np.asarray(s_photon(e, q / 2, M, [br["e e"], br["mu mu"], br["pi0 pi0"], br["pi pi"], br["g g"]]))
        close(cut(m.dnde_ss, e, q), ref, 1e-9, "photons of S S", scale=1e-12)
        close(cut(m.spectrum_funcs()["s s"], e, q), ref, 1e-9, "spectrum_funcs s s", scale=1e-12)
        close(cut(m.dnde_pos_ss, ep, q), 2 * np.asarray(s_positron(ep, q / 2, M, posw, "total")), 1e-9, "positrons of S S", scale=1e-12)
        close(cut(m.positron_spectrum_funcs()["s s"], ep, q), 2 * np.asarray(s_positron(ep, q / 2, M, posw, "total")), 1e-9, "positrons of S S", scale=1e-12)
    else:
        pwv = np.array([br["e e"], br["mu mu"], br["pi0 g"], br["pi pi"], 0.0])
        ref = 2 * np.asarray(v_photon(e, q / 2, M, pwv, "total"))
        close(cut(m.dnde_vv, e, q), ref, 1e-9, "photons of V V", scale=1e-12)
        close(cut(m.spectrum_funcs()["v v"], e, q), ref, 1e-9, "spectrum_funcs v v", scale=1e-12)
        close(cut(m.dnde_pos_vv, ep, q), 2 * np.asarray(v_positron(ep, q / 2, M, posw, "total")), 1e-9, "positrons of V V", scale=1e-12)
        if q > M + W["mpi0"]:
            ev, e0 = (q * q + M * M - W["mpi0"] ** 2) / (2 * q), (q * q - M * M + W["mpi0"] ** 2) / (2 * q)
            ref0 = S.dnde_photon_neutral_pion(e, e0) + np.asarray(v_photon(e, ev, M, pwv, "total"))
            close(cut(m.dnde_pi0v, e, q), ref0, 1e-6, "photons of pi0 V", scale=1e-9)
            close(cut(m.dnde_pos_pi0v, ep, q), np.asarray(v_positron(ep, ev, M, posw, "total")), 1e-6, "positrons of pi0 V", scale=1e-9)
            close(cut(m.spectrum_funcs()["pi0 v"], e, q), ref0, 1e-6, "spectrum_funcs pi0 v", scale=1e-9)
            close(cut(m.positron_spectrum_funcs()["pi0 v"], ep, q), np.asarray(v_positron(ep, ev, M, posw, "total")), 1e-6, "positrons of pi0 V", scale=1e-9)
    return d["cls"] if np.any(ref > 0) else None
