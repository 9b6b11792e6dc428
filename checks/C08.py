"""Parent energies exactly at rest, 1e-12..1e-3 above, moderate and up to 1e4 masses; photon energies log-spread below the kinematic
end point, near every boosted line/kink and outside.  Oracle: independent literature rest-frame formulas / the published tables
plus two-body lines, boosted by panel Gauss-Legendre quadrature (exact piecewise integrals for tables).  Documented upstream
defects are accepted only at their exact defect value (see known_findings.json)."""
import os
import numpy as np
from scipy import integrate
from vlib.runner import oracle, finding, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from ref import decay as D, boost as B
from hazma import spectra as S
import hazma

ASSUMPTIONS = ["the defect values listed in known_findings.json are accepted besides the exact ones"]
DATA = os.path.join(os.path.dirname(hazma.__file__), "spectra", "_photon", "data")


def gammas():
    return st.one_of(st.just(1.0), fl(-11, -1).map(lambda x: 1 + 10 ** x), fl(1.02, 12), fl(1.001, 3), logfl(1.5, 1e4))


ES = st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "end", "out", "kink", "kink", "inside"])), min_size=1, max_size=8)


def energies(us, hi, kinks=()):
    out = []
    for u, k in us:
        if k == "log":
            out.append(hi * 10 ** (-7 * u))
        elif k == "lin":
            out.append(hi * u)
        elif k == "end":
            out.append(hi * (1 - 10 ** (-1 - 7 * u)))
        elif k == "out":
            out.append(hi * (1 + 10 ** (-9 + 9 * u)))
        elif k == "inside":  # between the two boosted images of one line or edge
            ks = list(kinks) if len(kinks) % 2 == 0 and len(kinks) else [hi] + list(kinks)[:1] * 2
            c = 2 * (int(u * 1e6) % (len(ks) // 2))
            v = .001 + .998 * ((u * 1e3) % 1)
            out.append(ks[c] ** v * ks[c + 1] ** (1 - v) if len(ks) > 1 else hi * v)
        else:
            ks = list(kinks) or [hi]
            c = ks[int(u * 1e6) % len(ks)]
            out.append(c * (1 + (1e-6 if u > 0.5 else -1e-6)))
    return np.array([max(e, 1e-9) for e in out])


# ------------------------------------------------------------------ muon
@oracle(st.tuples(gammas(), ES), quick=1500)
def muon(case):
    g, us = case
    rest = D.muon_photon_rest()
    eta = np.arccosh(g)
    es = energies(us, rest.hi * np.exp(eta), [rest.hi * np.exp(-eta)])
    got = cut(S.dnde_photon_muon, es, D.MMU * g)
    require(np.all(np.isfinite(got)) and np.all(got >= -(3e-12 + 2e-12 / max(np.sqrt((g - 1) * (g + 1)), 1e-8) * (1 + D.ALPHA / es))), "muon photon spectrum gamma=%r E=%s: %s", g, es, got)
    if D.MMU * g - D.MMU < 2.3e-16:
        ex = rest(es)
        cut_ = D.MMU / 2 * (1 - D.ME / D.MMU)
        bad = (got == 0) & (es > cut_ * (1 - 1e-12))     # documented: rest-frame end point at (1 - sqrt r)
        close(np.where(bad, 0, got), np.where(bad, 0, ex), 1e-9, "muon at rest", scale=1e-14)
        return "rest"
    b = np.sqrt((g - 1) * (g + 1)) / g
    ex = rest.boost(es, g)
    scale = np.maximum(rest(np.minimum(es, rest.hi * 0.5)), 0) + D.ALPHA / np.maximum(es, 1e-9)
    # the closed form cancels: absolute rounding noise grows as 1/beta and is set by the largest polynomial term
    noise = 4e-14 / b * (1 + 102 / (12 * 3 * np.pi) * D.ALPHA / es) + 2e-12 * scale
    d = np.abs(got - ex)
    require(np.all(d <= 2e-7 * ex + noise + 1e-12), "muon gamma=%r: E=%s got %s expected %s", g, es, got, ex)
    require(np.all(got[es > rest.hi * np.exp(eta) * (1 + 1e-7)] == 0), "photons beyond the end point")
    return ["boosted", "nonzero" if np.any(ex > 0) else "outside"]


# ------------------------------------------------------------------ charged pion
def _pion_integrand(cl, e, g, b):
    rest = D.pion_photon_rest()
    w = 1 - b * cl
    return float(rest(e * g * w)) / (2 * g * abs(w))


@oracle(st.tuples(gammas(), ES), quick=250)
def charged_pion(case):
    g, us = case
    rest = D.pion_photon_rest()
    eta = np.arccosh(g)
    es = energies(us, rest.hi * np.exp(eta), [c * np.exp(s * eta) for c in rest.cuts + [rest.hi] for s in (1, -1)])
    got = cut(S.dnde_photon_charged_pion, es, D.MPI * g)
    require(np.all(np.isfinite(got)), "charged pion photon spectrum gamma=%r E=%s: %s", g, es, got)
    if g == 1.0:
        ex = rest(es)
    else:
        ex = rest.boost(es, g)
    b = np.sqrt((g - 1) * (g + 1)) / g
    tol = 3e-4 * ex + 2e-9
    if g == 1.0:        # at rest there is no angular quadrature: the interference of structure-dependent and inner radiation is resolved
        tol = np.where(es < 69, 2e-5 * ex + 1e-10, tol)
    bad = np.abs(got - ex) > tol
    lab = "agrees"
    for i in np.flatnonzero(bad):
        # documented: the angular quadrature can miss a narrow forward cone; the same quadrature on the reference integrand says when
        q = integrate.quad(_pion_integrand, -1, 1, args=(es[i], g, b), epsabs=1e-10, epsrel=1e-5, points=[-1.0, 1.0], full_output=1)[0]
        lo, hi = min(q, ex[i]), max(q, ex[i])
        require(abs(q - ex[i]) > 0.5 * tol[i] and lo - 2e-3 * abs(lo) - 2e-9 <= got[i] <= hi + 2e-3 * hi + 2e-9,
                "charged pion gamma=%r E=%r: got %r, expected %r (same quadrature on the reference: %r)", g, es[i], got[i], ex[i], q)
        lab = "forward-cone"
    require(np.all(got[es > rest.hi * np.exp(eta) * (1 + 1e-7)] == 0), "photons beyond the end point")
    return [lab, "rest" if g == 1 else "boosted"]


@oracle(st.tuples(st.one_of(gammas()), ES), quick=500)
def neutral_pion(case):
    g, us = case
    eta = np.arccosh(g)
    c = D.MPI0 / 2
    es = energies(us, c * np.exp(eta), [c * np.exp(eta), c * np.exp(-eta)])
    got = cut(S.dnde_photon_neutral_pion, es, D.MPI0 * g)
    if g - 1 < 1e-10:   # single-precision velocity: the line is unresolved
        require(np.all(np.isfinite(got[np.abs(es / c - 1) > 1e-3])) and np.all(got[np.abs(es / c - 1) > 1e-3] == 0), "photons away from the line of a pion at rest")
        return "rest"
    ex, lo, hi = D.line_boost(c, es, 0.0, g)
    b = np.sqrt((g - 1) * (g + 1)) / g
    ex = 2 * D.BR_PI0_AA * ex
    fuzzy = (np.abs(es - lo) < 1e-6 * g * c) | (np.abs(es - hi) < 1e-6 * g * c)
    close(np.where(fuzzy, 0, got), np.where(fuzzy, 0, ex), 1e-6, "neutral pion gamma=%r E=%s" % (g, es))
    return ["boosted", "box" if np.any(ex > 0) else "outside"]


@oracle(lambda c: st.tuples(gammas(), ES), params=["neutral", "charged"], quick=40, thorough=600)
def rho(case, which):
    g, us = case
    rest = D.rho_photon_rest(which == "charged")
    f = S.dnde_photon_charged_rho if which == "charged" else S.dnde_photon_neutral_rho
    eta = np.arccosh(g)
    es = energies(us[:4], rest.hi * np.exp(eta), [c * np.exp(s * eta) for c in rest.cuts + [rest.hi] for s in (1, -1)])
    got = cut(f, es, D.MRHO * g)
    require(np.all(np.isfinite(got)), "%s rho gamma=%r: %s", which, g, got)

    def inner(e):    # the shipped pion spectra (decided by the pion oracles), folded as the definition says
        if which == "neutral":
            return 2 * S.dnde_photon_charged_pion(e, D.MRHO / 2) / e
        ep = (D.MRHO ** 2 + D.MPI ** 2 - D.MPI0 ** 2) / (2 * D.MRHO)
        return (S.dnde_photon_charged_pion(e, ep) + S.dnde_photon_neutral_pion(e, D.MRHO - ep)) / e
    fuzzy = np.min(np.abs(es[:, None] * np.exp(-eta) / np.array(rest.cuts + [rest.hi])[None, :] - 1), axis=1) < 1e-5
    labs = {"rest" if g == 1.0 else "boosted"}
    ex = rest(es) if g == 1.0 else rest.boost(es, g)
    b = np.sqrt((g - 1) * (g + 1)) / g
    tol = (2e-2 if 1 < g < 1.0001 else 2e-3) * ex + 1e-9 * (1 + (1 / (2 * g * b) if b else 0))
    for i, e in enumerate(es):
        if abs(got[i] - ex[i]) <= tol[i] or fuzzy[i]:
            continue
        if g == 1.0:
            # documented: exactly at rest the integrand f(E)/E is returned
            alt = float(inner(float(e)))
            labs.add("rest-integrand")
        else:
            # documented family: the linear-energy quadrature misses the support inside a wide window
            a, c = e * np.exp(-eta), e * np.exp(eta)
            alt = integrate.quad(inner, a, c, epsabs=1e-10, epsrel=1e-5, full_output=1)[0] / (2 * g * b)
            labs.add("window")
        require(abs(got[i] - alt) <= 5e-3 * abs(alt) + 1e-8 * (1 + (1 / (2 * g * b) if b else 0)), "%s rho gamma=%r E=%r: got %r, expected %r (documented-defect value %r)", which, g, e, got[i], ex[i], alt)
    return sorted(labs)


# ------------------------------------------------------------------ tables
def two_body(M, m):
    return (M * M - m * m) / (2 * M)


# name: (file, mass, exact lines, lines as shipped where a documented defect differs)
TAB = {
    "eta": ("eta", D.META, [(D.META / 2, 2 * 0.3941)], None),
    "eta_prime": ("eta_prime", D.METAP, [(D.METAP / 2, 2 * 0.02307)], [(D.METAP / 2, 0.02307)]),
    "charged_kaon": ("charged_kaon", D.MK, [], None),
    "long_kaon": ("long_kaon", D.MK0, [(D.MK0 / 2, 2 * 5.47e-4)], None),
    "short_kaon": ("short_kaon", D.MK0, [(D.MK0 / 2, 2 * 2.63e-6)], None),
    "omega": ("omega", D.MOMEGA, [(two_body(D.MOMEGA, D.MPI0), 0.0834), (two_body(D.MOMEGA, D.META), 4.5e-4)], None),
    "phi": ("phi", D.MPHI, [(two_body(D.MPHI, D.META), 0.01303), (two_body(D.MPHI, D.METAP), 6.22e-5)],
            [((D.MPHI ** 2 + D.META ** 2) / (2 * D.MPHI), 0.01303), ((D.MPHI ** 2 + D.METAP ** 2) / (2 * D.MPHI), 6.22e-5)]),
}
_tables = {}


def table(name):
    if name not in _tables:
        a = np.loadtxt(os.path.join(DATA, TAB[name][0] + "_photon.csv"), delimiter=",")
        _tables[name] = (np.ascontiguousarray(a[:, 0]), a[:, 1:].sum(axis=1))
    return _tables[name]


def table_rest(x, y, e):
    return np.where(e > x[-1], 0.0, np.where(e < x[0], y[0] * x[0] / e, np.interp(e, x, y)))


@oracle(lambda p: st.tuples(gammas(), ES, st.integers(0, 10 ** 6)), params=sorted(TAB), quick=150)
def tabulated(case, name):
    g, us, k = case
    x, y = table(name)
    _, m, lines, shipped = TAB[name]
    f = getattr(S, "dnde_photon_" + name)
    eta = np.arccosh(g)
    es = energies(us, x[-1] * np.exp(eta), [e0 * np.exp(s * eta) for e0 in [l[0] for l in lines + (shipped or [])] + [x[0], x[k % len(x)]] for s in (1, -1)])
    E = m * g
    got = cut(f, es, E)
    finite_nonneg(got, name + " photon spectrum")
    if E - m < 2.3e-16:
        close(got, table_rest(x, y, es), 1e-9, name + " at rest")
        return "rest"
    b = np.sqrt(1 - (m / E) ** 2)
    if g - 1 < 1e-9:
        b = float(np.sqrt((1 - m / E) * (1 + m / E)))
    ge = 1 / np.sqrt((1 - b) * (1 + b))
    labs = set()
    for e, v in zip(es, got):
        ln, fuzzy = [], False
        for L in (lines, shipped):
            if L is None:
                continue
            t = 0.0
            for e0, w in L:
                bx, lo, hi = D.line_boost(e0, e, 0.0, ge)
                t += w * float(bx)
                fuzzy = fuzzy or min(abs(e / lo - 1), abs(e / hi - 1)) < 1e-9
            ln.append(t)
        tb = [B.table_boost(e, b, x, y), B.table_boost_dropped_cell(e, b, x, y), B.table_boost_dropped_cell(e, b, x, y, 1e-8), B.table_boost_dropped_cell(e, b, x, y, -1e-8)]
        # bounds within rounding of a node select a neighbouring cell
        for d in (1e-13, -1e-13, 1e-10, -1e-10):
            tb.append(B.table_boost_dropped_cell(e * (1 + d), b, x, y))
        cands = [t + l for t in tb for l in ln]
        slack = 1e-9 + 1e-15 / b ** 2
        ok = any(abs(v - c) <= slack * max(abs(c), abs(v)) + 1e-300 for c in cands)
        if not ok and fuzzy:
            wsum = sum(w for _, w in (shipped or lines)) / (2 * ge * b * min(e0 for e0, _ in lines))
            ok = min(tb) - 1e-12 <= v <= max(tb) + 2 * wsum
        if not ok and g - 1 < 1e-7:     # window narrower than its own rounding
            ok = any(abs(v - c) <= 1e-3 * abs(c) for c in cands)
        require(ok, "%s gamma=%r E=%r: got %r, exact %r, documented-defect values %s", name, g, e, v, tb[0] + ln[0], cands[1:])
        labs.add("exact" if abs(v - (tb[0] + ln[0])) <= 1e-8 * abs(v) else "defect-value")
    return sorted(labs)


@oracle(lambda p: st.tuples(fl(0, 0.999999), fl(0, 1)), params=["muon", "charged_pion", "neutral_pion", "neutral_rho", "charged_rho"] + sorted(TAB), quick=15)
def below_mass(case, name):
    u, v = case
    m = {"muon": D.MMU, "charged_pion": D.MPI, "neutral_pion": D.MPI0, "neutral_rho": D.MRHO, "charged_rho": D.MRHO}.get(name) or TAB[name][1]
    f = getattr(S, "dnde_photon_" + name)
    es = np.array([v * m + 1e-9, 1e-3, m / 2, m])
    require(np.all(cut(f, es, u * m) == 0), "%s below its mass emits photons", name)
    return True


# ------------------------------------------------------------------ published tables: physics content
# photons per decay from two-body kinematics and pi0 decays, by channel column: (column, expected number of photons above E/M cut)
PI0 = 2 * D.BR_PI0_AA


@oracle(st.sampled_from(sorted(TAB)), quick=30)
def table_content(name):
    """Every table is a spectrum on an increasing grid reaching at most half the parent mass (plus recoil), carrying no more energy
    than the parent has."""
    x, y = table(name)
    m = TAB[name][1]
    require(np.all(np.diff(x) > 0) and x[0] > 0, "%s table grid not increasing", name)
    finite_nonneg(y, name + " table")
    require(x[-1] <= m * (1 + 1e-9), "%s table extends beyond the parent mass", name)
    last = x[np.flatnonzero(y > 1e-12 * y.max())[-1]]
    require(last <= m / 2 * (1 + 0.03), "%s table has photons of %.1f MeV from a parent of %.1f MeV", name, last, m)
    en = np.trapezoid(x * y, x)
    require(0.001 * m < en < m, "%s: energy %.3f MeV in photons from mass %.3f", name, en, m)
    return name


@finding("muon-rest-endpoint")
def f1():
    e = D.MMU / 2 * (1 - 0.5 * D.ME / D.MMU)
    return S.dnde_photon_muon(e, D.MMU) == 0 and D.muon_photon_rest()(e) > 0


@finding("pion-forward-cone")
def f2():
    g = 1e4
    rest = D.pion_photon_rest()
    e = np.array([rest.hi * 2 * g * 0.9])
    return S.dnde_photon_charged_pion(e, D.MPI * g)[0] < 0.5 * rest.boost(e, g)[0]


@finding("rho-rest-integrand")
def f3():
    e = 50.0
    return abs(S.dnde_photon_neutral_rho(e, D.MRHO) / (float(D.rho_photon_rest(False)(e)) / e) - 1) < 1e-2


@finding("rho-window")
def f3b():
    g = 20.0
    e = 7536.8
    ex = D.rho_photon_rest(True).boost(np.array([e]), g)[0]
    return ex > 1e-5 and S.dnde_photon_charged_rho(e, D.MRHO * g) < 0.5 * ex


@finding("eta-prime-line-weight")
def f4():
    g, n = 3.0, "eta_prime"
    e0 = D.METAP / 2
    up = e0 * np.exp(np.arccosh(g))
    j = float(S.dnde_photon_eta_prime(up * (1 - 1e-7), D.METAP * g) - S.dnde_photon_eta_prime(up * (1 + 1e-7), D.METAP * g))
    b = np.sqrt(1 - 1 / g ** 2)
    return abs(j * 2 * g * b * e0 / 0.02307 - 1) < 1e-3


@finding("phi-line-energy")
def f5():
    g = 3.0
    e0 = (D.MPHI ** 2 + D.META ** 2) / (2 * D.MPHI)
    up = e0 * np.exp(np.arccosh(g))
    j = float(S.dnde_photon_phi(up * (1 - 1e-7), D.MPHI * g) - S.dnde_photon_phi(up * (1 + 1e-7), D.MPHI * g))
    return j * 2 * g * np.sqrt(1 - 1 / g ** 2) * e0 > 0.5 * 0.01303


@finding("tabulated-dropped-cell")
def f6():
    return float(S.dnde_photon_eta(D.META / 10, D.META * (1 + 1e-12))) > 100 * float(S.dnde_photon_eta(D.META / 10, D.META))
