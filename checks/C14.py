"""Scalar-mediator models (general, Higgs portal, heavy quark) at generated masses, couplings and energies, with the model's own width
or a generated one.  Oracle: amplitudes S->ff, gg, pi pi written down from the interactions and put through two-body phase space and the
propagator; x x -> S S, S S -> x x and x x -> S -> x x from numerical Dirac traces; sums, thresholds and coupling exponents.
Non-trivial: the channel is open and its coupling non-zero."""
import math
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl
from checks import models as D
from checks.models import XS, W, ALPHA, ECM, near
from ref import dirac as T

ASSUMPTIONS = ["masses: the cross-section kernels and the widths use the package's two constant sets (differing in the 7th digit); each is compared "
               "with its own, so the relation between them is not sharper than that near a pion threshold",
               "normalisation of gsGG is the one of the pion amplitude (2 gsGG/9 lam); elastic cross sections are decided for thresholds and coupling exponents only"]
VH = 246.22795e3


def amp_pi(k, s, mpi, bm):
    """S -> pi pi from 2 gsGG/(9 lam) trace anomaly with B0-mass terms plus the quark masses times gsff/vh"""
    return 2 * k["gsGG"] / (9 * k["lam"]) * (s - 2 * mpi ** 2 + 3 * bm) + k["gsff"] / VH * bm


def gammas(k, m, c):
    """mediator of mass m into each channel (MeV): |M|^2 beta / (16 pi m), half of it for identical particles"""
    def beta(x):
        return math.sqrt(max(1 - 4 * x * x / (m * m), 0.0))
    r = {}
    for n, mf in (("e e", c["me"]), ("mu mu", c["mmu"])):
        r[n] = 2 * (k["gsff"] * mf / VH) ** 2 * (m * m - 4 * mf * mf) * beta(mf) / (16 * math.pi * m) if m > 2 * mf else 0.0
    # vertex alpha gsFF/(4 pi lam) S F F: sum over helicities 2 (2 c)^2 ... m^4
    r["g g"] = 0.5 * 8 * (ALPHA * k["gsFF"] / (4 * math.pi * k["lam"])) ** 2 * m ** 4 / (16 * math.pi * m)
    for n, mp, f in (("pi0 pi0", c["mpi0"], .5), ("pi pi", c["mpi"], 1.)):
        r[n] = f * amp_pi(k, m * m, mp, c['bm']) ** 2 * beta(mp) / (16 * math.pi * m) if m > 2 * mp else 0.0
    return r


def couplings(m):
    return {n: getattr(m, n) for n in ("gsxx", "gsff", "gsGG", "gsFF", "lam")}


def expected_couplings(d):
    k = d["kw"]
    if d["cls"] == "HiggsPortal":
        return dict(gsxx=k["gsxx"], gsff=k["stheta"], gsGG=3 * k["stheta"], gsFF=-5 * k["stheta"] / 6, lam=VH)
    if d["cls"] == "HeavyQuark":
        return dict(gsxx=k["gsxx"], gsff=0.0, gsGG=k["gsQ"], gsFF=2 * k["gsQ"] * k["QQ"] ** 2, lam=k["mQ"])
    return {n: k[n] for n in ("gsxx", "gsff", "gsGG", "gsFF", "lam")}


CH = {"e e": lambda m, e: m.sigma_xx_to_s_to_ff(e, "e"), "mu mu": lambda m, e: m.sigma_xx_to_s_to_ff(e, "mu"), "g g": lambda m, e: m.sigma_xx_to_s_to_gg(e),
      "pi0 pi0": lambda m, e: m.sigma_xx_to_s_to_pi0pi0(e), "pi pi": lambda m, e: m.sigma_xx_to_s_to_pipi(e)}
THR = {"e e": 2 * XS["me"], "mu mu": 2 * XS["mmu"], "g g": 0.0, "pi0 pi0": 2 * XS["mpi0"], "pi pi": 2 * XS["mpi"]}


@oracle(st.tuples(D.points(D.SCALAR), ECM, st.one_of(st.none(), logfl(1e-6, 1e4))), quick=2500)
def schannel(case):
    d, (kind, x), width = case
    m = D.build(d)
    e, k = near(d, x, kind), expected_couplings(d)
    for n, v in k.items():
        close(getattr(m, n), v, 1e-14, "coupling " + n)
    if width is not None:
        m.width_s = width
    g, mx, ms = m.width_s, m.mx, m.ms
    opened = 0
    gam = gammas(k, e, XS)
    for n, f in CH.items():
        got = cut(f, m, e)
        if e < max(THR[n], 2 * mx):
            require(got == 0.0, "%s below threshold: %r at %r", n, got, e)
            continue
        if min(abs(e - THR[n]), abs(e - 2 * mx)) < 1e-12 * e:
            continue
        prop = (e * e - ms * ms) ** 2 + (ms * g) ** 2
        if prop < 1e-24 * e ** 4:
            continue
        # spin average of |gsxx vbar u|^2 is gsxx^2 (s - 4 mx^2)/2; flux 4 E1 E2 v = 2 e^2 beta_x
        ref = k["gsxx"] ** 2 * (e * e - 4 * mx * mx) / 2 * (2 * e * gam[n]) / prop / (2 * e * math.sqrt(e * e - 4 * mx * mx))
        t = 1e-10 + 1e-14 / abs(1 - THR[n] / e) + 1e-14 / abs(1 - 2 * mx / e) + 1e-15 * e * e / math.sqrt(prop)
        if "pi" in n:      # cancellation between the two terms of the pion amplitude
            a = abs(amp_pi(k, e * e, THR[n] / 2, XS['bm']))
            big = abs(2 * k["gsGG"] / (9 * k["lam"])) * (e * e + 3 * XS['bm']) + abs(k["gsff"] / VH * XS['bm'])
            t += 1e-14 * big / a if a > 0 else 1
        if ref > 1e-290:
            close(got, ref, t, "sigma(x x -> %s) at %r" % (n, e))
            opened += 1
        finite_nonneg(got, n)
    return "%s:%s:%d" % (d["cls"], kind, opened) if opened else None


@oracle(st.tuples(D.points(D.SCALAR), st.one_of(st.none(), st.tuples(st.sampled_from(["mx", "pi", "pi0", "mu", "e"]), fl(-1e-3, 1e-3)))), quick=1500)
def widths(case):
    d, tie = case
    if tie is not None:
        base = dict(mx=2 * d["kw"]["mx"], pi=2 * W["mpi"], pi0=2 * W["mpi0"], mu=2 * W["mmu"], e=2 * W["me"])[tie[0]]
        d = dict(cls=d["cls"], kw=dict(d["kw"], ms=base * (1 + tie[1])))
    m = D.build(d)
    k, ms, mx = expected_couplings(d), m.ms, m.mx
    ref = gammas(k, ms, W)
    ref["x x"] = 2 * k["gsxx"] ** 2 * (ms * ms - 4 * mx * mx) * math.sqrt(1 - 4 * mx * mx / ms / ms) / (16 * math.pi * ms) if ms > 2 * mx else 0.0
    pw = cut(m.partial_widths)
    single = {"e e": cut(m.width_s_to_ff, "e"), "mu mu": cut(m.width_s_to_ff, "mu"), "g g": cut(m.width_s_to_gg), "pi0 pi0": cut(m.width_s_to_pi0pi0),
              "pi pi": cut(m.width_s_to_pipi), "x x": cut(m.width_s_to_xx)}
    require(set(pw) == set(ref) | {"total"}, "partial widths for %s", sorted(pw))
    thr = {"e e": 2 * W["me"], "mu mu": 2 * W["mmu"], "g g": 0, "pi0 pi0": 2 * W["mpi0"], "pi pi": 2 * W["mpi"], "x x": 2 * mx}
    for n, v in ref.items():
        t = 1e-10 + 1e-14 / max(abs(1 - thr[n] / ms), 1e-16)
        if "pi" in n:
            a = abs(amp_pi(k, ms * ms, thr[n] / 2, W['bm']))
            big = abs(2 * k["gsGG"] / (9 * k["lam"])) * (ms * ms + 3 * W['bm']) + abs(k["gsff"] / VH * W['bm'])
            t += 1e-14 * big / a if a > 0 else 1
        close(single[n].real if isinstance(single[n], complex) else single[n], v, t, "width of S -> %s (ms=%r)" % (n, ms))
        close(pw[n], single[n], 1e-14, "partial width of " + n)
        finite_nonneg(float(np.real(pw[n])), n)
    tot = sum(pw[n] for n in ref)
    close(pw["total"], tot, 1e-13, "total width")
    close(m.width_s, tot, 1e-13, "width_s")
    # annihilation cross sections use that width: on resonance only the product ms*width survives
    return "%s:%d" % (d["cls"], sum(v > 0 for v in ref.values())) if any(v > 0 for v in ref.values()) else None


def mild(e, mx, ms):
    """the closed forms divide a difference of O(1) terms by beta^2; relative accuracy then is eps over the product of velocities"""
    bx, bs = math.sqrt(1 - 4 * mx * mx / e / e), math.sqrt(max(1 - 4 * ms * ms / e / e, 0))
    return bx, bs


@oracle(st.tuples(D.points("ScalarMediator"), st.one_of(logfl(1e-3, 0.05), logfl(0.01, 3.0))), quick=700)
def pairs(case):
    d, x = case
    m = D.build(d)
    mx, ms, g = m.mx, m.ms, m.gsxx
    e = 2 * max(mx, ms) * (1 + x)
    bx, bs = mild(e, mx, ms)
    t = 1e-8 + 1e-12 / (bx * bs) ** 2
    close(cut(m.sigma_xx_to_ss, e), T.xx_to_ss(e, mx, ms, g), t, "sigma(x x -> S S) at %r" % e)
    close(cut(m.sigma_ss_to_xx, e), T.ss_to_xx(e, mx, ms, g), t, "sigma(S S -> x x) at %r" % e)
    for f in (m.sigma_xx_to_ss, m.sigma_ss_to_xx):
        require(cut(f, 2 * max(mx, ms) * 0.999) == 0.0, "pair production below threshold")
    return "heavy-mediator" if ms > mx else "light-mediator"


@oracle(st.tuples(D.points(D.SCALAR), st.one_of(logfl(1e-3, 0.05), logfl(0.01, 3.0)), st.booleans()), quick=600)
def self_scatter(case):
    d, x, arr = case
    m = D.build(d)
    e = 2 * m.mx * (1 + x)
    off = abs(e * e - m.ms ** 2) / e ** 2
    got = cut(m.sigma_xx_to_s_to_xx, np.array([e, m.mx, 1.1 * e]) if arr else e)
    got = np.atleast_1d(got)
    if arr:
        require(got.shape == (3,) and got[1] == 0.0, "x x -> x x: %r for three energies, the second below threshold", got)
    ref = T.xx_to_med_to_xx(e, m.mx, m.ms, m.width_s, m.gsxx, False)
    close(float(got[0]), ref, 1e-5 + 1e-13 / max(off, 1e-13) ** 2 if off < 1e-4 else 1e-5, "sigma(x x -> x x) at %r" % e)
    return "light" if m.ms < 0.1 * e else "heavy"


@oracle(st.tuples(D.points(D.SCALAR), st.lists(ECM, min_size=1, max_size=5), st.booleans()), quick=600)
def inclusive(case):
    d, es, reverse = case
    m = D.build(d)
    es = [near(d, x, k) for k, x in es]
    es = [e for e in es if min(abs(e / (2 * d["kw"]["mx"]) - 1), abs(e / d["kw"]["ms"] - 2)) > 1e-9]
    op = 0
    for e in es:
        all_ = cut(m.annihilation_cross_sections, e)
        require(set(all_) >= set(m.list_annihilation_final_states()) | {"total"}, "channels %s", sorted(all_))
        require(set(all_) <= set(CH) | {"s s", "total"}, "channels %s", sorted(all_))
        own = {n: cut(f, m, e) for n, f in CH.items()}
        own["s s"] = cut(m.sigma_xx_to_ss, e)
        for n in all_:
            if n != "total":
                close(all_[n], own[n], 1e-13, "cross section of %s" % n)
                op += own[n] > 0
        # channels a variant does not list carry no rate
        for n in own:
            require(n in all_ or own[n] == 0.0, "%s missing from the channels of %s but has rate %r", n, d["cls"], own[n])
        close(all_["total"], sum(own.values()), 1e-12, "inclusive cross section")
    for n, f in dict(CH, **{"s s": lambda m, e: m.sigma_xx_to_ss(e)}).items():
        one = [cut(f, m, e) for e in es]
        vec = cut(f, m, np.array(es, float))
        require(np.array_equal(np.asarray(vec), np.array(one), equal_nan=True), "%s over an array %r differs from one by one %r", n, vec, one)
    return "%s:%d" % (d["cls"], min(op, 6)) if op else None


EXP = {"sigma_xx_to_s_to_ff:e": dict(gsxx=2, gsff=2), "sigma_xx_to_s_to_ff:mu": dict(gsxx=2, gsff=2), "sigma_xx_to_s_to_gg": dict(gsxx=2, gsFF=2, lam=-2),
       "sigma_xx_to_ss": dict(gsxx=4), "sigma_ss_to_xx": dict(gsxx=4), "sigma_xs_to_xs": dict(gsxx=4), "sigma_xg_to_xg": dict(gsxx=2, gsFF=2, lam=-2),
       "sigma_xl_to_xl:e": dict(gsxx=2, gsff=2), "sigma_xl_to_xl:mu": dict(gsxx=2, gsff=2), "sigma_xpi_to_xpi": dict(gsxx=2, matter=2),
       "sigma_xpi0_to_xpi0": dict(gsxx=2, matter=2), "sigma_xx_to_s_to_pipi": dict(gsxx=2, matter=2), "sigma_xx_to_s_to_pi0pi0": dict(gsxx=2, matter=2)}
ETHR = {"sigma_xl_to_xl:e": XS["me"], "sigma_xl_to_xl:mu": XS["mmu"], "sigma_xpi_to_xpi": XS["mpi"], "sigma_xpi0_to_xpi0": XS["mpi0"], "sigma_xg_to_xg": 0.0}


@oracle(st.tuples(D.points("ScalarMediator"), st.sampled_from(sorted(EXP)), logfl(0.02, 3), logfl(0.1, 1e3), st.sampled_from([2.0, 4.0, 0.5])), quick=1500)
def exponents(case):
    """at fixed masses, energy and width each rate is a power of each coupling (powers of two: exact scaling)"""
    d, name, x, width, f = case
    d = dict(cls=d["cls"], kw=dict(d["kw"]))
    fn, _, arg = name.partition(":")
    a = (arg,) if arg else ()

    def val(kw):
        m = D.build(dict(cls=d["cls"], kw=kw))
        m.width_s = width
        return cut(getattr(m, fn), e, *a)
    kw = d["kw"]
    if name in ETHR:
        e = (kw["mx"] + ETHR[name]) * (1 + x)
        require(val(kw) * 0 == 0, "%s is %r", name, val(kw))
        lo = dict(cls=d["cls"], kw=kw)
        m = D.build(lo)
        require(cut(getattr(m, fn), (kw["mx"] + ETHR[name]) * 0.999, *a) == 0.0, "%s below threshold", name)
    else:
        e = 2 * max(kw["mx"], kw["ms"]) * (1 + x)
    if abs(e / (2 * kw["mx"]) - 1) < 1e-6:
        return None
    v = val(kw)
    nz = v != 0
    for c, p in EXP[name].items():
        kw2 = dict(kw)
        for cc in (("gsff", "gsGG") if c == "matter" else (c,)):
            kw2[cc] = kw[cc] * f
        close(val(kw2), v * f ** p, 1e-12, "%s after scaling %s by %r" % (name, c, f))
    free = {"gsff", "gsGG", "gsFF"} - {k for k in EXP[name]} - ({"gsff", "gsGG"} if "matter" in EXP[name] else set())
    for c in sorted(free):
        close(val(dict(kw, **{c: kw[c] * f + 0.1})), v, 1e-13, "%s after changing %s, on which it does not depend" % (name, c))
    return name if nz else None
