"""Constraints on the scalar mediator from rare meson decays, beam dumps and invisible Higgs decays.  Oracle: the published two-body formulas
(independent transcription, own constants, own kinematics) with the model's own partial widths; scaling with the couplings, vanishing beyond the
kinematic limit, the sign of each constraint against the predicted rate, beam-dump exponentials.  Non-trivial: the mediator can be produced."""
import math
import numpy as np
from hazma.constraint_parameters import BeamDumpParams, bd_charm, bd_ship
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl, signed
from checks import models as D

ASSUMPTIONS = ["the mediator's partial widths are C14's subject and enter as given", "experimental bounds, detector sizes and kinematic windows as cited in the package (transcribed)",
               "mediators of zero total width are not generated"]
MB, MK, MPI, MPI0, MKL, MMU = 5279.29, 493.677, 139.57039, 134.9768, 497.611, 105.6583745
MBQ, MS_, MD, MT, VH, GF, MH = 4.18e3, 95.0, 4.67, 172.9e3, 246.22795e3, 1.1663787e-11, 125.1e3
B_W, K_W, KL_W = 4.35e-10, 5.32e-14, 1.29e-14
CM = 1.0 / 1.973269804e-11          # 1/MeV per cm


def ckm():
    from hazma import parameters as P
    return complex(P.Vtd), complex(P.Vts), complex(P.Vtb)


def lam(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + a * c + b * c)


def pstar(M, m1, m2):
    return math.sqrt(max(lam(M * M, m1 * m1, m2 * m2), 0.0)) / (2 * M)


def loop(mi, mj, vi, vj):
    return 3 * math.sqrt(2) * (mi + mj) * GF * MT ** 2 * vi.conjugate() * vj / (32 * math.pi ** 2 * VH)


def two_body(M, m, mq_heavy, mq_light, h, g, ms, form=1.0):
    """Gamma(M -> m S) = p/(8 pi M^2) |<m|qq|M> h g|^2, scalar matrix element (M^2-m^2)/(m_Q-m_q) times a form factor"""
    if ms >= M - m:
        return 0.0
    amp = (M * M - m * m) / (mq_heavy - mq_light) * form * h * g
    return pstar(M, m, ms) / (8 * math.pi * M * M) * abs(amp) ** 2


def production(m):
    vtd, vts, vtb = ckm()
    ms, g = m.ms, m.gsff
    sb, sd = loop(MS_, MBQ, vts, vtb), loop(MS_, MD, vts, vtd)
    return dict(width_B_k_s=two_body(MB, MK, MBQ, MS_, sb, g, ms, 0.33 / (1 - ms * ms / 38000.0 ** 2)),
                width_k_pi_s=two_body(MK, MPI, MS_, MD, sd, g, ms),
                width_kl_pi0_s=two_body(MKL, MPI0, MS_, MD, sd.imag, g, ms),
                width_B_xs_s=(MBQ ** 2 - ms ** 2) ** 2 / (8 * math.pi * MBQ ** 3) * abs(sb * g) ** 2 if ms <= MB - MK else 0.0)


def espair(p):
    return max(MK ** 2 + MPI ** 2 - 2 * MK * math.sqrt(MPI ** 2 + p ** 2), 0.0)


# name -> (parent, daughter, production width, final state (None: invisible), bound, radius in cm, windows of s)
RARE = {
    "constraint_B_k_invis": (MB, MK, "width_B_k_s", None, (1.6e-5 - 3.8e-6) * B_W, 320.0, [(0.0, 0.3 * MB ** 2)]),
    "constraint_B_k_mu_mu": (MB, MK, "width_B_k_s", "mu mu", (5.4e-7 - 2.3e-7) * B_W, 0.5, [(4 * MMU ** 2, 8.68e6), (10.09e6, 12.86e6), (14.18e6, (MB - MK) ** 2)]),
    "constraint_B_k_e_e": (MB, MK, "width_B_k_s", "e e", (5.4e-7 / 1.03 - 2.3e-7) * B_W, 0.5, [(8.11e6, 10.03e6), (12.15e6, 14.11e6)]),
    "constraint_k_pi_invis": (MK, MPI, "width_k_pi_s", None, (2.88e-10 - 0.78e-10) * K_W, 145.0, [(espair(229.0), espair(211.0)), (espair(195.0), espair(140.0))]),
    "constraint_kl_pi0_mu_mu": (MKL, MPI0, "width_kl_pi0_s", "mu mu", (3.8e-10 - 1.2e-11) * KL_W, 0.1, [(0.0, 350.0 ** 2)]),
    "constraint_kl_pi0_e_e": (MKL, MPI0, "width_kl_pi0_s", "e e", (2.8e-10 - 2.4e-11) * KL_W, 0.1, [(140.0 ** 2, 362.7 ** 2)]),
}
EDGES = sorted({MB - MK, MK - MPI, MKL - MPI0, 2 * MMU, 350.0, 140.0, 362.7} | {math.sqrt(s) for v in RARE.values() for w in v[6] for s in w if s > 0})
MS = st.one_of(logfl(1, 500), logfl(1, 500), fl(300, 5500), st.tuples(st.sampled_from(EDGES), st.sampled_from([-1e-2, -1e-4, 1e-4, 1e-2])).map(lambda t: t[0] * (1 + t[1])))
MX = st.one_of(logfl(1, 1500), logfl(1, 7e4))
G = st.one_of(signed(logfl(1e-9, 1.0)), signed(logfl(1e-7, 1e-2)))
PTS = st.one_of(D.points("HiggsPortal", ms=MS, mx=MX, gsxx=G, stheta=signed(logfl(1e-9, 0.95))),
                D.points("ScalarMediator", ms=MS, mx=MX, gsxx=G, gsff=signed(logfl(1e-9, 0.95)), gsGG=G, gsFF=G))


def at_edge(ms):
    return any(abs(ms / e - 1) < 1e-6 for e in EDGES)


@oracle(PTS, quick=3000, thorough=30000)
def production_widths(case):
    m = D.build(case)
    if at_edge(m.ms):
        return None
    want = production(m)
    for n, w in want.items():
        got = float(np.real(cut(getattr(m, n))))
        finite_nonneg(got, n)
        close(got, w, 1e-6 + (2e-8 / max(1 - m.ms / (MK - MPI), 1e-9) if m.ms < MK else 0), "%s at ms=%r" % (n, m.ms))
    return "+".join(sorted(n for n in want if want[n] > 0)) or None


@oracle(st.tuples(PTS, logfl(0.01, 10)), quick=200, thorough=5000)
def coupling_scaling(case):
    d, k = case
    n = "gsff" if d["cls"] == "ScalarMediator" else "stheta"
    a, b = D.build(d), D.build(dict(d, kw=dict(d["kw"], **{n: d["kw"][n] * k})))
    for n in ("width_B_k_s", "width_k_pi_s", "width_kl_pi0_s", "width_B_xs_s"):
        close(float(cut(getattr(b, n))), float(cut(getattr(a, n))) * k * k, 1e-9, "%s scales with the fermion coupling squared" % n)
    return "scaled" if a.ms < MB - MK else None


def expected(name, m, prod):
    M, daughter, wn, fs, bound, r, windows = RARE[name]
    ms = m.ms
    if not any(lo <= ms * ms <= hi for lo, hi in windows) or ms >= M - daughter:
        return bound, 0.0
    pw = m.partial_widths()
    tot = pw["total"]
    stay = math.exp(-min(r * CM * tot * ms / pstar(M, daughter, ms), 745.0))           # survives past the radius
    gone = -math.expm1(-min(r * CM * tot * ms / pstar(M, daughter, ms), 745.0))
    if fs is None:
        frac = (pw["x x"] + stay * (tot - pw["x x"])) / tot
    else:
        frac = pw[fs] / tot * gone
    return bound, prod[wn] * frac


@oracle(PTS, quick=3000, thorough=30000)
def rare_decays(case):
    m = D.build(case)
    if at_edge(m.ms):
        return None
    prod = production(m)
    lab = []
    for n in RARE:
        bound, rate = expected(n, m, prod)
        got = float(np.real(cut(getattr(m, n))))
        close(got, bound - rate, 2e-5, "%s at ms=%r" % (n, m.ms), scale=max(bound, rate))
        if abs(bound - rate) > 1e-4 * bound:
            require((got < 0) == (rate > bound), "%s = %r but predicted %r, bound %r", n, got, rate, bound)
        if rate > 0:
            lab.append(n.replace("constraint_", "") + ("!" if rate > bound else ""))
    return "+".join(lab) or None


DUMP = st.one_of(st.sampled_from(["charm", "charm", "ship", "default"]), st.tuples(logfl(1e-3, 1), logfl(1e-9, 1e-2), logfl(6e3, 1e5), logfl(1, 1e3), logfl(1, 100),
                 st.lists(st.sampled_from(["g g", "e e", "mu mu", "pi pi", "pi0 pi0", "x x", "k k"]), unique=True, min_size=1, max_size=5), logfl(1e10, 1e21), logfl(0.1, 100)))
TCHARM = (10 / 40, 3.6e-6 / 40, 10e3, 480.0, 35.0, ["g g", "e e", "mu mu"], 2.9e17, 2.3)
TSHIP = (10 / 40, 3.6e-3 / 40, 25e3, 70.0, 55.0, ["g g", "e e", "mu mu", "pi pi", "pi0 pi0", "k k", "k0 k0"], 2.0e20, 3.0)


@oracle(st.tuples(PTS, DUMP, st.sampled_from(["asis", "tuned", "tuned"])), quick=3000, thorough=30000)
def beam_dumps(case):
    d, bd, mode = case
    t = TCHARM if bd in ("charm", "default") else TSHIP if bd == "ship" else tuple(bd)
    m = D.build(d)
    if at_edge(m.ms) or m.ms >= t[2] * 0.999:
        return None
    width = float(m.width_s)
    gb = math.sqrt((t[2] / m.ms) ** 2 - 1)
    if mode == "tuned" and d["cls"] == "ScalarMediator":
        # rescale all couplings so that the decay length is comparable to the distance
        k = math.sqrt(min(gb / (t[3] * 100 * CM) / width, 1.0 / max(abs(m.gsff), abs(m.gsxx)) ** 2))
        for n in ("gsxx", "gsff", "gsGG", "gsFF"):
            setattr(m, n, getattr(m, n) * k)
        width = float(m.width_s)
    prod = production(m)
    made = t[0] * (0.5 * prod["width_k_pi_s"] / K_W + 0.25 * prod["width_kl_pi0_s"] / KL_W) + t[1] * prod["width_B_xs_s"] / B_W
    x, y = t[3] * 100 * CM * width / gb, t[4] * 100 * CM * width / gb
    pw = m.partial_widths()
    vis = sum(pw.get(c, 0.0) for c in t[5]) / pw["total"]
    want = t[6] * made * math.exp(-min(x, 745)) * -math.expm1(-min(y, 745)) * vis
    obj = {"charm": bd_charm, "ship": bd_ship}.get(bd) if isinstance(bd, str) else BeamDumpParams(*t)
    got = float(cut(m.constrain_beam_dump) if bd == "default" else cut(m.constrain_beam_dump, obj))
    tol = 1e-5 * max(x, 1.0) + 1e-15 / max(min(y, 1), 1e-15)      # 1 - exp(-y) is evaluated as written
    if tol < 0.3:
        close(got, t[7] - want, tol, "beam-dump constraint", scale=max(want, t[7]))
    else:
        require(np.isfinite(got), "beam-dump constraint %r", got)
    return (bd if isinstance(bd, str) else "custom") + ("!" if want > t[7] else "") if want > 1e-30 * t[7] else None


@oracle(D.points("HiggsPortal", mx=st.one_of(logfl(1, 1e5), fl(6e4, 6.3e4)), stheta=signed(logfl(1e-6, 0.95))), quick=300, thorough=8000)
def higgs(case):
    m = D.build(case)
    g = m.gsxx * m.stheta / math.sqrt(1 - m.stheta ** 2)
    w = g * g * MH / (8 * math.pi) * (1 - 4 * m.mx ** 2 / MH ** 2) ** 1.5 if MH > 2 * m.mx else 0.0
    close(float(cut(m.width_h_invis)), w, 1e-9, "invisible Higgs width")
    close(float(cut(m.constraint_higgs_invis)), 3.2 * 0.19 - w, 1e-9, "invisible Higgs constraint", scale=max(0.608, w))
    c = cut(m.constraints)
    for k, n in (("B -> k invis", "constraint_B_k_invis"), ("B -> k mu mu", "constraint_B_k_mu_mu"), ("k -> pi invis", "constraint_k_pi_invis"), ("kl -> pi0 mu mu", "constraint_kl_pi0_mu_mu"),
                 ("kl -> pi0 e e", "constraint_kl_pi0_e_e"), ("higgs -> invis", "constraint_higgs_invis"), ("CHARM", "constrain_beam_dump")):
        require(k in c, "constraint %r missing", k)
        a, b = float(np.real(cut(c[k]))), float(np.real(getattr(m, n)()))
        require(a == b or (np.isnan(a) and np.isnan(b)), "constraints()[%r] is not %s", k, n)
    return "open" if w else "closed"
