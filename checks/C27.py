"""Constants, tables and telescope data.  Oracle: an independent transcription of PDG / CODATA / Planck values, relations between derived constants,
the data files themselves read with numpy, solid-angle geometry, finite differences of the parametric backgrounds, and the kernels' own thresholds
against hazma.parameters' masses.  Non-trivial: the drawn constant or energy is compared with a non-zero reference."""
import functools
import math
import os
import warnings
import numpy as np
import hazma
from hazma import parameters as P, gamma_ray_parameters as G, spectra
from hazma.flux_measurement import FluxMeasurement
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl

ASSUMPTIONS = ["reference masses, widths and conversion factors are the PDG / CODATA / Planck values", "the package carries two documented generations of constants in the compiled core (2014 and 2022 values) "
               "and three values of alpha; the check holds the public ones to PDG accuracy", "target J and D factors are the values published with the package, held to 0.1 %"]


class _Rec:
    label, nt = "case", False

    def tag(self, t):
        self.label = t

    def nontrivial(self, c):
        self.nt = c


def labelled(fn):
    @functools.wraps(fn)
    def run(case):
        rec = _Rec()
        fn(rec, case)
        return rec.label if rec.nt else None
    return run


HB = 6.582119569e-22       # MeV s
CC = 2.99792458e10         # cm / s
MASS = dict(electron_mass=0.51099895, muon_mass=105.6583755, tau_mass=1776.86, neutral_pion_mass=134.9768, charged_pion_mass=139.57039, eta_mass=547.862,
            eta_prime_mass=957.78, charged_kaon_mass=493.677, neutral_kaon_mass=497.611, long_kaon_mass=497.611, short_kaon_mass=497.611, rho_mass=775.26,
            omega_mass=782.66, phi_mass=1019.461, charged_B_mass=5279.34, higgs_mass=125.1e3, wboson_mass=80.379e3, zboson_mass=91.1876e3)
QUARK = dict(up_quark_mass=2.16, down_quark_mass=4.67, strange_quark_mass=93.4, charm_quark_mass=1270.0, bottom_quark_mass=4180.0, top_quark_mass=172.7e3)
KEYS = dict(e="electron_mass", mu="muon_mass", tau="tau_mass", u="up_quark_mass", c="charm_quark_mass", t="top_quark_mass", d="down_quark_mass", s="strange_quark_mass",
            b="bottom_quark_mass", h="higgs_mass", pi="charged_pion_mass", pi0="neutral_pion_mass", k="charged_kaon_mass", k0="neutral_kaon_mass", kl="long_kaon_mass",
            ks="short_kaon_mass", eta="eta_mass", etap="eta_prime_mass", rho="rho_mass", rho0="rho_mass", omega="omega_mass", phi="phi_mass")
MASSLESS = ["ve", "vm", "vt", "photon", "a", "g"]
CODE = dict(d=1, u=2, s=3, c=4, b=5, t=6, e=11, ve=12, mu=13, vm=14, tau=15, vt=16, g=21, a=22, z=23, w=24, h=25, pi0=111, rho0=113, kl=130, pi=211, rho=213,
            eta=221, omega=223, ks=310, k0=311, k=321, etap=331, phi=333)
LIFE = dict(mu=2.1969811e-6, tau=290.3e-15, pi0=8.43e-17, pi=2.6033e-8, k=1.2380e-8, ks=0.8954e-10, kl=5.116e-8)
WIDTH = dict(t=1420.0, z=2495.2, w=2085.0, eta=1.31e-3, rho=147.4, omega=8.68, eta_prime=0.188, phi=4.249)
VALUE = {   # name -> (reference, tolerance)
    "s_to_inv_MeV": (1 / HB, 1e-7), "cm_to_inv_MeV": (1 / (HB * CC), 1e-7), "m_to_inv_MeV": (100 / (HB * CC), 1e-7), "sv_inv_MeV_to_cm3_per_s": ((HB * CC) ** 2 * CC, 1e-7),
    "g_to_MeV": (5.609588603e26, 1e-7), "MeV_to_g": (1.78266192e-27, 1e-7), "Msun_to_g": (1.98841e33, 5e-4), "g_to_Msun": (1 / 1.98841e33, 5e-4),
    "barn_to_inv_MeV2": (1e-24 / (HB * CC) ** 2, 1e-5), "plank_mass": (1.220890e22, 5e-5), "GF": (1.1663787e-11, 1e-6), "vh": (1 / math.sqrt(math.sqrt(2) * 1.1663787e-11), 1e-4),
    "alpha_em": (1 / 137.035999, 1e-4), "qe": (math.sqrt(4 * math.pi / 137.035999), 1e-4), "sin_theta_weak_sqrd": (0.2229, 2e-3), "sin_theta_weak": (math.sqrt(0.2229), 2e-3),
    "cos_theta_weak": (math.sqrt(0.7771), 2e-3), "rho_crit": (1.05375e-2, 2e-3), "sm_entropy_density_today": (2891.2, 1e-3), "omega_h2_cdm": (0.12, 5e-3),
    "dimensionless_hubble_constant": (0.674, 1e-2), "temp_cmb_formation": (0.235e-6, 2e-2), "speed_of_light": (299792458.0, 1e-12), "Qu": (2 / 3, 1e-12), "Qd": (-1 / 3, 1e-12),
    "Qe": (-1.0, 1e-12), "fpi": (92.2, 1e-3), "fpi0": (92.0, 5e-3), "fk": (110.3, 5e-3), "rho_width": (147.4, 1e-2), "B_width": (HB / 1.638e-12, 0.09), "k_width": (HB / 1.2380e-8, 2e-3),
    "kl_width": (HB / 5.116e-8, 5e-3)}
CKMAG = [[0.97435, 0.22500, 0.00369], [0.22486, 0.97349, 0.04182], [0.00857, 0.04110, 0.999118]]
LEC = {"1": 0.56e-3, "2": 1.21e-3, "3": -2.79e-3, "4": -0.36e-3, "5": 1.4e-3, "6": 0.07e-3, "7": -0.44e-3, "8": 0.78e-3}


@oracle(st.one_of(
    st.tuples(st.just("mass"), st.sampled_from(sorted(MASS))), st.tuples(st.just("quark"), st.sampled_from(sorted(QUARK))),
    st.tuples(st.just("value"), st.sampled_from(sorted(VALUE))), st.tuples(st.just("life"), st.sampled_from(sorted(LIFE))),
    st.tuples(st.just("width"), st.sampled_from(sorted(WIDTH))), st.tuples(st.just("key"), st.sampled_from(sorted(KEYS) + MASSLESS)),
    st.tuples(st.just("code"), st.sampled_from(sorted(CODE))), st.tuples(st.just("lec"), st.sampled_from(sorted(LEC))),
    st.tuples(st.just("ckm"), st.tuples(st.integers(0, 2), st.integers(0, 2))), st.tuples(st.just("derived"), st.sampled_from(["chiral", "kaon", "b0", "weak", "qe", "unitary", "ratio", "brwidth"]))),
    quick=1500, thorough=20000)
@labelled
def constants(rec, case):
    kind, n = case
    rec.nontrivial(n != "unitary")
    rec.tag(kind)
    if kind == "mass":
        close(getattr(P, n), MASS[n], 1e-4, n)
    elif kind == "quark":
        close(getattr(P, n), QUARK[n], 0.03, n)
    elif kind == "value":
        close(getattr(P, n), VALUE[n][0], VALUE[n][1], n)
    elif kind == "life":
        close(P.SM_WIDTHS[n], HB / LIFE[n], 2e-3, "width of %s against its lifetime" % n)
    elif kind == "width":
        close(P.SM_WIDTHS[n], WIDTH[n], 0.03, "width of %s" % n)
    elif kind == "key":
        if n in MASSLESS:
            require(P.standard_model_masses[n] == 0.0, "massless %s has mass %r" % (n, P.standard_model_masses[n]))
        else:
            require(P.standard_model_masses[n] == getattr(P, KEYS[n]), "standard_model_masses[%r] = %r differs from %s = %r" % (n, P.standard_model_masses[n], KEYS[n], getattr(P, KEYS[n])))
    elif kind == "code":
        require(P.PDG_CODES[n] == CODE[n], "PDG code of %s is %r" % (n, P.PDG_CODES[n]))
    elif kind == "lec":
        close(P.LECS[n], LEC[n], 1e-9, "low-energy constant L%s" % n)
        close(getattr(P, ("Lr" if n not in "37" else "L") + n), LEC[n], 1e-9, "L%s attribute" % n)
    elif kind == "ckm":
        i, j = n
        v = P.CKM[i, j]
        close(abs(v), CKMAG[i][j], 2e-2, "|V_%s%s|" % ("uct"[i], "dsb"[j]))
        require(getattr(P, "V" + "uct"[i] + "dsb"[j]) == v, "V%s%s is not the CKM entry" % ("uct"[i], "dsb"[j]))
    elif n == "chiral":
        close(P.pion_mass_chiral_limit, (P.neutral_pion_mass + P.charged_pion_mass) / 2, 1e-12, n)
    elif n == "kaon":
        close(P.kaon_mass_chiral_limit, (P.neutral_kaon_mass + P.charged_kaon_mass) / 2, 1e-12, n)
    elif n == "b0":
        close(P.b0, P.pion_mass_chiral_limit ** 2 / (P.up_quark_mass + P.down_quark_mass), 1e-12, n)
    elif n == "weak":
        close(P.sin_theta_weak ** 2 + P.cos_theta_weak ** 2, 1.0, 1e-12, "sin^2+cos^2")
        close(P.sin_theta_weak ** 2, P.sin_theta_weak_sqrd, 1e-12, n)
    elif n == "qe":
        close(P.qe ** 2 / (4 * math.pi), P.alpha_em, 1e-12, n)
    elif n == "ratio":
        close(P.MeV_to_g * P.g_to_MeV, 1.0, 1e-12, n)
        close(P.Msun_to_g * P.g_to_Msun, 1.0, 1e-12, n)
        close(P.m_to_inv_MeV, 100 * P.cm_to_inv_MeV, 1e-12, n)
        close(P.speed_of_light * P.m_to_inv_MeV, P.s_to_inv_MeV, 1e-12, n)
    elif n == "brwidth":
        close(P.k_width, P.SM_WIDTHS["k"], 1e-2, "charged kaon width")
        close(P.kl_width, P.SM_WIDTHS["kl"], 1e-2, "long kaon width")
        close(P.rho_width, P.SM_WIDTHS["rho"], 1e-2, "rho width")
    else:
        u = P.CKM @ P.CKM.conj().T
        require(np.allclose(u, np.eye(3), atol=1e-10), "CKM matrix is not unitary: %r" % (np.abs(u - np.eye(3)).max(),))
        # Jarlskog invariant
        close((P.Vus * P.Vcb * P.Vub.conjugate() * P.Vcs.conjugate()).imag, 3.08e-5, 0.05, "Jarlskog invariant")


@oracle(st.tuples(logfl(1e-40, 1e3), st.sampled_from(["cm^3/s", "cm^3 / s", "MeV^-2", "cm3/s", "MeV^2", "", None]), st.integers(0, 4)), quick=400, thorough=6000)
@labelled
def unit_conversion(rec, case):
    sv, target, n = case
    fac = (HB * CC) ** 2 * CC
    x = sv if n == 0 else sv * np.arange(1, n + 1)
    rec.nontrivial(True)
    rec.tag(str(target))
    if target in ("cm^3/s", "cm^3 / s"):
        got, other = P.convert_sigmav(x, target), "MeV^-2"
        close(np.max(got), np.max(x) * fac, 1e-6, "MeV^-2 to cm^3/s")
    elif target == "MeV^-2":
        got, other = P.convert_sigmav(x, target), "cm^3/s"
        close(np.max(got), np.max(x) / fac, 1e-6, "cm^3/s to MeV^-2")
    else:
        try:
            r = P.convert_sigmav(x, target)
        except (ValueError, TypeError):
            return
        require(False, "convert_sigmav accepted the unit %r and returned %r" % (target, r))
    require(np.shape(got) == np.shape(x), "shape changed")
    back = P.convert_sigmav(got, other)
    require(np.allclose(back, x, rtol=1e-12, atol=0), "round trip %r -> %r" % (x, back))


THR = {   # spectrum kind -> {name: mass attribute}
    "photon": dict(muon="muon_mass", neutral_pion="neutral_pion_mass", charged_pion="charged_pion_mass", charged_kaon="charged_kaon_mass", long_kaon="long_kaon_mass",
                   short_kaon="short_kaon_mass", eta="eta_mass", eta_prime="eta_prime_mass", omega="omega_mass", charged_rho="rho_mass", neutral_rho="rho_mass", phi="phi_mass"),
    "positron": dict(muon="muon_mass", charged_pion="charged_pion_mass", charged_kaon="charged_kaon_mass", long_kaon="long_kaon_mass", short_kaon="short_kaon_mass", eta="eta_mass",
                     eta_prime="eta_prime_mass", omega="omega_mass", charged_rho="rho_mass", neutral_rho="rho_mass", phi="phi_mass"),
    "neutrino": dict(muon="muon_mass", charged_pion="charged_pion_mass", charged_kaon="charged_kaon_mass", long_kaon="long_kaon_mass", short_kaon="short_kaon_mass", eta="eta_mass",
                     eta_prime="eta_prime_mass", omega="omega_mass", charged_rho="rho_mass", phi="phi_mass")}


def _fn(kind, name):
    return getattr(spectra, "dnde_%s_%s" % (kind, name), None)


@oracle(st.sampled_from([(k, n) for k in sorted(THR) for n in sorted(THR[k]) if _fn(k, n) is not None]).flatmap(
    lambda kn: st.tuples(st.just(kn), fl(2e-3, 0.5), logfl(2e-3, 2.0))), quick=200, thorough=2000)
@labelled
def kernel_thresholds(rec, case):
    """A parent below its mass gives no particles; just above its mass it decays: the kernels use the public masses to a per mille."""
    (kind, name), below, above = case
    m = getattr(P, THR[kind][name])
    f = _fn(kind, name)
    e = np.geomspace(m * 2e-3, m * 0.6, 40)
    rec.nontrivial(True)
    rec.tag(kind + ":" + name)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        lo = np.asarray(f(e, m * (1 - below)), float)
        hi = np.asarray(f(e, m * (1 + above)), float)
    require(np.all(lo == 0.0), "dnde_%s_%s is non-zero for a parent of energy %.6g below its mass %.6g" % (kind, name, m * (1 - below), m))
    require(np.any(hi > 0.0), "dnde_%s_%s vanishes for a parent of energy %.6g above its mass %.6g" % (kind, name, m * (1 + above), m))


AREAS = ["adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi", "gecco", "grams", "grams_upgrade", "mast", "pangu"]
RES = {"adept": 0.3 / 2.3548200450309493, "comptel": 0.05 / 2.3548200450309493, "egret": 0.18 / 2.3548200450309493, "fermi": 0.075, "grams": 0.05, "grams_upgrade": 0.05,
       "pangu": 0.4, "amego": "amego", "all_sky_astrogam": "e_astrogam", "e_astrogam": "e_astrogam", "gecco": "gecco", "gecco_large": "gecco_large", "integral": "integral", "mast": "mast"}
_TAB = {}


def table(sub, name):
    k = sub, name
    if k not in _TAB:
        path = os.path.join(os.path.dirname(hazma.__file__), "gamma_ray_data", sub, name + ".dat")
        rows = [[float(v) for v in ln.split("#")[0].split(",")] for ln in open(path) if ln.split("#")[0].strip()]
        _TAB[k] = np.array(rows).T
    return _TAB[k]


@oracle(st.tuples(st.sampled_from(AREAS), st.lists(st.one_of(fl(-0.2, 1.2), st.sampled_from([0.0, 1.0])), min_size=1, max_size=8), st.booleans()), quick=500, thorough=8000)
@labelled
def effective_area(rec, case):
    name, us, scalar = case
    x, y = table("A_eff", name)
    f, alias = getattr(G, "effective_area_" + name), getattr(G, "A_eff_" + name)
    rec.tag(name)
    require(np.all(np.diff(x) > 0) and x[0] > 0, "energies of the effective area of %s are not ascending and positive" % name)
    require(np.all(y >= 0) and np.all(y < 1e6) and y.max() > 1.0, "effective area of %s out of range" % name)
    require(np.array_equal(f.x, x) and np.array_equal(alias.x, x), "energy grid attribute of effective_area_%s" % name)
    e = np.exp(np.log(x[0]) + np.array(us) * (np.log(x[-1]) - np.log(x[0])))
    e[np.array(us) == 0.0], e[np.array(us) == 1.0] = x[0], x[-1]
    if scalar:
        e = e[:1]
    ref = np.where((e < x[0]) | (e > x[-1]), 0.0, np.interp(e, x, y))
    got = np.atleast_1d(np.asarray(f(float(e[0]) if scalar else e), float))
    rec.nontrivial(bool(np.any(ref > 0)))
    require(np.allclose(got, ref, rtol=1e-12, atol=1e-9), "effective_area_%s(%r) = %r, table %r" % (name, e, got, ref))
    require(np.array_equal(np.atleast_1d(alias(e)), np.atleast_1d(f(e))), "A_eff_%s differs from effective_area_%s" % (name, name))


@oracle(st.tuples(st.sampled_from(sorted(RES)), st.lists(fl(0.0, 1.0), min_size=1, max_size=8), st.booleans()), quick=500, thorough=8000)
@labelled
def energy_resolution(rec, case):
    name, us, scalar = case
    f, ref = getattr(G, "energy_res_" + name), RES[name]
    grid = table("A_eff", name)[0] if name in AREAS else (np.array([0.2, 1e4]) if name == "gecco_large" else table("energy_res", name)[0])
    e = np.exp(np.log(grid[0]) + np.array(us) * (np.log(grid[-1]) - np.log(grid[0])))
    if scalar:
        e = e[:1]
    got = np.atleast_1d(np.asarray(f(float(e[0]) if scalar else e), float))
    rec.tag(name)
    rec.nontrivial(True)
    require(got.shape == e.shape, "shape of energy_res_%s" % name)
    require(np.all(np.isfinite(got)) and np.all(got > 0) and np.all(got <= 0.45), "energy_res_%s(%r) = %r is not a resolution" % (name, e, got))
    if isinstance(ref, float):
        require(np.allclose(got, ref, rtol=1e-9), "energy_res_%s = %r, reference %r" % (name, got, ref))
    else:
        x, y = table("energy_res", ref)
        require(np.all(np.diff(x) > 0) and np.all(y > 0), "resolution table of %s" % name)
        fac = 1 / 2.3548200450309493 if name == "gecco" else 1.0
        ins = (e >= x[0]) & (e <= x[-1])
        require(np.allclose(got[ins], fac * np.interp(e[ins], x, y), rtol=1e-9), "energy_res_%s(%r) = %r off its table" % (name, e, got))


OBS = ["comptel", "egret", "fermi", "integral"]


@oracle(st.tuples(st.sampled_from(OBS), st.integers(0, 60)), quick=200, thorough=2000)
@labelled
def measurements(rec, case):
    name, i = case
    o = getattr(G, name + "_diffuse")
    lo, hi, fl_, up, dn = table("obs", name + "_diffuse")
    i %= len(lo)
    rec.nontrivial(True)
    rec.tag(name)
    require(len(o.e_lows) == len(lo) and len(o.fluxes) == len(lo), "number of bins of %s" % name)
    require(o.e_lows[i] > 0 and o.e_highs[i] > o.e_lows[i], "bin %d of %s is empty or reversed" % (i, name))
    if i:
        close(o.e_lows[i], o.e_highs[i - 1], 1e-3, "bins %d and %d of %s do not join" % (i - 1, i, name))
    mid = 0.5 * (lo[i] + hi[i])
    close(o.e_lows[i], lo[i], 1e-12, "lower edge")
    close(o.e_highs[i], hi[i], 1e-12, "upper edge")
    close(o.fluxes[i], fl_[i] / mid ** 2, 1e-10, "flux of bin %d of %s" % (i, name))
    close(o.upper_errors[i], (up[i] - fl_[i]) / mid ** 2, 1e-8, "upper error of bin %d of %s" % (i, name), scale=fl_[i] / mid ** 2)
    close(o.lower_errors[i], (fl_[i] - dn[i]) / mid ** 2, 1e-8, "lower error of bin %d of %s" % (i, name), scale=fl_[i] / mid ** 2)
    require(o.fluxes[i] > 0 and o.upper_errors[i] > 0 and o.lower_errors[i] > 0, "flux and errors of bin %d of %s are not all positive" % (i, name))
    require(o.target is getattr(G, name + "_diffuse_target") or o.target.dOmega == getattr(G, name + "_diffuse_target").dOmega, "target of %s" % name)
    e = float(mid)
    close(float(o.energy_res(e)), float(getattr(G, "energy_res_" + name)(e)), 1e-12, "resolution attached to %s" % name)


@oracle(st.tuples(st.lists(st.tuples(logfl(1e-2, 10), logfl(1e-6, 1.0), fl(0.01, 0.9), fl(0.01, 0.9)), min_size=1, max_size=6), logfl(1e-2, 1e2), st.sampled_from([0, 1, 2, 3])),
        quick=200, thorough=3000)
@labelled
def measurement_units(rec, case):
    """FluxMeasurement built from E^p dPhi/dE data returns dPhi/dE and one-sided errors."""
    rows, e0, power = case
    edges = e0 * np.cumprod([1.0] + [1 + r[0] for r in rows])
    f, up, dn = (np.array(v) for v in zip(*[(r[1], r[1] * (1 + r[2]), r[1] * (1 - r[3])) for r in rows]))
    src = [a.copy() for a in (edges, f, up, dn)]
    o = FluxMeasurement(edges[:-1], edges[1:], f, up, dn, lambda e: 0.1, None, power=power)
    mid = 0.5 * (edges[:-1] + edges[1:])
    rec.nontrivial(power > 0)
    rec.tag("E^%d" % power)
    require(np.allclose(o.fluxes, src[1] / mid ** power, rtol=1e-12), "flux with power %d" % power)
    require(np.allclose(o.upper_errors, (src[2] - src[1]) / mid ** power, rtol=1e-9), "upper error with power %d" % power)
    require(np.allclose(o.lower_errors, (src[1] - src[3]) / mid ** power, rtol=1e-9), "lower error with power %d" % power)
    require(np.array_equal(f, src[1]) and np.array_equal(up, src[2]) and np.array_equal(dn, src[3]), "input arrays modified")


TGT = {   # published J [MeV^2 cm^-5 sr^-1], D [MeV cm^-2 sr^-1]
    ("gc_targets", "nfw", "1 arcmin cone"): (6.972e32, 4.84e26), ("gc_targets", "nfw", "5 deg cone"): (1.782e30, 1.597e26), ("gc_targets", "nfw", "10 deg cone"): (7.458e29, 1.214e26),
    ("gc_targets", "nfw", "10x10 deg box"): (2.879e30, 1.955e26), ("gc_targets", "ein", "1 arcmin cone"): (1.724e32, 5.413e26), ("gc_targets", "ein", "5 deg cone"): (4.442e30, 2.269e26),
    ("gc_targets", "ein", "10 deg cone"): (1.706e30, 1.615e26), ("gc_targets_optimistic", "nfw", "1 arcmin cone"): (1.415e33, 6.666e26),
    ("gc_targets_optimistic", "nfw", "5 deg cone"): (3.372e30, 2.058e26), ("gc_targets_optimistic", "nfw", "10 deg cone"): (1.355e30, 1.522e26),
    ("gc_targets_optimistic", "ein", "1 arcmin cone"): (5.987e34, 4.179e27), ("gc_targets_optimistic", "ein", "5 deg cone"): (4.965e31, 4.345e26),
    ("gc_targets_optimistic", "ein", "10 deg cone"): (1.404e31, 2.62e26), ("draco_targets", "nfw", "1 arcmin cone"): (3.418e30, 5.949e25), ("draco_targets", "nfw", "5 deg cone"): (8.058e26, 1.986e24),
    ("m31_targets", "nfw", "1 arcmin cone"): (7.116e29, 9.449e25), ("m31_targets", "nfw", "5 deg cone"): (2.639e26, 5.507e24),
    ("fornax_targets", "nfw", "1 arcmin cone"): (5.316e29, 2.898e26), ("fornax_targets", "nfw", "2 deg cone"): (2.558e26, 9.081e24)}
RADIUS = {"1 arcmin cone": 1 / 60, "2 deg cone": 2.0, "5 deg cone": 5.0, "10 deg cone": 10.0}
DIFFUSE = {"comptel": (1.433, 9.308e28, 4.866e25), "egret": (6.585, 6.265e27, 1.71e25), "fermi": (10.82, 8.475e27, 1.782e25), "integral": (0.5421, 2.086e29, 7.301e25)}


@oracle(st.sampled_from(sorted(TGT)), quick=120, thorough=600)
@labelled
def targets(rec, case):
    grp, prof, region = case
    d = getattr(G, grp)[prof]
    t = d[region]
    rec.nontrivial(True)
    rec.tag(grp)
    close(t.J, TGT[tuple(case)][0], 1e-3, "J factor of %r" % (case,))
    close(t.D, TGT[tuple(case)][1], 1e-3, "D factor of %r" % (case,))
    require(1e-5 <= t.vx <= 1e-2, "velocity dispersion %r of %r" % (t.vx, case))
    if region in RADIUS:
        close(t.dOmega, 2 * math.pi * (1 - math.cos(math.radians(RADIUS[region]))), 5e-3, "solid angle of %r" % (case,))
        for r2, t2 in d.items():
            if r2 in RADIUS and RADIUS[r2] > RADIUS[region]:
                require(t2.D < t.D and t2.J < t.J or prof == "ein" and grp == "gc_targets", "average J or D of %s grows from %s to %s" % (grp, region, r2))
                require(t2.D * t2.dOmega > t.D * t.dOmega, "integrated D of %s falls from %s to %s" % (grp, region, r2))
                require(t2.J * t2.dOmega >= t.J * t.dOmega, "integrated J of %s falls from %s to %s" % (grp, region, r2))
    if grp == "gc_targets":
        o = G.gc_targets_optimistic[prof][region]
        require(o.J >= t.J and o.D >= t.D and o.dOmega == t.dOmega, "optimistic target below the nominal one for %r" % (case,))


@oracle(st.tuples(st.sampled_from(sorted(DIFFUSE)), logfl(1e-3, 179.0)), quick=150, thorough=1500)
@labelled
def regions(rec, case):
    name, r = case
    om, j, dd = DIFFUSE[name]
    rec.nontrivial(True)
    rec.tag(name)
    got = G.solid_angle_cone(r)
    close(got, 2 * math.pi * (2 * math.sin(math.radians(r) / 2) ** 2), 1e-10, "solid_angle_cone(%r)" % r)
    d, o = getattr(G, name + "_diffuse_targets"), getattr(G, name + "_diffuse_targets_optimistic")
    single = getattr(G, name + "_diffuse_target")
    close(d["nfw"].J, j, 1e-3, "J of " + name)
    close(d["nfw"].D, dd, 1e-3, "D of " + name)
    for t in list(d.values()) + list(o.values()) + [single]:
        close(t.dOmega, om, 1e-3, "solid angle of " + name)
        require(t.J > 0 and t.D > 0 and t.dOmega < 4 * math.pi, "target of " + name)
    for p in d:
        require(o[p].J >= d[p].J and o[p].D >= d[p].D, "optimistic %s %s below nominal" % (name, p))


@oracle(st.tuples(st.sampled_from(["gc", "gecco", "default", "gecco_class", "gc_class"]), st.lists(fl(0.0, 1.0), min_size=1, max_size=6), st.booleans(),
                               st.tuples(logfl(1e-4, 1e-1), fl(0.5, 3.5), logfl(0.5, 20), fl(0.5, 3), logfl(1e-4, 1e-1), fl(1.5, 3.5))), quick=400, thorough=6000)
@labelled
def backgrounds(rec, case):
    kind, us, scalar, par = case
    rec.tag(kind)
    rec.nontrivial(True)
    if kind in ("gecco_class", "gc_class"):
        if kind == "gecco_class":
            cls, names = G.GeccoBackgroundModel, ["amplitude", "power_law_index"]
            p = dict(zip(names, par[:2]))

            def ref(e, p):
                return p["amplitude"] * e ** (-p["power_law_index"])
        else:
            cls = G.GalacticCenterBackgroundModel
            names = ["galactic_amplitude", "galactic_power_law_index", "galactic_exponential_cutoff", "galactic_exponential_index", "extra_galactic_amplitude", "extra_galactic_power_law_index"]
            p = dict(zip(names, par))

            def ref(e, p):
                return (p["galactic_amplitude"] * e ** (-p["galactic_power_law_index"]) * np.exp(-(e / p["galactic_exponential_cutoff"]) ** p["galactic_exponential_index"])
                        + p["extra_galactic_amplitude"] * e ** (-p["extra_galactic_power_law_index"]))
        b = cls(**p)
        lo, hi = b.energy_bounds if not callable(b.energy_bounds) else b.energy_bounds()
        require(0 < lo < hi, "energy bounds")
        e = np.exp(np.log(lo) + np.array(us) * (np.log(hi) - np.log(lo)))
        require(np.allclose(b.dPhi_dEdOmega(e), ref(e, p), rtol=1e-10), "%s background" % kind)
        require(b.params == p, "parameters of %s: %r" % (kind, b.params))
        dv = b.derivatives(e)
        require(sorted(dv) == sorted(names), "derivative keys %r" % sorted(dv))
        for n in names:
            h = 1e-5 * abs(p[n])
            num = (ref(e, {**p, n: p[n] + h}) - ref(e, {**p, n: p[n] - h})) / (2 * h)
            tol = 1e-5 * np.abs(num) + 1e-9 * ref(e, p) / abs(p[n])
            require(np.all(np.abs(dv[n] - num) <= tol), "derivative of the %s background with respect to %s: %r, finite differences %r" % (kind, n, dv[n], num))
        return
    if kind == "gc":
        x, y = table("bg_model", "gc")
        b, lo, hi = G.gc_bg_model, x[0], x[-1]
        require(np.all(np.diff(x) > 0) and np.all(y > 0), "gc background table")

        def ref(e):
            return np.interp(e, x, y)
    elif kind == "gecco":
        b, lo, hi = G.gecco_bg_model, 0.2, 4e3

        def ref(e):
            return 2 * 4e-3 / e ** 2
    else:
        b, lo, hi = G.default_bg_model, 1e-2, 10e3

        def ref(e):
            return 2.74e-3 / e ** 2
    e = np.clip(np.exp(np.log(lo) + np.array(us) * (np.log(hi) - np.log(lo))), lo, hi)
    require(b.e_range[0] <= lo * (1 + 1e-9) and abs(b.e_range[1] - hi) <= 1e-9 * hi, "energy range of %s: %r" % (kind, b.e_range))
    with warnings.catch_warnings():
        warnings.simplefilter("error")       # inside the range there must be no complaint
        got = np.atleast_1d(np.asarray(b.dPhi_dEdOmega(float(e[0]) if scalar else e), float))
    require(np.allclose(got, ref(e[:1] if scalar else e), rtol=1e-10) and np.all(got > 0), "%s background at %r is %r" % (kind, e, got))
    if kind != "gc":
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            b.dPhi_dEdOmega(hi * 1.01)
        require(len(w) == 1, "no warning outside the background's range")
