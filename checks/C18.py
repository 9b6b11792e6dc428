"""Generated annihilating and decaying theories (channels with generated rates, spectra and lines), the scalar and vector mediator models
at generated points, right-handed neutrinos, GeV vectors and single-channel models.  Oracle: rates, branching fractions, lines and
branching-weighted sums recomputed from the channels; totals are the sum of what the channels' own functions return, closed channels
contribute nothing, fractions sum to one.  Non-trivial: at least one open channel; classes name the model and the open channels."""
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg, finding
from checks.common import st, fl, logfl
from checks import stubs as M
from checks import models as D

ASSUMPTIONS = ["the channel spectra themselves are decided by C08-C12, C16, C17, C21 and C26"]


def energies(us, top):
    return np.array([top * (10 ** (-3 * u)) for u in us])


US = st.lists(fl(-0.2, 1), min_size=1, max_size=5)


def check_lines(got, ref, what):
    require(set(got) == set(ref), "%s: channels %s, expected %s", what, sorted(got), sorted(ref))
    for k, (e, b) in ref.items():
        close(got[k]["energy"], e, 1e-12, "%s of %s: energy" % (what, k))
        close(got[k]["bf"], b, 1e-12, "%s of %s: branching fraction" % (what, k), scale=1e-300)


@oracle(st.tuples(M.channels(6), st.booleans(), fl(1.9, 2.6), US, logfl(1e-8, 1e8)), quick=800)
def generated(case):
    d, dec, x, us, factor = case
    mod = M.Dec(d, factor) if dec else M.Ann(d, factor)
    q = d["mx"] * x
    a = () if dec else (q,)
    e_cm = None if dec else q
    r, bf, tot = M.rates(mod, e_cm)
    if not dec:
        got = cut(mod.annihilation_cross_sections, q)
        bfs = cut(mod.annihilation_branching_fractions, q)
    else:
        got, bfs = cut(mod.decay_widths), cut(mod.decay_branching_fractions)
    require(set(got) == set(r) | {"total"}, "rates for %s", sorted(got))
    require(set(bfs) == set(r), "branching fractions for %s", sorted(bfs))
    for n in r:
        close(got[n], r[n], 1e-12, "rate of " + n)
        close(bfs[n], bf[n], 1e-12, "branching fraction of " + n)
    close(got["total"], tot, 1e-12, "total rate")
    require(tot == 0 or abs(sum(bfs.values()) - 1) < 1e-12, "branching fractions sum to %r", sum(bfs.values()))
    top = (d["mx"] if dec else q) / 2
    es = energies(us, top)
    for key, spec, funcs, total, lines in (("photon", "spectra", "spectrum_funcs", "total_spectrum", "gamma_ray_lines"),
                                           ("positron", "positron_spectra", "positron_spectrum_funcs", "total_positron_spectrum", "positron_lines")):
        s = cut(getattr(mod, spec), es, *a)
        require(set(s) == set(r) | {"total"}, "%s for %s", spec, sorted(s))
        ref = np.zeros(len(es))
        F = cut(getattr(mod, funcs))
        for n, c in d["chans"].items():
            one = M.shape_fn(c[key], top)(es) if c[key] else np.zeros(len(es))
            f = cut(F[n], es, *a)
            close(f, one if r[n] > 0 else 0 * one, 1e-12, "%s of %s" % (funcs, n))
            close(s[n], bf[n] * one, 1e-12, "%s of %s" % (spec, n))
            ref = ref + bf[n] * one
        close(s["total"], ref, 1e-12, spec + " total", scale=1e-14 * (ref.max() + 1e-300))
        t = cut(getattr(mod, total), es, *a)
        require(np.shape(t) == es.shape, "%s of shape %s", total, np.shape(t))
        close(t, ref, 1e-12, total, scale=1e-14 * (ref.max() + 1e-300))
        for i, e in enumerate(es):
            close(np.ravel(cut(getattr(mod, total), float(e), *a)), [ref[i]], 1e-12, total + " at one energy", scale=1e-14 * (ref.max() + 1e-300))
        lk = "gline" if key == "photon" else "eline"
        check_lines(cut(getattr(mod, lines), *a), {n: (c[lk] * top, bf[n]) for n, c in d["chans"].items() if c[lk]}, lines)
    return ["%s, %d open of %d" % ("decay" if dec else "annihilation", sum(v > 0 for v in r.values()), len(r))]


PHOTON = {"s": {"mu mu": "dnde_mumu", "e e": "dnde_ee", "pi0 pi0": "dnde_pi0pi0", "pi pi": "dnde_pipi", "s s": "dnde_ss", "g g": None},
          "v": {"mu mu": "dnde_mumu", "e e": "dnde_ee", "pi pi": "dnde_pipi", "pi0 g": "dnde_pi0g", "pi0 v": "dnde_pi0v", "v v": "dnde_vv"}}
POSITRON = {"s": {"mu mu": "dnde_pos_mumu", "pi pi": "dnde_pos_pipi", "s s": "dnde_pos_ss", "e e": None, "g g": None, "pi0 pi0": None},
            "v": {"mu mu": "dnde_pos_mumu", "pi pi": "dnde_pos_pipi", "v v": "dnde_pos_vv", "e e": None, "pi0 g": None, "pi0 v": "dnde_pos_pi0v"}}
SIGMA = {"s": {"mu mu": lambda m, q: m.sigma_xx_to_s_to_ff(q, "mu"), "e e": lambda m, q: m.sigma_xx_to_s_to_ff(q, "e"), "g g": lambda m, q: m.sigma_xx_to_s_to_gg(q),
               "pi0 pi0": lambda m, q: m.sigma_xx_to_s_to_pi0pi0(q), "pi pi": lambda m, q: m.sigma_xx_to_s_to_pipi(q), "s s": lambda m, q: m.sigma_xx_to_ss(q)},
         "v": {"mu mu": lambda m, q: m.sigma_xx_to_v_to_ff(q, "mu"), "e e": lambda m, q: m.sigma_xx_to_v_to_ff(q, "e"), "pi pi": lambda m, q: m.sigma_xx_to_v_to_pipi(q),
               "pi0 g": lambda m, q: m.sigma_xx_to_v_to_pi0g(q), "pi0 v": lambda m, q: m.sigma_xx_to_v_to_pi0v(q), "v v": lambda m, q: m.sigma_xx_to_vv(q)}}
MPI0 = 134.9768


@oracle(st.tuples(D.points(D.SCALAR + D.VECTOR), D.XCM, US, st.booleans()), quick=400, thorough=4000)
def mediator(case):
    d, x, us, below = case
    k = "s" if d["cls"] in D.SCALAR else "v"
    m = D.build(d)
    q = D.ecm(d, x)
    if below:
        q = d["kw"]["mx"] * 2 * (1 - min(x, 0.5) / 2)
    ref = {n: float(f(m, q)) for n, f in SIGMA[k].items()}
    got = cut(m.annihilation_cross_sections, q)
    require(set(got) == set(ref) | {"total"}, "cross sections for %s", sorted(got))
    for n in ref:
        require(got[n] == ref[n] or abs(got[n] - ref[n]) <= 1e-12 * abs(ref[n]), "cross section into %s: %r, its own function gives %r", n, got[n], ref[n])
        require(np.isfinite(ref[n]) and ref[n] >= 0, "cross section into %s is %r", n, ref[n])
    tot = sum(ref.values())
    close(got["total"], tot, 1e-12, "total cross section")
    require(set(m.list_annihilation_final_states()) <= set(ref), "listed states %s", m.list_annihilation_final_states())
    for n in set(ref) - set(m.list_annihilation_final_states()):
        require(ref[n] == 0, "unlisted state %s is open", n)
    bf = cut(m.annihilation_branching_fractions, q)
    require(set(bf) == set(ref), "branching fractions for %s", sorted(bf))
    for n in ref:
        close(bf[n], ref[n] / tot if tot else 0.0, 1e-12, "branching fraction of " + n, scale=1e-300)
        require(0 <= bf[n] <= 1 + 1e-12, "branching fraction %r", bf[n])
    if below:
        require(tot == 0, "annihilation below threshold")
    es = energies(us, q / 2)
    for table, spec, total, pre in ((PHOTON, "spectra", "total_spectrum", "photon"), (POSITRON, "positron_spectra", "total_positron_spectrum", "positron")):
        s = cut(getattr(m, spec), es, q)
        t = cut(getattr(m, total), es, q)
        refs = np.zeros(len(es))
        sc = np.zeros(len(es))
        for n, fn in table[k].items():
            if fn is None or bf[n] == 0:
                continue
            if not hasattr(m, fn):
                require(False, "no %s spectrum for open channel %s", pre, n)
            f = np.asarray(cut(getattr(m, fn), es, q), float)
            refs = refs + bf[n] * f
            sc = sc + np.abs(bf[n] * f)
            require(n in s, "channel %s missing from the %s spectra", n, pre)
            close(s[n], bf[n] * f, 1e-10, "%s spectrum of %s" % (pre, n), scale=1e-300)
        for n in s:
            if n != "total" and (bf[n] == 0 or table[k][n] is None):
                require(np.all(np.asarray(s[n]) == 0), "closed channel %s contributes", n)
        close(s["total"], refs, 1e-10, "%s spectra total" % pre, scale=1e-12 * (sc.max() if len(sc) else 0) + 1e-300)
        close(t, s["total"], 1e-12, total, scale=1e-300)
        one = cut(getattr(m, total), float(es[0]), q)
        close(np.ravel(one)[0], t[0], 1e-12, total + " at one energy", scale=1e-300)
    if k == "s":
        check_lines(cut(m.gamma_ray_lines, q), {"g g": (q / 2, bf["g g"])}, "photon lines")
    else:
        check_lines(cut(m.gamma_ray_lines, q), {"pi0 g": ((q * q - MPI0 ** 2) / (2 * q), bf["pi0 g"])}, "photon lines")
    check_lines(cut(m.positron_lines, q), {"e e": (q / 2, bf["e e"])}, "positron lines")
    if tot == 0:
        return None if not below else "below threshold"
    return [d["cls"]] + [n for n in bf if bf[n] > 0]


@oracle(st.tuples(D.points(["RHNeutrino"]), US, st.booleans()), quick=40, thorough=400)
def rh_neutrino(case):
    d, us, pos = case
    m = D.build(d)
    mx = d["kw"]["mx"]
    w = cut(m.decay_widths)
    bf = cut(m.decay_branching_fractions)
    require(set(bf) == set(m.list_decay_final_states()), "channels %s", sorted(bf))
    parts = {n: v for n, v in w.items() if n != "total"}
    close(w["total"], sum(parts.values()), 1e-12, "total width")
    require(all(np.isfinite(v) and v >= 0 for v in parts.values()), "widths %s", parts)
    for n in bf:
        close(bf[n], parts[n] / w["total"], 1e-12, "branching fraction of " + n)
    close(sum(bf.values()), 1.0, 1e-12, "sum of branching fractions")
    es = energies(us, mx / 2)
    F = cut(m.positron_spectrum_funcs if pos else m.spectrum_funcs)
    require(set(F) == set(bf), "spectrum functions for %s", sorted(F))
    ref = np.zeros(len(es))
    for n in F:
        f = np.asarray(cut(F[n], es), float)
        finite_nonneg(f, "%s spectrum of %s" % ("positron" if pos else "photon", n), 1e-12)
        if bf[n] == 0:
            require(np.all(f == 0), "closed channel %s has a spectrum", n)
        ref = ref + bf[n] * f
    t = cut(m.total_positron_spectrum if pos else m.total_spectrum, es)
    close(t, ref, 1e-9, "total spectrum", scale=1e-12 * ref.max() + 1e-300)
    for fn in (m.gamma_ray_lines, m.positron_lines):
        for n, l in cut(fn).items():
            require(n in bf, "line of unknown channel %s", n)
            close(l["bf"], bf[n], 1e-12, "branching fraction of the line of " + n)
            require(bf[n] == 0 or 0 <= l["energy"] <= mx / 2 * (1 + 1e-9) + 1, "line energy %r", l["energy"])
    return [d["kw"]["flavor"], "positron" if pos else "photon"]


KINDS = (("photon", ()), ("positron", ()), ("neutrino", ("e",)), ("neutrino", ("mu",)), ("neutrino", ("tau",)))


@oracle(st.tuples(st.one_of(D.points(D.GEV, mx=logfl(1, 203), mv=logfl(1, 300)), D.points(D.GEV, mx=logfl(60, 203), mv=logfl(1, 1500))), D.XCM, US), quick=70, thorough=700)
def gev(case):
    """below the three-pion threshold: deterministic, every kind of product"""
    d, x, us = case
    return gev_sum(d, min(D.ecm(d, x), 409.0), us, KINDS)


@oracle(st.tuples(D.points(D.GEV, mx=logfl(205, 480), mv=logfl(1, 600)), D.XCM, US, st.sampled_from(KINDS)), quick=8, thorough=120)
def gev_hadronic(case):
    """multi-pion final states, sampled by the package"""
    d, x, us, kind = case
    return gev_sum(d, min(D.ecm(d, x), 1000.0), us, (kind,))


def gev_sum(d, q, us, kinds):
    m = D.build(d)
    F = cut(m.annihilation_cross_section_funcs)
    got = cut(m.annihilation_cross_sections, q)
    require(set(got) == set(F) | {"total"}, "cross sections %s", sorted(got))
    tot = sum(v for n, v in got.items() if n != "total")
    close(got["total"], tot, 1e-12, "total")
    require(all(np.isfinite(v) and v >= 0 for v in got.values()), "cross sections %s", got)
    bf = cut(m.annihilation_branching_fractions, q)
    for n in bf:
        close(bf[n], got[n] / tot if tot else 0, 2e-2, "branching fraction of " + n, scale=1e-6)
    require(tot == 0 or abs(sum(bf.values()) - 1) < 1e-9, "sum of branching fractions %r", sum(bf.values()))
    # four-pion rates and three-body distributions are sampled: below three pions everything is deterministic
    exact = q < 410
    es = energies(us, q / 2)
    np.random.seed(7)
    for kind, flavor in kinds:
        spec = {"photon": "spectra", "positron": "positron_spectra", "neutrino": "neutrino_spectra"}[kind]
        specs = cut(getattr(m, spec), es, q, *flavor)
        sc = sum(np.abs(np.asarray(v, float)) for n, v in specs.items() if n != "total")
        close(specs["total"], sum(np.asarray(v, float) for n, v in specs.items() if n != "total"), 1e-9, kind + " total", scale=1e-12 * np.max(sc) + 1e-300)
        t = np.asarray(cut(getattr(m, {"photon": "total_spectrum", "positron": "total_positron_spectrum", "neutrino": "total_neutrino_spectrum"}[kind]), es, q, *flavor), float)
        require(t.shape == es.shape, "%s total of shape %s", kind, t.shape)
        close(t, specs["total"], 1e-9 if exact else 0.1, kind + " total spectrum", scale=(1e-12 if exact else 0.05) * np.max(sc) + 1e-300)
        F = cut(m.spectrum_funcs) if kind == "photon" else cut(m.positron_spectrum_funcs) if kind == "positron" else cut(m.neutrino_spectrum_funcs, *flavor)
        require(set(F) <= set(specs) and all(bf.get(n, 0) == 0 or n in F for n in got if n != "total"), "%s spectra of %s", kind, sorted(F))
        for n, f in F.items():
            one = np.asarray(cut(f, es, q), float)
            require(bf[n] > 0 or np.all(one == 0), "closed channel %s has a %s spectrum", n, kind)
            close(specs[n], bf[n] * one, 1e-9 if exact else 0.05, "%s spectrum of %s" % (kind, n), scale=(1e-12 if exact else 0.02) * np.max(sc) + 1e-300)
    for n in bf:
        if exact:
            close(bf[n], got[n] / tot if tot else 0, 1e-12, "branching fraction of " + n, scale=1e-300)
    for f, n in (("e", "ve ve"), ("mu", "vm vm"), ("tau", "vt vt")) if q < 400 else ():
        check_lines(cut(m.neutrino_lines, q, f), {n: (q / 2, bf[n])}, "neutrino lines")
    if bf.get("pi0 gamma", 0) or True:
        check_lines(cut(m.positron_lines, q), {"e e": (q / 2, cut(m.annihilation_branching_fractions, q)["e e"])}, "positron lines") if q < 400 else None
        L = cut(m.gamma_ray_lines, q)
        for n, mass in (("pi0 gamma", MPI0), ("eta gamma", 547.862)):
            close(L[n]["energy"], (q * q - mass ** 2) / (2 * q), 1e-9, "line energy of " + n)
    return [d["cls"]] + [n for n in bf if bf[n] > 1e-6]


FS = ["e e", "mu mu", "pi pi", "pi0 pi0", "k k", "pi0 eta", "pi pi pi0", "mu e", "e pi", "eta phi", "ve ve", "rho pi"]


@oracle(st.tuples(st.sampled_from(FS), logfl(1, 2000), logfl(1e-30, 1), D.XCM, US, st.booleans()), quick=150, thorough=1500)
def single(case):
    fs, mx, rate, x, us, dec = case
    m = D.CLS["SingleChannelDec" if dec else "SingleChannelAnn"](mx, fs, rate)
    q = mx if dec else 2 * mx * (1 + x)
    a = () if dec else (q,)
    if q < m.fs_mass:
        if dec:
            return None
        require(cut(m.annihilation_cross_sections, q)["total"] == 0, "cross section below threshold")
        require(np.all(np.asarray(cut(m.total_spectrum, energies(us, q / 2), q)) == 0), "spectrum below threshold")
        return "below threshold"
    bf = cut(m.decay_branching_fractions) if dec else cut(m.annihilation_branching_fractions, q)
    require(bf == {fs: 1.0}, "branching fractions %s", bf)
    es = energies(us, q / 2)
    for F, tot in ((m.spectrum_funcs, m.total_spectrum), (m.positron_spectrum_funcs, m.total_positron_spectrum)):
        f = np.asarray(cut(cut(F)[fs], es, *a), float)
        close(cut(tot, es, *a), f, 1e-10, "total spectrum", scale=1e-12 * f.max() + 1e-300)
    for fn in (m.gamma_ray_lines, m.positron_lines):
        for n, l in cut(fn, *a).items():
            require(n == fs and l["bf"] == 1.0 and np.isscalar(l["energy"]), "line %s: %s", n, l)
    return fs
