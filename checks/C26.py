"""Single-channel annihilation and decay models for every pair and triple of supported states, and black-hole models at every table mass:
histories of setter calls compared with the definition (reference model), lines from two-body kinematics, an independent reading of the
black-hole tables.  Non-trivial: a non-zero spectrum or a line."""
import csv
import os
import hazma
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg, finding
from checks.common import st, fl, logfl
from hazma import spectra as S
from hazma.parameters import standard_model_masses as SM, g_to_MeV
from hazma.single_channel import SingleChannelAnn, SingleChannelDec
from hazma.pbh import PBH

ASSUMPTIONS = ["many-particle spectra themselves are decided by C11; here the model must pass its own energy, states and nothing else",
               "a decay model is used above its threshold (below it the spectrum functions reject the energy)"]
STATES = ["e", "mu", "pi", "pi0", "g", "ve", "vm", "vt", "k", "kl", "ks", "eta", "etap", "rho", "rho0", "omega", "phi"]
MASS = {"e": .5109989461, "mu": 105.6583745, "pi": 139.57039, "pi0": 134.9768, "g": 0., "ve": 0., "vm": 0., "vt": 0., "k": 493.677, "kl": 497.611, "ks": 497.611,
        "eta": 547.862, "etap": 957.78, "rho": 775.26, "rho0": 775.26, "omega": 782.66, "phi": 1019.461}
PAIR = st.one_of(st.lists(st.sampled_from(STATES), min_size=2, max_size=2), st.lists(st.sampled_from(["e", "mu", "pi", "pi0", "g", "k", "eta"]), min_size=2, max_size=2))
TRIPLE = st.lists(st.sampled_from(["e", "mu", "pi", "pi0", "ve", "vm", "k"]), min_size=3, max_size=3)
FS = st.one_of(PAIR, PAIR, PAIR, TRIPLE)
ES = st.lists(fl(0, 1.2), min_size=1, max_size=5)
OPS = st.lists(st.one_of(st.tuples(st.just("mx"), logfl(1e-3, 3)), st.tuples(st.just("fs"), PAIR), st.tuples(st.just("rate"), logfl(1e-9, 10)), st.tuples(st.just("read"), st.just(0))), max_size=3)


def lines_of(fs, M, kind):
    """{energy} of the monochromatic particle of a pair, from energy-momentum conservation"""
    if len(fs) != 2 or kind not in fs:
        return {}
    i = fs.index(kind)
    m, o = MASS[fs[i]], MASS[fs[1 - i]]
    return {" ".join(fs): (M * M + m * m - o * o) / (2 * M)}


def thr(fs):
    return sum(MASS[s] for s in fs)


def look(m, ann, fs, mx, rate, x, us):
    name = " ".join(fs)
    require(m.fs == name and m.mx == mx, "fs/mx attributes")
    close(m.fs_mass, thr(fs), 1e-9, "fs_mass")
    M = 2 * mx * (1 + x) if ann else mx
    is_open = M > thr(fs) and (not ann or M >= 2 * mx)
    e = np.array([max(u, 1e-6) * M / 2 for u in us])
    cm = (M,) if ann else ()
    if ann:
        require(list(m.list_annihilation_final_states()) == [name], "final states")
        cs = cut(m.annihilation_cross_sections, M)
        close([cs[name], cs["total"]], [rate * is_open] * 2, 1e-13, "cross section")
        require(set(cs) == {name, "total"}, "cross sections %r", sorted(cs))
        below = 2 * mx * (1 - 1e-6)
        require(cut(m.annihilation_cross_sections, below)[name] == 0, "cross section below 2 mx")
        bf = cut(m.annihilation_branching_fractions, M)
        require(set(bf) == {name}, "branching fractions %r", bf)
        close(bf[name], 1.0 if is_open else 0.0, 1e-13, "branching fraction")
    else:
        require(list(m.list_decay_final_states()) == [name], "final states")
        w = cut(m.decay_widths)
        close([w[name], w["total"]], [rate] * 2, 1e-13, "width")
        close(cut(m.decay_branching_fractions)[name], 1.0, 1e-13, "branching fraction")
        if not is_open:
            return False
    some = False
    for f, g, what in ((m.spectra, m.total_spectrum, "photon"), (m.positron_spectra, m.total_positron_spectrum, "positron")):
        ref = np.zeros(len(e)) if not is_open else (S.dnde_photon if what == "photon" else S.dnde_positron)(e, M, final_states=list(fs))
        sp = cut(f, e, *cm)
        require(set(sp) == {name, "total"}, "%s spectra %r", what, sorted(sp))
        close(sp[name], ref, 1e-12, what + " spectrum of " + name)
        close(sp["total"], ref, 1e-12, what + " spectrum of " + name)
        close(cut(g, e, *cm), ref, 1e-12, "total " + what + " spectrum of " + name)
        some = some or bool(np.any(ref > 0))
    for f, k in ((m.gamma_ray_lines, "g"), (m.positron_lines, "e")):
        got = cut(f, *cm)
        ref = lines_of(fs, M, k)
        require(set(got) == set(ref), "%s lines %r of %s", k, got, name)
        for n, v in ref.items():
            if is_open:
                close(got[n]["energy"], v, 1e-9, "line energy of %s" % name)
                close(got[n]["bf"], 1.0, 1e-13, "line fraction of %s" % name)
                some = True
            else:
                close(got[n]["bf"], 0.0, 0, "line fraction of the closed channel %s" % name)
    return some


@oracle(st.tuples(st.booleans(), FS, logfl(.3, 2000), logfl(1e-9, 10), logfl(1e-6, 2), ES, OPS), quick=500, thorough=6000)
def single(case):
    ann, fs, mx, rate, x, us, ops = case
    if not ann:
        mx = max(mx, thr(fs) * (1 + x), .01)
    elif len(fs) == 3:
        mx = max(mx, thr(fs) / 2 * (1 + x))
    m = SingleChannelAnn(mx, " ".join(fs), rate) if ann else SingleChannelDec(mx, " ".join(fs), rate)
    some = look(m, ann, fs, mx, rate, x, us)
    for k, v in ops:
        if k == "mx":
            mx = (thr(fs) if not ann else 10.0) * (1 + v) + 1.0
            m.mx = mx
        elif k == "fs":
            fs = v
            m.fs = " ".join(v)
            if not ann:
                mx = max(mx, thr(fs) * (1 + x), .01)
                m.mx = mx
        elif k == "rate":
            rate = v
            setattr(m, "sigma" if ann else "width", v)
        else:
            look(m, ann, fs, mx, rate, x, us)
    some = look(m, ann, fs, mx, rate, x, us) or some
    return ("ann:%d" if ann else "dec:%d") % len(fs) if some else None


@oracle(st.tuples(st.booleans(), st.lists(st.one_of(st.sampled_from(STATES), st.text("abcdegmuvpi0123", min_size=1, max_size=4)), min_size=1, max_size=4), st.booleans()), quick=300)
def names(case):
    ann, fs, late = case
    known = all(s in SM for s in fs)
    C = SingleChannelAnn if ann else SingleChannelDec
    try:
        if late:
            m = C(5000., "e e", 1.0)
            m.fs = " ".join(fs)
        else:
            m = C(5000., " ".join(fs), 1.0)
    except (KeyError, ValueError):
        require(not known, "final state %r rejected", fs)
        if late:
            require(m.fs == "e e" and set(cut(m.positron_lines, *((10001.,) if ann else ()))) == {"e e"}, "rejected final state %r changed the model to %r", fs, m.fs)
            close(m.fs_mass, 2 * MASS["e"], 1e-9, "mass after a rejected final state")
        return "rejected"
    require(known, "unknown final state %r accepted", fs)
    return None


@finding("photon-alias-lines")
def _alias():
    return all(len(SingleChannelAnn(400., n, 1.).gamma_ray_lines(801.)) == 0 for n in ("a a", "photon photon", "pi0 a")) and SM["a"] == 0


@finding("spectrumless-states")
def _silent():
    return bool(np.all(SingleChannelAnn(8000., "b b", 1.0).total_spectrum(np.array([10., 1000.]), 16001.) == 0) and np.all(S.dnde_photon(np.array([10.]), 4000., ["tau", "tau"]) == 0))


# ------------------------------------------------------------------ black holes
G2MEV = 1 / 1.782661e-27          # MeV per gram
FILES = {("primary", False): "pbh_primary_spectra_bh.csv", ("primary", True): "pbh_primary_spectra_bh.csv", ("secondary", True): "pbh_secondary_spectra_bh.csv",
         ("secondary", False): "pbh_secondary_spectra.csv"}
_TAB = {}


def table(kind):
    if kind not in _TAB:
        with open(os.path.join(os.path.dirname(hazma.__file__), "pbh_data", FILES[kind])) as f:
            rows = list(csv.reader(f))

        def num(s):
            a, b = s.split("e") if "e" in s and "." in s.split("e")[1] else (s, "0")
            return float(a) * 10 ** float(b)
        head = [num(s) for s in rows[0][2:]]
        d = np.array([[float(x) for x in r[1:]] for r in rows[1:]])
        _TAB[kind] = np.array(head), d[:, 0] * 1e3, d[:, 1:] * 1e-3        # grams, MeV, 1/MeV/s
    return _TAB[kind]


@oracle(st.tuples(st.sampled_from(["primary", "secondary"]), st.booleans(), st.lists(fl(0, 1), min_size=1, max_size=3), logfl(1e-6, 10),
                  st.lists(st.tuples(fl(0, 1), st.sampled_from(["node", "log", "below", "above"])), min_size=1, max_size=6)), quick=150)
def black_holes(case):
    kind, bh, ms, f, us = case
    grams, E, T = table((kind, bh))
    idx = [min(int(u * len(grams)), len(grams) - 1) for u in ms]
    masses = grams * g_to_MeV         # the table masses, to the last digit, as a caller has to give them
    close(masses, grams * G2MEV, 1e-6, "grams in MeV")
    m = cut(PBH, float(masses[idx[0]]), f, kind, bh)
    e = np.array([E[min(int(u * len(E)), len(E) - 1)] if k == "node" else float(E[0] * (E[-1] / E[0]) ** u) if k == "log" else E[0] * (.999 - .9 * u) if k == "below" else E[-1] * (1.001 + u) for u, k in us])
    some = False
    for i in idx:
        m.mx = float(masses[i])
        require(m.mx == float(masses[i]), "mx")
        ref = np.interp(e, E, T[:, i], left=0.0, right=0.0)
        sp = cut(m.spectra, e)
        require(set(sp) == {"all", "total"}, "spectra %r", sorted(sp))
        close(sp["all"], ref, 1e-9, "black-hole spectrum")
        close(cut(m.total_spectrum, e), ref, 1e-9, "black-hole spectrum")
        close(cut(m.total_spectrum, float(e[0])), ref[0], 1e-9, "black-hole spectrum at one energy")
        finite_nonneg(sp["all"], "black-hole spectrum")
        some = some or np.any(ref > 0)
    close(cut(m.decay_widths)["total"], f, 1e-14, "rate")
    require(cut(m.decay_branching_fractions) == {"all": 1.0}, "branching fraction")
    require(cut(m.gamma_ray_lines) == {} and list(m.list_decay_final_states()) == ["all"], "lines or final states")
    # unlisted masses and kinds are rejected and leave the model as it was
    old = m.mx
    for bad in (old * 1.0001, 1.0, -old):
        try:
            m.mx = bad
        except Exception:
            pass
        else:
            require(bad in masses, "a mass outside the table is accepted")
        require(m.mx == old, "rejected mass %r changed the model's mass", bad)
        close(cut(m.total_spectrum, e), ref, 1e-9, "spectrum after a rejected mass")
    for k, v in (("spectrum_kind", "primary"), ("bh_secondary", True)):
        try:
            setattr(m, k, v)
        except Exception:
            pass
        else:
            require(False, "%s can be changed", k)
    try:
        PBH(old, 1, "tertiary")
    except ValueError:
        pass
    else:
        require(False, "unknown spectrum kind accepted")
    return kind if some else None
