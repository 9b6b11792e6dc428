"""Generated dark-matter models: TheoryAnn / TheoryDec subclasses whose channels, spectra and lines are data."""
import numpy as np
from checks.common import st, fl, logfl
from hazma.theory import TheoryAnn, TheoryDec


def shape_fn(sh, emax):
    """Smooth continuum (amplitude, kind, slope): a spectrum in e, elementwise, zero at and beyond emax."""
    amp, kind, slope = sh

    def f(e):
        e = np.asarray(e, float)
        x = e / emax
        with np.errstate(all="ignore"):
            if kind == "power":
                y = x ** (-slope) * np.where(x < 1, (1 - x) ** 2, 0)
            elif kind == "bump":
                y = np.exp(-0.5 * ((x - 0.4) / 0.15) ** 2) * np.where(x < 1, (1 - x), 0)
            elif kind == "poly":
                y = x ** 2 * np.where(x < 1, (3 - 2 * x - x * x), 0)
            else:
                y = np.exp(-x * 5 * slope) * np.where(x < 1, 1 - x, 0)
        return amp * y / emax
    return f


SHAPE = st.tuples(logfl(0.1, 10), st.sampled_from(["power", "bump", "poly", "exp"]), fl(0.5, 1.5))


@st.composite
def channels(draw, nmax=4, mx=None):
    """names with line conventions: 'g g' two photons at E, 'pi0 g' one, 'e e' one positron (+ electron)."""
    mx = draw(logfl(1.0, 500.0)) if mx is None else draw(mx)
    names = draw(st.permutations(["e e", "g g", "pi0 g", "mu mu", "pi pi", "v v"]))[:draw(st.integers(1, nmax))]
    chans = {}
    for n in names:
        chans[n] = dict(rate=draw(st.one_of(logfl(1e-3, 1.0), st.just(0.0))) if len(chans) else draw(logfl(1e-3, 1)), pwave=draw(st.booleans()),
                        photon=draw(st.one_of(st.none(), SHAPE, SHAPE)), positron=draw(st.one_of(st.none(), SHAPE)),
                        gline=draw(fl(0.1, 1)) if n in ("pi0 g",) else 1.0 if n == "g g" else None, eline=1.0 if n == "e e" else None)
    return dict(mx=mx, chans=chans)


def zero(e):
    return np.zeros_like(np.asarray(e, float))


class Ann(TheoryAnn):
    def __init__(self, d, factor=1.0):
        self.mx, self.d, self.factor = d["mx"], d["chans"], factor

    @staticmethod
    def list_annihilation_final_states():
        return ["e e", "g g", "pi0 g", "mu mu", "pi pi", "v v"]

    def annihilation_cross_section_funcs(self):
        def mk(c):
            return lambda q: self.factor * c["rate"] * ((1 - 4 * self.mx ** 2 / q ** 2) if c["pwave"] else 1.0) if q > 2 * self.mx else (0.0 if c["pwave"] else self.factor * c["rate"])
        return {n: mk(c) for n, c in self.d.items()}

    def partial_widths(self):
        return {}

    def _fns(self, key):
        def mk(c):
            return lambda e, q: (shape_fn(c[key], q / 2)(e) if c[key] else zero(e))
        return {n: mk(c) for n, c in self.d.items()}

    def _spectrum_funcs(self):
        return self._fns("photon")

    def _positron_spectrum_funcs(self):
        return self._fns("positron")

    def _gamma_ray_line_energies(self, e_cm):
        return {n: c["gline"] * e_cm / 2 for n, c in self.d.items() if c["gline"]}

    def _positron_line_energies(self, e_cm):
        return {n: c["eline"] * e_cm / 2 for n, c in self.d.items() if c["eline"]}

    def constraints(self):
        return {}


class Dec(TheoryDec):
    def __init__(self, d, factor=1.0):
        self.mx, self.d, self.factor = d["mx"], d["chans"], factor

    @staticmethod
    def list_decay_final_states():
        return ["e e", "g g", "pi0 g", "mu mu", "pi pi", "v v"]

    def _decay_widths(self):
        return {n: self.factor * c["rate"] for n, c in self.d.items()}

    def _fns(self, key):
        def mk(c):
            return lambda e: (shape_fn(c[key], self.mx / 2)(e) if c[key] else zero(e))
        return {n: mk(c) for n, c in self.d.items()}

    def _spectrum_funcs(self):
        return self._fns("photon")

    def _positron_spectrum_funcs(self):
        return self._fns("positron")

    def _gamma_ray_line_energies(self):
        return {n: c["gline"] * self.mx / 2 for n, c in self.d.items() if c["gline"]}

    def _positron_line_energies(self):
        return {n: c["eline"] * self.mx / 2 for n, c in self.d.items() if c["eline"]}

    def constraints(self):
        return {}


def rates(model, e_cm=None):
    """Independent rates and branching fractions."""
    r = {}
    for n, c in model.d.items():
        v = c["rate"] * model.factor
        if e_cm is not None and c["pwave"]:
            v *= max(1 - 4 * model.mx ** 2 / e_cm ** 2, 0.0)
        r[n] = v
    t = sum(r.values())
    return r, {n: (v / t if t else 0.0) for n, v in r.items()}, t


def continuum(model, key, es, e_cm=None):
    """Branching-weighted continuum."""
    _, bf, _ = rates(model, e_cm)
    top = (model.mx if e_cm is None else e_cm) / 2
    tot = np.zeros(np.shape(es))
    for n, c in model.d.items():
        if c[key]:
            tot = tot + bf[n] * shape_fn(c[key], top)(es)
    return tot


def lines(model, key, e_cm=None):
    """[(energy, particles per event)]."""
    _, bf, _ = rates(model, e_cm)
    top = (model.mx if e_cm is None else e_cm) / 2
    out = []
    for n, c in model.d.items():
        if c[key]:
            out.append((c[key] * top, bf[n] * (2.0 if n == "g g" else 1.0)))
    return out
