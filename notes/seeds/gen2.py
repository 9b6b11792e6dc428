"""Writes s08.. specs."""
S = {}
def seed(n, ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO):
    open("s%02d.py" % n, "w").write("\n".join("%s=%r" % kv for kv in dict(ID=ID, PROPERTY=PROPERTY, EDITS=EDITS, NEEDS=NEEDS, BREAKS=BREAKS, DEMO=DEMO).items()) + "\n")

seed(8, "c07-flavor-memory-order", "C07", [("rust/src/dispatch.rs", "            let flavors: Vec<[f64; N_FLAVORS]> = view.iter().map(|&x| kernel(x)).collect();",
"""            let flavors: Vec<[f64; N_FLAVORS]> = match view.as_slice_memory_order() {
                Some(contiguous) => contiguous.iter().map(|&x| kernel(x)).collect(),
                None => view.iter().map(|&x| kernel(x)).collect(),
            };""")],
 "a neutrino spectrum on an energy array with a negative stride (es[::-1])", "the rows come out in memory order instead of array order", '''
import numpy as np
from hazma.spectra import dnde_neutrino_muon
es = np.array([5.0, 20.0, 60.0])
a = np.asarray(dnde_neutrino_muon(es, 150.0))
b = np.asarray(dnde_neutrino_muon(es[::-1], 150.0))
assert np.array_equal(a[:, ::-1], b), (a, b)
''')

seed(9, "c15-pi0g-width-coupling", "C15", [("hazma/vector_mediator/_vector_mediator_widths.py", "                * (self.gvdd + 2 * self.gvuu) ** 2", "                * (self.gvdd**2 + 4 * self.gvuu**2 + 4 * abs(self.gvdd * self.gvuu))")],
 "quark couplings of opposite sign (up and down)", "the interference of the two quark couplings in V -> pi0 gamma has the wrong sign", '''
from hazma.vector_mediator import QuarksOnly
a = QuarksOnly(100.0, 500.0, 1.0, 0.5, -1.0, 0.0).width_v_to_pi0g()
assert abs(a) < 1e-12, a
''')

seed(10, "c16-width-propagator", "C16", [("hazma/vector_mediator/_gev/cross_sections.py", "    den = ((1.0 - muv2) ** 2 + mug2 * muv2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3", "    den = ((1.0 - muv2) ** 2 + mug2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3")],
 "the pi0 pi0 gamma channel on the mediator's resonance, away from which nothing changes noticeably", "the propagator of that channel uses Gamma^2 s instead of Gamma^2 M^2", '''
from hazma.vector_mediator import KineticMixingGeV
m = KineticMixingGeV(300.0, 1500.0, 2.0, 1e-2)
w = m.width_v()
assert w > 20, w
from hazma.form_factors.vector import VectorFormFactorPi0Omega
f = VectorFormFactorPi0Omega()
q = 1300.0
a = m.sigma_xx_to_pi0_pi0_gamma(q)
b = 0.0834 * f.cross_section(q=q, mx=m.mx, mv=m.mv, gvxx=m.gvxx, wv=w, couplings=m._couplings)
assert abs(a / b - 1) < 1e-6, (a, b)
''')

seed(12, "c17-msqrd-vll-sign", "C17", [("hazma/rh_neutrino/_widths.py", "            + 2 * ml**2 * (mx**2 - s - 2 * (1 + 4 * SW**2 + 8 * SW**4) * t)\n            + (1 + 4 * SW**2 + 8 * SW**4)", "            + 2 * ml**2 * (mx**2 - s - 2 * (1 - 4 * SW**2 + 8 * SW**4) * t)\n            + (1 + 4 * SW**2 + 8 * SW**4)")],
 "a right-handed neutrino mixing with the muon flavour decaying to nu mu mu not far above threshold", "the squared matrix element no longer gives the width (mass-suppressed term has the wrong weak coupling)", '''
import numpy as np
from hazma.rh_neutrino import RHNeutrino
from hazma.rh_neutrino import _widths as W
from hazma.phase_space import ThreeBody
m = RHNeutrino(260.0, 1e-3, "mu")
ml = 105.6583745
r = []
for mx in (260.0, 3000.0):
    m.mx = mx
    tb = ThreeBody(mx, (0.0, ml, ml), msqrd=lambda s, t: W._msqrd_v_l_l(s, t, m, ml))
    r.append(tb.integrate(method="quad")[0] / (2 * mx) / W._width_v_l_l(m, 1))
assert abs(r[0] / r[1] - 1) < 1e-3, r
''')

seed(13, "c18-positron-open-channel", "C18", [("hazma/theory/__init__.py", """        for fs, dnde_pos_func in self.positron_spectrum_funcs().items():
            specs[fs] = bfs[fs] * dnde_pos_func(e_ps, e_cm)
""", """        for fs, dnde_pos_func in self.positron_spectrum_funcs().items():
            if bfs[fs] < 1e-3:
                specs[fs] = np.zeros_like(e_ps)
                continue
            specs[fs] = bfs[fs] * dnde_pos_func(e_ps, e_cm)
""")], "a final state with a branching fraction below a per mille", "rare channels are left out of the total positron spectrum", '''
import numpy as np
from hazma.vector_mediator import VectorMediator
m = VectorMediator(250.0, 1e4, 1.0, 0.0, 0.0, 0.0, 1.0, 0.01)
e = np.array([50.0, 100.0])
q = 505.0
bf = m.annihilation_branching_fractions(q)
want = sum(bf[k] * f(e, q) for k, f in m.positron_spectrum_funcs().items())
got = m.total_positron_spectrum(e, q)
assert np.allclose(want, got, rtol=1e-9), (want, got)
''')

seed(14, "c19-rhn-stale-configuration", "C19", [("hazma/rh_neutrino/_model.py", """        self._lstr = val
        self._ml = sm_masses[val]
        self._config = rhn_configure.configure(self, form_factor=self._ff_pi)
""", """        reconfigure = self._lstr != val and self._ml != sm_masses[val]
        self._lstr = val
        if reconfigure:
            self._config = rhn_configure.configure(self, form_factor=self._ff_pi)
        self._ml = sm_masses["e"] if val == "e" else self._ml
        if val != "e":
            self._ml = max(self._ml, sm_masses[val])
""")], "a right-handed neutrino whose flavour is reassigned from tau to mu", "the lepton mass stays that of the tau", '''
from hazma.rh_neutrino import RHNeutrino
m = RHNeutrino(500.0, 1e-3, "tau")
m.flavor = "mu"
assert abs(m.ml - 105.66) < 0.1, m.ml
''')

seed(15, "c20-ppv-lorentz", "C20", [("hazma/form_factors/vector/_three_body.py", "        return (2 * mv**2 * q**2 + (q**2 + mv**2 - s) ** 2 / 4.0) / (", "        return (2 * mv**2 * q**2 + (q**2 - mv**2 - s) ** 2 / 4.0) / (")],
 "the Lorentz structure of a vector and two pseudoscalars at energies comparable to the vector's mass", "the polarisation sum uses the pions' energy instead of the vector's", '''
import numpy as np
from hazma.form_factors.vector import VectorFormFactorPiPiOmega
f = VectorFormFactorPiPiOmega()
q, s, t = 1300.0, 320.0**2, 930.0**2
mv = f.fsp_masses[0]
qk = (q**2 + mv**2 - s) / 2
want = (2 + qk**2 / (mv * q) ** 2) / (3 * q**2)
got = np.asarray(f.squared_lorentz_structure(q, s, t)).ravel()[0]
assert abs(got / want - 1) < 1e-6 or got == 0, (got, want)
''')

seed(16, "c21-pion-fsr-endpoint", "C21", [("hazma/vector_mediator/_vector_mediator_fsr.py", "        x_max = 1 - 4.0 * mu_pi**2", "        x_max = (1 - 2.0 * mu_pi) ** 2 + 2.0 * mu_pi * (1 - 2.0 * mu_pi)")],
 "a photon between 1 - 2 m/Q and 1 - 4 m^2/Q^2 of the end point", "the hardest photons of pion radiation are cut off", '''
from hazma.vector_mediator import KineticMixing
m = KineticMixing(200.0, 1e3, 1.0, 1e-2)
q = 600.0
from hazma.parameters import charged_pion_mass as mpi
xm = 1 - 4 * (mpi / q) ** 2
v = m.dnde_xx_to_v_to_pipig(0.9 * xm * q / 2, q)
assert v > 0, v
''')

seed(17, "c22-cold-bath", "C22", [("rust/src/kernels/vector_xs.rs", "    let two_k2 = 2.0 * bessel_kn(2, xnew);\n", "    let two_k2 = if xnew > 100.0 {\n        (2.0 * std::f64::consts::PI / xnew).sqrt() * (-xnew).exp() * (1.0 + 7.0 / (8.0 * xnew))\n    } else {\n        2.0 * bessel_kn(2, xnew)\n    };\n")],
 "a bath colder than a hundredth of the dark-matter mass", "an asymptotic expansion with a wrong coefficient normalises the average", '''
from hazma.vector_mediator import KineticMixing
m = KineticMixing(250.0, 1e4, 1.0, 0.1)
a, b = m.thermal_cross_section(99.9999), m.thermal_cross_section(100.0001)
assert a > 0 and abs(a / b - 1) < 1e-3, (a, b)
''')

seed(18, "c23-heff-derivative", "C23", [("hazma/relic_density/_thermal_functions.py", "        * (_sm_heff_deriv(T) * T + 3.0 * sm_dof_entropy(T))  # type: ignore", "        * (3.0 * sm_dof_entropy(T))  # type: ignore")],
 "temperatures where the number of degrees of freedom changes (near the QCD transition)", "the entropy derivative ignores the change in degrees of freedom", '''
import numpy as np
from hazma.relic_density import _thermal_functions as T
t = 180.0
h = 0.01
num = (T.sm_entropy_density(t + h) - T.sm_entropy_density(t - h)) / (2 * h)
assert abs(T.sm_entropy_density_deriv(t) / num - 1) < 1e-3, (T.sm_entropy_density_deriv(t), num)
''')

seed(19, "c24-last-window", "C24", [("hazma/theory/_theory_gamma_ray_limits.py", "        for i, e_low in enumerate(e_grid[:-1]):", "        for i, e_low in enumerate(e_grid[:-2]):")],
 "a spectrum concentrated in the last energy bin of the grid", "the narrowest window at the top of the energy range is never considered", '''
import numpy as np
from scipy.interpolate import interp1d
from hazma.single_channel import SingleChannelAnn
from hazma.background_model import BackgroundModel
from hazma.target_params import TargetParams
m = SingleChannelAnn(9.0, "g g", 1.0)
A = interp1d([1.0, 10.0], [100.0, 100.0], bounds_error=False, fill_value=0.0)
bg = BackgroundModel([0.1, 100.0], lambda e: 1e-3 + 0 * e)
t = TargetParams(J=1e28, dOmega=1e-3)
g = np.array([1.0, 8.0, 10.0])
lim = lambda grid: m.unbinned_limit(A, lambda e: 0.01 + 0 * e, 1e6, t, bg, e_grid=np.array(grid))
got, wide = lim([1.0, 8.0, 10.0]), lim([1.0, 10.0 - 1e-6, 10.0])
assert got < 0.6 * wide, (got, wide)
''')

seed(20, "c25-vx-cmb", "C25", [("hazma/theory/_theory_cmb.py", "                multiplicity = 2.0 if ch == fs else 1.0", "                multiplicity = 2.0 if ch == \"g g\" else 1.0")],
 "an annihilation into electron pairs (a line in the electron and positron spectrum)", "only one of the two monochromatic leptons is deposited", '''
from hazma.single_channel import SingleChannelAnn
from hazma.cmb import f_eff_ep
m = SingleChannelAnn(100.0, "e e", 1.0)
got = m.f_eff_ep()
assert abs(got / float(f_eff_ep(100.0)) - 1) < 1e-2, (got, float(f_eff_ep(100.0)))
''')

seed(21, "c26-dec-line-swap", "C26", [("hazma/single_channel.py", """            if s1 == "e":
                lines[self.fs] = energies[0]
            elif s2 == "e":
                lines[self.fs] = energies[1]
""", """            if s1 == "e" or s2 == "e":
                lines[self.fs] = energies[0]
""")],
 "a decay into an electron and a heavier particle, with the electron listed second", "the positron line takes the energy of the other particle", '''
from hazma.single_channel import SingleChannelDec
a = SingleChannelDec(400.0, "pi e", 1.0).positron_lines()["pi e"]["energy"]
b = SingleChannelDec(400.0, "e pi", 1.0).positron_lines()["e pi"]["energy"]
assert abs(a - b) < 1e-9, (a, b)
''')

seed(22, "c28-kl-beam-dump", "C28", [("hazma/scalar_mediator/_scalar_mediator_constraints.py", "        width_contr = self.width_kl_pi0_s() * widths_s[\"e e\"] / width_s * pr_vis", "        width_contr = self.width_kl_pi0_s() * widths_s[\"e e\"] / (width_s - widths_s[\"x x\"]) * pr_vis")],
 "a mediator heavier than twice the dark matter (an open invisible decay)", "the K_L -> pi0 e e rate is not reduced by the invisible branching fraction", '''
from hazma.scalar_mediator import HiggsPortal
a = HiggsPortal(50.0, 180.0, 1.0, 0.9)
b = HiggsPortal(50.0, 180.0, 1e-6, 0.9)
def rate(m):
    from hazma.constraint_parameters import kl_pi0_e_e_obs as o
    return o.width_bound - m.constraint_kl_pi0_e_e()
ra, rb = rate(a), rate(b)
assert rb > 0 and ra < 0.1 * rb, (ra, rb)
''')

seed(23, "c10-pion-near-rest", "C10", [("rust/src/kernels/neutrino_pion.rs", "    if epi - MASS_PI < f64::EPSILON {\n        let point", "    if epi - MASS_PI < 1e-6 {\n        let point")],
 "a charged pion within 1 eV of rest", "the muon-neutrino line is lost", '''
from hazma.spectra import dnde_neutrino_charged_pion
from hazma.parameters import charged_pion_mass as mpi
e0 = (mpi**2 - 105.6583745**2) / (2 * mpi)
v = dnde_neutrino_charged_pion(e0, mpi + 5e-7)
assert v[1] > 1.0, v
''')

seed(24, "c08-table-tail", "C08", [("rust/src/kernels/photon_tables.rs", "            return self.dnde[0] * self.emin() / photon_energy;", "            return self.dnde[0] * photon_energy / self.emin();")],
 "a parent at rest and a photon below the table", "the soft tail of a tabulated spectrum falls instead of rising", '''
import numpy as np
from hazma.spectra import dnde_photon_charged_kaon
from hazma.parameters import charged_kaon_mass as mk
a = dnde_photon_charged_kaon(1e-4, mk)
b = dnde_photon_charged_kaon(5e-5, mk)
assert b > a > 0, (a, b)
''')

seed(25, "c01-newton", "C01", [("hazma/phase_space/_rambo.py", "    def _compute_scale_factor(self, ps: np.ndarray, iterations=5) -> np.ndarray:", "    def _compute_scale_factor(self, ps: np.ndarray, iterations=3) -> np.ndarray:")],
 "several particles whose masses take up a good part of the energy, so that the Newton iteration needs more than three steps", "energies no longer add up to the centre-of-mass energy", '''
import numpy as np
from hazma.phase_space import Rambo
worst = 0.0
for masses in ([4.0, 0.0, 0.0], [4.5, 4.5, 0.1], [0.5, 8.0, 1.0], [9.0, 0.1, 0.1, 0.1]):
    p, w = Rambo(10.0, masses).generate(5000, seed=3)
    worst = max(worst, np.max(np.abs(p[0].sum(axis=0) / 10.0 - 1)))
assert worst < 1e-9, worst
''')

seed(26, "c27-background-derivative", "C27", [("hazma/gamma_ray_parameters.py", "        dg_g = -f_g * np.log(eec) * eec**gamma", "        dg_g = -f_g * np.log(eec) * eec**gamma * np.sign(1.0 - eec)")],
 "photon energies above the exponential cut-off of the galactic background", "the derivative with respect to the exponential index has the wrong sign there", '''
import numpy as np
from hazma.gamma_ray_parameters import GalacticCenterBackgroundModel as B
b = B()
e = 1.5 * b.galactic_exponential_cutoff
d = b.derivatives(e)["galactic_exponential_index"]
h = 1e-5
g = b.galactic_exponential_index
bp, bm = B(galactic_exponential_index=g + h), B(galactic_exponential_index=g - h)
num = (bp.dPhi_dEdOmega(e) - bm.dPhi_dEdOmega(e)) / (2 * h)
assert abs(d / num - 1) < 1e-3, (d, num)
''')

seed(27, "c06-kn-order", "C06", [("rust/src/special.rs", "    match n.unsigned_abs() {\n        0 => x.bessel_k0(),", "    match n.max(0).unsigned_abs() {\n        0 => x.bessel_k0(),")],
 "a negative order", "K_{-n} is returned as K_0 instead of K_n", '''
import hazma._core as c
special = c.special
from scipy.special import kn
f = special.bessel_kn
assert abs(f(-2, 1.5) / kn(2, 1.5) - 1) < 1e-10, f(-2, 1.5)
''')

seed(28, "c14-pion-width-mass", "C14", [("hazma/scalar_mediator/_scalar_mediator_widths.py", "                    -162 * gsGG * lam**3 * (-2 * mpi**2 + ms**2) * vh**2\n", "                    -162 * gsGG * lam**3 * (-2 * mpi**2 + ms**2) * vh**2 * (1 if gsGG > 0 else -1)\n")],
 "a negative gluon coupling together with a non-zero fermion coupling", "the relative sign of the two contributions to S -> pi pi is lost for negative couplings", '''
from hazma.scalar_mediator import ScalarMediator
a = ScalarMediator(100.0, 500.0, 1.0, 0.5, 0.7, 0.0, 2e5).partial_widths()["pi pi"]
b = ScalarMediator(100.0, 500.0, 1.0, -0.5, -0.7, 0.0, 2e5).partial_widths()["pi pi"]
assert abs(a / b - 1) < 0.05, (a, b)
''')

seed(29, "c05-failed-extrapolation", "C05", [("rust/src/quad.rs", "                if abserr / result.abs() > errsum / area.abs() {\n                    break 'l115;", "                if abserr / result.abs() < errsum / area.abs() {\n                    break 'l115;")],
 "an integrand for which extrapolation makes progress but the subdivision limit or round-off is reached", "the less accurate of extrapolated and plain result is returned", '''
import hazma._core as c, numpy as np, inspect
from scipy.integrate import quad
bad = 0
for p in (-0.9, -0.8, -0.5):
    for s in (0.1234, 0.7071):
        for lim in (8, 12, 20, 50):
            f = lambda x: abs(x - s) ** p
            w = quad(f, 0.0, 1.0, limit=lim, epsabs=0, epsrel=1e-10, full_output=1)[0]
            g = c.quad.quad(f, 0.0, 1.0, 0.0, 1e-10, lim)
            g = g[0] if isinstance(g, tuple) else g
            bad += not abs(g - w) <= 1e-9 * abs(w)
assert bad == 0, bad
''')
