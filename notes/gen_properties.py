"""Writes /verif/properties.jsonl (run from anywhere)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

H = "hazma/"
# ---------------------------------------------------------------- phase space
p("C01", "Monte-Carlo phase-space events are exact kinematic configurations",
  "For every centre-of-mass energy above threshold and every list of two or more non-negative masses, each generated phase-space event consists of on-shell four-momenta with positive energies that sum to the centre-of-mass four-momentum, and carries a finite positive weight multiplied by the user's squared matrix element evaluated on that event. The requested number of events is delivered, the same seed gives the same events, and this stays true after the energy or the masses of an existing generator are reassigned. Events are distributed isotropically, so no direction or identical particle is preferred.",
  ["inputs", "histories"], "all (E_cm, masses, n, batch size, seed, squared matrix element), and all sequences of reassigning E_cm / masses on one generator",
  "The tests integrate a handful of standard-model processes at fixed masses and only look at the integral; they never look at the individual momenta, at batches, or at a generator whose energy or masses changed.",
  [H+"phase_space/_rambo.py"], [("RAMBO massless generation, conformal boost, mass rescaling by Newton iteration", H+"phase_space/_rambo.py"), ("event weights", H+"phase_space/_rambo.py")])
p("C02", "Phase-space integrals, widths and cross sections match exact N-body results",
  "Integrating a squared matrix element over N-body phase space returns the Lorentz-invariant phase-space integral: for constant or polynomial matrix elements it matches the closed-form (or independently computed) value, it is linear in the matrix element, and the two-body, three-body and Monte-Carlo integrators agree with each other within their stated errors whatever signature the matrix element is given in. Partial widths are that integral times 1/(2M) and cross sections are that integral divided by the flux factor of the initial state. Reassigning energy, masses or matrix element of an integrator gives the same result as building a new one.",
  ["inputs", "histories"], "all energies above threshold, mass lists of length 2..7, matrix elements (flat, polynomial in invariants, angular), integration methods and option values",
  "Tests check a few fixed standard-model processes to a few per cent with one method; they do not cover general mass patterns, method agreement, default (flat) matrix elements or reassignment.",
  [H+"phase_space/_rambo.py", H+"phase_space/_two_body.py", H+"phase_space/_three_body.py", H+"utils.py"],
  [("MC average of weights", H+"phase_space/_rambo.py"), ("Dalitz-region quadrature", H+"phase_space/_three_body.py"), ("two-body angular integral", H+"phase_space/_two_body.py")])
p("C03", "Energy and invariant-mass distributions are normalised, supported and exact",
  "The energy and invariant-mass distributions of phase space are non-negative, integrate to one over bins spanning exactly the kinematically allowed range of each particle or pair, have the number of bins asked for, and match the differential phase-space density for that particle or pair, whatever method computes them. Expectation values taken with such a distribution equal the integral of the function against it.",
  ["inputs"], "all energies, masses (3 to 5 bodies), matrix elements, bin counts and methods",
  "No test looks at the distributions; only total integrals are tested.",
  [H+"phase_space/_three_body.py", H+"phase_space/_rambo.py", H+"phase_space/_dist.py", H+"phase_space/_utils.py"],
  [("kinematic limits", H+"phase_space/_utils.py"), ("histogramming of weighted events", H+"phase_space/_rambo.py"), ("partial integration over the Dalitz region", H+"phase_space/_three_body.py"), ("bin normalisation and expectation", H+"phase_space/_dist.py")])
p("C04", "Boosting a particle spectrum conserves particles and follows Lorentz kinematics",
  "Boosting a decay-product spectrum from a parent's rest frame to the laboratory (callable, tabulated and delta-function spectra; Python and compiled helpers) gives the exact isotropic Lorentz boost: the number of particles is conserved, the mean energy becomes gamma times the rest-frame mean, the support is the boosted support, and successive collinear-averaged boosts of a line agree with boosting twice. A zero boost returns the spectrum unchanged, and all integration methods agree.",
  ["inputs"], "all product masses, rest-frame spectra (lines, polynomials, tables), velocities 0 <= beta < 1, energies and integration methods",
  "No test covers the Python boost module; the compiled helper is compared with frozen numbers at a few points.",
  [H+"spectra/boost.py", "rust/src/boost.rs", H+"_utils/boost.pyx"], [("isotropic boost integral", H+"spectra/boost.py"), ("delta-function boosts", H+"spectra/boost.py"), ("compiled boost of tabulated spectra", "rust/src/boost.rs")])
# ---------------------------------------------------------------- numeric core
p("C05", "Compiled adaptive integration agrees with reference quadrature",
  "For every integrable function and finite interval (in either orientation, with or without break points, with any tolerances and subdivision limit), the compiled adaptive integrator returns the same value and error estimate as the reference QUADPACK implementation and the true integral within the requested tolerance. Reversing the interval flips the sign and splitting it adds up.",
  ["inputs"], "parametrised families of integrands (polynomial, exponential, oscillatory, peaked, algebraic endpoint), intervals, break points, tolerances",
  "Tests compare a fixed list of integrands with frozen numbers.",
  ["rust/src/quad.rs", "rust/src/quad_probe.rs"], [("QAGS/QAGP with epsilon extrapolation", "rust/src/quad.rs")])
p("C06", "Special functions and table interpolation equal their mathematical definitions",
  "The compiled special functions (modified Bessel functions of integer order, dilogarithm) equal their mathematical definitions to near double precision over their whole domain, including limits, signs, infinities and NaN, and satisfy their recurrence and reflection identities. Table interpolation is exact at the nodes, linear between them, and zero or clamped outside exactly as documented, for every sorted table and query.",
  ["inputs"], "all arguments in the domain, all sorted tables and query points",
  "Tests sample tens of fixed arguments.",
  ["rust/src/special.rs", "rust/src/interp.rs"], [("K1/Kn/spence ports", "rust/src/special.rs"), ("piecewise-linear interpolation", "rust/src/interp.rs")])
p("C07", "Scalar and array calls of a spectrum or cross section agree element by element",
  "Every compiled kernel and single-particle spectrum accepts a single number or a one-dimensional array, list or tuple, and every model's cross sections and total spectra a number or array: a scalar gives a scalar (a flavour triple for neutrinos), an array gives a new array of the same length whose elements equal the scalar results, and the input is never modified. Results do not depend on the order, spacing, memory layout or number of energies supplied together, nor on earlier calls. Malformed inputs (two-dimensional, non-numeric, unknown flavour) are rejected with an exception instead of giving numbers.",
  ["inputs"], "all public compiled entry points and Python spectra, all energy arrays (unsorted, repeated, below/above range, empty), invalid shapes and types",
  "Tests call each function on one grid; agreement must hold for every composition of the array.",
  ["rust/src/dispatch.rs", "rust/src/photon.rs", "rust/src/positron.rs", "rust/src/neutrino.rs", "rust/src/scalar_mediator.rs", "rust/src/vector_mediator.rs", H+"spectra/_photon/__init__.py", H+"spectra/_positron/__init__.py", H+"spectra/_neutrino/__init__.py"],
  [("argument dispatch", "rust/src/dispatch.rs"), ("Python wrappers", H+"spectra")])
# ---------------------------------------------------------------- decay spectra
p("C08", "Photon spectra from decaying particles equal boosted rest-frame decay spectra",
  "For every particle with a photon decay spectrum and every parent energy, the spectrum equals the isotropic Lorentz boost of that particle's rest-frame decay spectrum (radiative muon and pion decay formulas, two-photon and meson-photon lines with their branching-fraction weights, published rest-frame tables). It is non-negative and finite, zero outside the kinematic range and zero for parent energies below the mass, and photon energy carried never exceeds the parent energy.",
  ["inputs"], "all photon-producing particles, all parent energies from rest to highly boosted, all photon energies",
  "Golden tests cover a fixed grid and are compared with the code's own earlier output, not with the physics.",
  [H+"spectra/_photon/__init__.py", "rust/src/kernels/photon_muon.rs", "rust/src/kernels/photon_pion.rs", "rust/src/kernels/photon_rho.rs", "rust/src/kernels/photon_tables.rs", H+"spectra/_photon/_muon.pyx", H+"spectra/_photon/_pion.pyx"],
  [("rest-frame formulas", "rust/src/kernels"), ("boost integrals", "rust/src/boost.rs"), ("tables", H+"spectra/_photon/data")])
p("C09", "Positron spectra from decaying particles equal boosted rest-frame spectra",
  "For every particle with a positron decay spectrum and every parent energy, the spectrum equals the Lorentz boost of the rest-frame spectrum (Michel spectrum for the muon, pion to muon chain plus electron line, published tables for heavier mesons). It is finite, non-negative and vanishes outside the kinematic range, and the number of positrons is conserved by the boost.",
  ["inputs"], "all positron-producing particles, all parent energies, all positron energies",
  "Golden tests cover a fixed grid of the code's own earlier output.",
  [H+"spectra/_positron", "rust/src/kernels/positron_muon.rs", "rust/src/kernels/positron_pion.rs", H+"spectra/_positron/_muon.pyx", H+"spectra/_positron/_pion.pyx"],
  [("Michel spectrum boost", "rust/src/kernels/positron_muon.rs"), ("pion chain", "rust/src/kernels/positron_pion.rs"), ("table boost", H+"spectra/_positron/_utils.py")])
p("C10", "Neutrino spectra from decaying particles are correct for each flavour",
  "For every particle with a neutrino decay spectrum, the three flavour rows equal the Lorentz boost of the rest-frame electron-, muon- and tau-neutrino spectra of its decay chain, selecting a flavour returns that row, and no flavour appears that the decay cannot produce. Spectra are finite, non-negative, confined to the kinematic range, and each muon yields one electron- and one muon-type neutrino.",
  ["inputs"], "all neutrino-producing particles, flavours, parent energies, neutrino energies",
  "Golden tests cover a fixed grid of the code's own earlier output.",
  [H+"spectra/_neutrino", "rust/src/kernels/neutrino_muon.rs", "rust/src/kernels/neutrino_pion.rs", "rust/src/kernels/neutrino_flavors.rs"],
  [("muon decay neutrinos", "rust/src/kernels/neutrino_muon.rs"), ("pion chain", "rust/src/kernels/neutrino_pion.rs"), ("flavour selection", H+"spectra/_neutrino/__init__.py")])
p("C11", "Final-state radiation follows from matrix elements and splitting functions",
  "Final-state-radiation spectra reproduce their definition: the leading-log spectra equal the splitting function times the collinear logarithm and vanish beyond the kinematic end-point, scale with charge squared, and the matrix-element-based photon spectrum equals the ratio of radiative to non-radiative phase-space integrals (including the initial-state, photon phase-space and multi-body factors). The spectrum is invariant under a common rescaling of both matrix elements and linear in the radiative one.",
  ["inputs"], "all photon energies, masses, charges, number of final-state particles, matrix elements",
  "Only one muon-like case can be compared by hand; the tests do not cover general masses or multiplicities.",
  [H+"spectra/altarelli_parisi.py", H+"spectra/_fsr.py", H+"utils.py"], [("splitting functions", H+"spectra/altarelli_parisi.py"), ("phase-space ratio", H+"spectra/_fsr.py")])
p("C12", "Spectra of multi-particle final states are the sum over particles",
  "The photon, positron or neutrino spectrum of a final state with any number of particles is the sum of each particle's decay spectrum folded with its energy distribution in that final state (exact two-body energies, three- and many-body phase space for the supplied or flat matrix element), plus radiation only when requested. It does not depend on the order of the particles, treats charge conjugates alike, and vanishes below threshold; unknown states are rejected.",
  ["inputs"], "all supported final-state multisets of 1 to 5 particles, energies, matrix elements, options",
  "Combinatorially many final states; tests touch a couple of them.",
  [H+"spectra/_nbody.py", H+"spectra/__init__.py"], [("two-body kinematics and decay spectra", H+"spectra/_nbody.py"), ("energy distributions", H+"phase_space")])
p("C13", "Convolved spectra preserve counts and follow the detector response",
  "Convolving a spectrum with a detector's energy resolution gives the smearing integral of continuum and line contributions with a normalised Gaussian of the stated relative width: it is linear in the spectrum, conserves the number of particles away from the range's edges, places each line at its energy with its weight, and converges to the input for vanishing width.",
  ["inputs"], "all spectra, line sets, resolutions, energy ranges and grid sizes",
  "No test covers convolution.",
  [H+"spectra/convolve.py", H+"parameters.py"], [("Gaussian smearing", H+"parameters.py"), ("convolution of callables", H+"spectra/convolve.py")])
# ---------------------------------------------------------------- models
p("C14", "Scalar-mediator cross sections and widths follow from the model's couplings",
  "Each annihilation cross section and mediator decay width of the scalar-mediator model equals the value derived from the model's interactions for every mass and coupling: it vanishes below its threshold, scales with the couplings as the interactions dictate, and equals the independently evaluated matrix element integrated over phase space. The inclusive cross section and total width are the sums over open channels.",
  ["inputs", "configurations"], "all dark-matter and mediator masses, couplings, energies and channels, for the model and its Higgs-portal and heavy-quark variants",
  "Tests compare fixed parameter points with frozen numbers.",
  [H+"scalar_mediator/_scalar_mediator_cross_sections.py", H+"scalar_mediator/_scalar_mediator_widths.py", H+"scalar_mediator/__init__.py", "rust/src/kernels/scalar_xs.rs", "rust/src/scalar_mediator.rs"],
  [("cross-section kernels", "rust/src/kernels/scalar_xs.rs"), ("widths", H+"scalar_mediator/_scalar_mediator_widths.py")])
p("C15", "Vector-mediator cross sections and widths follow from the model's couplings",
  "Each annihilation cross section and mediator decay width of the vector-mediator models (general quark couplings and kinetic mixing) equals the value derived from the model's interactions: it vanishes below threshold, scales with the couplings as dictated, and annihilation through the mediator is related to the mediator's partial widths. The inclusive cross section and total width are the sums over open channels.",
  ["inputs", "configurations"], "all masses, couplings, energies and channels of the vector-mediator models",
  "Tests compare fixed parameter points with frozen numbers.",
  [H+"vector_mediator/_vector_mediator_cross_sections.py", H+"vector_mediator/_vector_mediator_widths.py", H+"vector_mediator/__init__.py", "rust/src/kernels/vector_xs.rs", "rust/src/vector_mediator.rs"],
  [("cross-section kernels", "rust/src/kernels/vector_xs.rs"), ("widths", H+"vector_mediator/_vector_mediator_widths.py")])
p("C16", "GeV-scale vector models: widths, cross sections and spectra are consistent",
  "In the GeV-scale vector models (general, kinetic mixing and B-L), every hadronic and leptonic channel's cross section and mediator width vanish below threshold, scale quadratically with the mediator's couplings, and are consistent with one another through the mediator propagator; branching fractions are widths over their total and sum to one. Channel spectra are those of the channel's actual particles.",
  ["inputs", "configurations"], "all masses, couplings, energies and channels of the GeV vector models",
  "Dozens of channels with no tests of the model classes.",
  [H+"vector_mediator/_gev"], [("cross sections and widths from form factors", H+"vector_mediator/_gev/cross_sections.py"), ("model class", H+"vector_mediator/_gev/model.py"), ("spectra", H+"vector_mediator/_gev/spectra.py")])
p("C17", "Right-handed-neutrino widths and spectra follow from its mixing",
  "Each partial width of the right-handed neutrino vanishes below its threshold, scales with the square of its mixing to leading order, is finite and non-negative, and three-body widths equal the phase-space integral of their squared matrix elements; spectra of each channel are those of the channel's actual particles at the right energies, and lines sit at their two-body energies.",
  ["inputs", "configurations"], "all masses, mixing angles, flavours and channels",
  "No test covers this model in the runnable suite.",
  [H+"rh_neutrino"], [("widths", H+"rh_neutrino/_widths.py"), ("spectra", H+"rh_neutrino/_spectra.py"), ("model", H+"rh_neutrino/_model.py")])
p("C18", "Total spectra are the branching-fraction-weighted sum of channel spectra",
  "For every dark-matter model, the total photon and positron spectrum is the sum over final states of branching fraction times that channel's spectrum, the branching fractions are non-negative and sum to one over open channels, and lines carry the branching fraction and energy of their channel. Tabulated and callable forms of a model's spectrum agree.",
  ["inputs", "configurations"], "all models, parameters, energies",
  "Tests check one model at one point.",
  [H+"theory/__init__.py"], [("total_spectrum, spectrum_funcs, branching fractions, lines", H+"theory/__init__.py")])
p("C19", "Reassigning model parameters is equivalent to building a new model",
  "After any sequence of parameter assignments, a model (scalar, vector, GeV vector, right-handed neutrino, single-channel, black hole) gives the same widths, cross sections, branching fractions and spectra as a model freshly constructed with the resulting parameters. Reading results in between, or computing a limit with the model, never changes them.",
  ["histories"], "all sequences of assignments and reads on all models",
  "Tests construct models once; stale cached widths appear only after particular assignment sequences.",
  [H+"scalar_mediator/__init__.py", H+"vector_mediator/__init__.py", H+"vector_mediator/_gev/model.py", H+"rh_neutrino/_model.py", H+"single_channel.py", H+"pbh.py"],
  [("property setters recompute cached widths and derived couplings", H+"scalar_mediator/__init__.py")])
p("C20", "Vector form factors respect thresholds, couplings and their own widths",
  "Every hadronic vector form factor vanishes (with its widths, cross sections and spectra) below the hadronic threshold, is homogeneous in the quark couplings, is the same for scalar and array energies in any order, and its integrated mediator width and annihilation cross section equal the phase-space integral of the form factor. Energy and invariant-mass distributions of the final state are normalised and kinematically supported.",
  ["inputs"], "all final states, couplings, masses and energies",
  "Existing tests check a few widths per state at fixed couplings.",
  [H+"form_factors/vector"], [("form factor classes", H+"form_factors/vector"), ("two- and three-body integration", H+"form_factors/vector/_three_body.py")])
p("C21", "Mediator FSR and mediator-decay spectra are physical and consistent",
  "Photon and positron spectra of annihilation into a pair of fermions, charged pions or mediators in the mediator models are finite, non-negative, vanish outside the kinematic range, approach the universal soft-photon limit, and for mediator pairs equal the boost of the mediator's decay spectrum weighted with its branching fractions, with two mediators per annihilation.",
  ["inputs", "configurations"], "all masses, couplings, energies",
  "Golden tests cover one parameter point.",
  [H+"scalar_mediator/_scalar_mediator_fsr.py", H+"vector_mediator/_vector_mediator_fsr.py", H+"scalar_mediator/scalar_mediator_decay_spectrum.pyx", H+"vector_mediator/vector_mediator_decay_spectrum.pyx", H+"scalar_mediator/scalar_mediator_positron_spec.pyx", H+"vector_mediator/vector_mediator_positron_spec.pyx"],
  [("FSR formulas", H+"scalar_mediator/_scalar_mediator_fsr.py"), ("mediator decay spectra boosted", H+"scalar_mediator/scalar_mediator_decay_spectrum.pyx")])
p("C22", "Thermally averaged cross sections are thermal averages",
  "For every model the thermally averaged annihilation cross section equals the relativistic Maxwell-Boltzmann average of the annihilation cross section at that temperature: it is linear in the cross section, tends to sigma*v as the temperature drops for s-wave annihilation, and is finite and non-negative.",
  ["inputs", "configurations"], "all temperatures, models, masses, couplings",
  "Tests compare frozen values.",
  [H+"relic_density/_thermal_functions.py", "rust/src/kernels/scalar_xs.rs", "rust/src/kernels/vector_xs.rs", H+"vector_mediator/_gev/thermal_cross_section.py"],
  [("Gondolo-Gelmini average", H+"relic_density/_thermal_functions.py")])
p("C23", "Relic density solves the Boltzmann equation",
  "The computed relic abundance satisfies the freeze-out Boltzmann equation for every annihilation cross section: equilibrium densities and degrees of freedom follow their definitions, abundance falls monotonically as the cross section grows, the semi-analytic and numerical answers agree, and the relic-density limit reproduces the observed abundance.",
  ["inputs"], "all masses and cross sections (constant or temperature-dependent)",
  "One benchmark is tested.",
  [H+"relic_density", H+"limits/_relic_density.py"], [("thermal functions", H+"relic_density/_thermal_functions.py"), ("ODE and approximations", H+"relic_density/_diffeq.py")])
p("C24", "Gamma-ray limits are exactly the couplings that saturate the data",
  "The binned, unbinned and Fisher gamma-ray limits on annihilation cross section or lifetime are the values at which the model's predicted counts reach the allowed level for the stated data, exposure, background and significance: predicted counts at the limit saturate the most constraining bin or the optimal-window significance, limits scale with exposure, target factor and number of sigmas as the definition says, and channels are combined linearly. Computing limits never modifies the model or the data.",
  ["inputs", "configurations"], "all spectra, masses, measurements, targets, telescopes, significances",
  "No tests cover limits.",
  [H+"theory/_theory_gamma_ray_limits.py", H+"limits", H+"flux_measurement.py", H+"background_model.py", H+"gamma_ray_parameters.py"],
  [("binned and unbinned limits", H+"theory/_theory_gamma_ray_limits.py"), ("fluxes", H+"flux_measurement.py"), ("backgrounds", H+"background_model.py")])
p("C25", "CMB limits follow from the energy injected as electrons and photons",
  "The effective deposition efficiency is the energy-weighted average of the electron and photon efficiencies over the model's spectra and lines, lies between zero and the maximal efficiency, and the CMB limit equals the annihilation-parameter bound times mass over that efficiency, independent of the overall rate. The efficiency tables are interpolated linearly, the relative velocity at recombination follows the published formula, the limit class agrees with the model method, and composite constrainers hold exactly the limits added to them.",
  ["inputs", "configurations"], "all models, masses, kinetic-decoupling temperatures",
  "No tests cover the CMB limits.",
  [H+"cmb.py", H+"theory/_theory_cmb.py", H+"limits/_cmb.py"], [("efficiency interpolation", H+"cmb.py"), ("f_eff integral", H+"theory/_theory_cmb.py")])
p("C26", "Single-channel and black-hole models reproduce their definition",
  "A single-channel annihilation or decay model has one channel with unit branching fraction, its spectra and lines are those of the requested final state at the stated mass, and cross section or width equal the requested value; a black-hole model interpolates its spectra within the table and vanishes outside. Every supported final state is available and unsupported ones are rejected.",
  ["inputs", "configurations"], "all final states, masses and rates",
  "No tests cover them.",
  [H+"single_channel.py", H+"pbh.py"], [("single-channel theories", H+"single_channel.py"), ("PBH spectra", H+"pbh.py")])
p("C27", "Physical constants, conversions and telescope data are correct and consistent",
  "Masses, widths, couplings, mixing-matrix elements and conversion factors equal the published ones, derived constants follow from the basic ones, and lookup tables agree with the named constants; unit conversion inverts itself and rejects unknown units; a spectrum vanishes for a parent below the public mass of that particle and not above it. Detector data satisfy their invariants: bins ascending and contiguous with positive fluxes and errors in the right units, effective areas and resolutions that interpolate their tables (zero area outside), background models and their parameter derivatives, and targets whose solid angle, J and D factors fit their region and are ordered by region size and by nominal against optimistic halo.",
  ["configurations", "inputs"], "all constants, datasets, energies within and outside detector ranges, background parameters, parent energies",
  "Tests compare constants with a frozen list; the datasets, backgrounds and targets are not checked.",
  [H+"parameters.py", "rust/src/constants.rs", H+"gamma_ray_parameters.py", H+"background_model.py", H+"flux_measurement.py", H+"target_params.py", H+"gamma_ray_data"],
  [("constants and conversions", H+"parameters.py"), ("constants in the compiled core", "rust/src/constants.rs"), ("detector data", H+"gamma_ray_parameters.py")])
p("C28", "Terrestrial and astrophysical constraints on the scalar mediator are correct",
  "The constraint functions for a scalar mediator from rare meson decays and beam dumps equal their published formulas for every mass and coupling: production widths vanish above the kinematic limit, scale with couplings as dictated, and the sign of each constraint says whether the predicted rate exceeds the experimental bound.",
  ["inputs", "configurations"], "all mediator masses, couplings",
  "No tests cover the constraints.",
  [H+"scalar_mediator/_scalar_mediator_constraints.py", H+"constraint_parameters.py", H+"theory/_theory_constrain.py"],
  [("meson decay widths and observables", H+"scalar_mediator/_scalar_mediator_constraints.py")])
with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
