TECH = {
"C01": "generated event configurations; kinematic invariants, seeded-replay and stateful setter histories against fresh generators, isotropy statistics",
"C02": "generated masses/matrix elements; closed forms and independent quadrature as oracle, differential between integrators, stateful setter histories",
"C03": "generated masses/binnings; differential against independent phase-space densities, normalisation and support invariants",
"C04": "generated spectra and boosts; exact boost quadrature as reference model, conservation and composition relations",
"C05": "generated integrands, intervals, tolerances; differential against QUADPACK (scipy) and exact integrals, metamorphic relations",
"C06": "generated arguments over the whole double range; differential against mpmath, identities, table model",
"C07": "generated scalar/array/list/malformed calls over every public entry point; metamorphic element-by-element relation",
"C08": "generated parent and photon energies; differential against literature rest-frame formulas and tables boosted by independent quadrature",
"C09": "generated parent and positron energies; differential against rest-frame formulas and tables boosted independently",
"C10": "generated parent and neutrino energies; differential against rest-frame formulas and tables boosted independently, per flavour",
"C11": "generated charges, energies and matrix elements; closed-form splitting functions and independent phase-space integrals as oracle, metamorphic scaling",
"C12": "generated final states; differential against an independent fold of single-particle spectra, permutation/conjugation relations",
"C13": "generated spectra, lines and resolutions; independent smearing integral, linearity and conservation",
"C14": "generated masses and couplings; differential against independently derived matrix elements, threshold and scaling relations",
"C15": "generated masses and couplings; differential against independently derived matrix elements, threshold and scaling relations",
"C16": "generated masses and couplings; propagator relation between widths and cross sections, branching-sum and scaling relations",
"C17": "generated masses and mixings; independent widths and phase-space integrals of squared matrix elements, threshold/scaling relations",
"C18": "generated models and energies; aggregation re-computed from channels (reference model), tabulation relations",
"C19": "stateful generated setter/read histories against freshly built models",
"C20": "generated masses, couplings and energies; threshold/homogeneity relations and independent phase-space integrals of form factors",
"C21": "generated mediator models and energies; independent matrix-element integrals, soft limit and boost reference model",
"C22": "generated models and temperatures; independent Maxwell-Boltzmann average",
"C23": "generated cross sections; independent Boltzmann integration and equilibrium definitions, monotonicity",
"C24": "generated models, data and exposures; saturation of predicted counts recomputed independently, scaling relations, mutation detection",
"C25": "generated models; independent deposition integral and limit definition",
"C26": "generated final states and energies; definition as reference model, rejection of generated unsupported names",
"C27": "generated pairs over all constant tables, conversions, thresholds, detector data and background parameters; independent reference values, round trips and data invariants",
"C28": "generated masses and couplings; published formulas re-derived, sign and scaling relations",
}
