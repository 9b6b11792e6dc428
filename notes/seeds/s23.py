ID='c10-pion-near-rest'
PROPERTY='C10'
EDITS=[('rust/src/kernels/neutrino_pion.rs', '    if epi - MASS_PI < f64::EPSILON {\n        let point', '    if epi - MASS_PI < 1e-6 {\n        let point')]
NEEDS='a charged pion within 1 eV of rest'
BREAKS='the muon-neutrino line is lost'
DEMO='\nfrom hazma.spectra import dnde_neutrino_charged_pion\nfrom hazma.parameters import charged_pion_mass as mpi\ne0 = (mpi**2 - 105.6583745**2) / (2 * mpi)\nv = dnde_neutrino_charged_pion(e0, mpi + 5e-7)\nassert v[1] > 1.0, v\n'
