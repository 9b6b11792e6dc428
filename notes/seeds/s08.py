ID='c07-flavor-memory-order'
PROPERTY='C07'
EDITS=[('rust/src/dispatch.rs', '            let flavors: Vec<[f64; N_FLAVORS]> = view.iter().map(|&x| kernel(x)).collect();', '            let flavors: Vec<[f64; N_FLAVORS]> = match view.as_slice_memory_order() {\n                Some(contiguous) => contiguous.iter().map(|&x| kernel(x)).collect(),\n                None => view.iter().map(|&x| kernel(x)).collect(),\n            };')]
NEEDS='a neutrino spectrum on an energy array with a negative stride (es[::-1])'
BREAKS='the rows come out in memory order instead of array order'
DEMO='\nimport numpy as np\nfrom hazma.spectra import dnde_neutrino_muon\nes = np.array([5.0, 20.0, 60.0])\na = np.asarray(dnde_neutrino_muon(es, 150.0))\nb = np.asarray(dnde_neutrino_muon(es[::-1], 150.0))\nassert np.array_equal(a[:, ::-1], b), (a, b)\n'
