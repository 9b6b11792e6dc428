ID='c18-positron-open-channel'
PROPERTY='C18'
EDITS=[('hazma/theory/__init__.py', '        for fs, dnde_pos_func in self.positron_spectrum_funcs().items():\n            specs[fs] = bfs[fs] * dnde_pos_func(e_ps, e_cm)\n', '        for fs, dnde_pos_func in self.positron_spectrum_funcs().items():\n            if bfs[fs] < 1e-3:\n                specs[fs] = np.zeros_like(e_ps)\n                continue\n            specs[fs] = bfs[fs] * dnde_pos_func(e_ps, e_cm)\n')]
NEEDS='a final state with a branching fraction below a per mille'
BREAKS='rare channels are left out of the total positron spectrum'
DEMO='\nimport numpy as np\nfrom hazma.vector_mediator import VectorMediator\nm = VectorMediator(250.0, 1e4, 1.0, 0.0, 0.0, 0.0, 1.0, 0.01)\ne = np.array([50.0, 100.0])\nq = 505.0\nbf = m.annihilation_branching_fractions(q)\nwant = sum(bf[k] * f(e, q) for k, f in m.positron_spectrum_funcs().items())\ngot = m.total_positron_spectrum(e, q)\nassert np.allclose(want, got, rtol=1e-9), (want, got)\n'
