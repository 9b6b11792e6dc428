ID='c17-msqrd-vll-sign'
PROPERTY='C17'
EDITS=[('hazma/rh_neutrino/_widths.py', '            + 2 * ml**2 * (mx**2 - s - 2 * (1 + 4 * SW**2 + 8 * SW**4) * t)\n            + (1 + 4 * SW**2 + 8 * SW**4)', '            + 2 * ml**2 * (mx**2 - s - 2 * (1 - 4 * SW**2 + 8 * SW**4) * t)\n            + (1 + 4 * SW**2 + 8 * SW**4)')]
NEEDS='a right-handed neutrino mixing with the muon flavour decaying to nu mu mu not far above threshold'
BREAKS='the squared matrix element no longer gives the width (mass-suppressed term has the wrong weak coupling)'
DEMO='\nimport numpy as np\nfrom hazma.rh_neutrino import RHNeutrino\nfrom hazma.rh_neutrino import _widths as W\nfrom hazma.phase_space import ThreeBody\nm = RHNeutrino(260.0, 1e-3, "mu")\nml = 105.6583745\nr = []\nfor mx in (260.0, 3000.0):\n    m.mx = mx\n    tb = ThreeBody(mx, (0.0, ml, ml), msqrd=lambda s, t: W._msqrd_v_l_l(s, t, m, ml))\n    r.append(tb.integrate(method="quad")[0] / (2 * mx) / W._width_v_l_l(m, 1))\nassert abs(r[0] / r[1] - 1) < 1e-3, r\n'
