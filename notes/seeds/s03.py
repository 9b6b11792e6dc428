ID="c11-fsr-unequal-masses"; PROPERTY="C11"
EDITS=[("hazma/spectra/_fsr.py","pre = photon_energy / (4.0 * np.pi**2) * _dphi2(sp, m1, m2) * 0.5","pre = photon_energy / (4.0 * np.pi**2) * _dphi2(sp, max(m1, m2), max(m1, m2)) * 0.5")]
NEEDS="two charged particles of different masses"
BREAKS="the hadronic phase space of the photon spectrum uses one mass twice"
DEMO='''
import numpy as np
from hazma import spectra as S
one = lambda p: 1.0
Q, m1, m2, e = 10.0, 1.0, 4.0, 2.0
s = Q * Q - 2 * Q * e
k = lambda s: np.sqrt((s - (m1 + m2) ** 2) * (s - (m1 - m2) ** 2)) / s
got = S.dnde_photon_fsr(e, Q, [m1, m2], one, one).dnde
want = e / (4 * np.pi ** 2) * k(s) / k(Q * Q)
assert abs(got / want - 1) < 1e-5, (got, want)
'''
