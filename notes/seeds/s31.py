ID="c08-slow-muon-at-rest"; PROPERTY="C08"
EDITS=[("rust/src/kernels/photon_muon.rs","""    if emu - MASS_MU < f64::EPSILON {
        return dnde_photon_muon_rest_frame(egam);""","""    if emu - MASS_MU < 1e-4 * MASS_MU {
        return dnde_photon_muon_rest_frame(egam);""")]
NEEDS="a muon moving so slowly that its kinetic energy is below a ten-thousandth of its mass, and a photon near the end point"
BREAKS="slow muons radiate as if at rest: the Doppler broadening of the end point (1.4 per cent) is dropped"
DEMO='''
import numpy as np
from hazma import spectra as S
from hazma.parameters import muon_mass as mm
g = 1.00009
b = np.sqrt(g * g - 1) / g
e = np.array([mm / 2 * 0.999])
v = S.dnde_photon_muon(e, mm * g)
assert v[0] > 0, v
# approaches the rest-frame spectrum smoothly, order beta squared in the middle, but must not equal it exactly
w = S.dnde_photon_muon(np.array([30.0]), mm * g)
r = S.dnde_photon_muon(np.array([30.0]), mm)
assert w[0] != r[0] and abs(w[0] / r[0] - 1) < 0.01
'''
