ID="c12-two-body-energies"; PROPERTY="C12"
EDITS=[("hazma/spectra/_nbody.py","""    e1 = (cme**2 + m1**2 - m2**2) / (2.0 * cme)
    e2 = (cme**2 - m1**2 + m2**2) / (2.0 * cme)
""","""    # both daughters carry the momentum of the pair
    mlight, mheavy = min(m1, m2), max(m1, m2)
    elight = (cme**2 + mlight**2 - mheavy**2) / (2.0 * cme)
    e1, e2 = (elight, cme - elight) if m1 < m2 else (elight, elight)
""")]
NEEDS="a two-body final state of unequal masses with the heavier particle listed first"
BREAKS="the heavier particle decays with the lighter one's energy"
DEMO='''
import numpy as np
from hazma import spectra as S
es = np.geomspace(1, 400, 20)
a = S.dnde_photon(es, 1500.0, ["omega", "pi0"]); b = S.dnde_photon(es, 1500.0, ["pi0", "omega"])
assert np.allclose(a, b, rtol=1e-8), (a, b)
'''
