ID="c09-fast-parent-soft-positron"; PROPERTY="C09"
EDITS=[("hazma/spectra/_positron/_utils.py","""    k = np.sqrt(positron_energy**2 - me**2)
    lb =""","""    # the positron mass is negligible for a fast parent
    k = positron_energy if gamma > 20.0 else np.sqrt(positron_energy**2 - me**2)
    lb =""")]
NEEDS="a tabulated parent boosted beyond gamma = 20 and a positron energy of a few electron masses"
BREAKS="the boost window treats the soft positron as massless, so the spectrum of a fast kaon or eta is wrong just above the electron mass"
DEMO='''
import numpy as np
from scipy import integrate
from hazma import spectra as S
from hazma.parameters import electron_mass as me
from hazma.parameters import charged_kaon_mass as mk
g = 40.0
# rapidity-space check: the boosted spectrum of a parent must vanish like the momentum at the electron mass
e = np.array([1.0001, 1.001, 1.01]) * me
v = S.dnde_positron_charged_kaon(e, mk * g)
k = np.sqrt(e**2 - me**2)
r = v / k
assert np.all(v > 0) and abs(r[0] / r[1] - 1) < 0.05 and abs(r[1] / r[2] - 1) < 0.05, r
'''
