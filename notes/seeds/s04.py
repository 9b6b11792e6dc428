ID="c13-int-resolution"; PROPERTY="C13"
EDITS=[("hazma/parameters.py","return np.vectorize(energy_res, otypes=[float])(e)","return np.vectorize(energy_res)(e)")]
NEEDS="a scalar-only resolution callback whose value at the first energy is an integer"
BREAKS="all later resolutions are truncated to integers, so the response vanishes there"
DEMO='''
import numpy as np
from hazma.parameters import convolved_spectrum_fn
res = lambda e: 1 if e < 0.5 else 0.1
f = convolved_spectrum_fn(1.0, 100.0, res, spec_fn=lambda e: np.exp(-e / 10), n_pts=60)
assert abs(f(10.0) / np.exp(-1) - 1) < 0.02, f(10.0)
'''
