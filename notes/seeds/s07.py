ID="c03-pair-limits"; PROPERTY="C03"
EDITS=[("hazma/phase_space/_utils.py","        mmax = q - msum\n","        mmax = q - max((masses[k] for k in idxs.symmetric_difference({i, j})), default=0.0)\n")]
NEEDS="four or more particles, at least two of them massive"
BREAKS="pair-mass distributions extend beyond the kinematic limit"
DEMO='''
import numpy as np
from hazma.phase_space import Rambo
r = Rambo(10.0, [1.0, 1.5, 1.0, 2.0])
for (i, j), d in r.invariant_mass_distributions(n=2000, nbins=10, seed=1).items():
    rest = [m for k, m in enumerate([1.0, 1.5, 1.0, 2.0]) if k not in (i, j)]
    assert abs(d.bins[-1] - (10 - sum(rest))) < 1e-9, (d.bins[-1], 10 - sum(rest))
'''
