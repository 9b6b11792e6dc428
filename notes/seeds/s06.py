ID="c04-delta-threshold"; PROPERTY="C04"
EDITS=[("rust/src/boost.rs","        return 1.0 / (2.0 * gamma * beta * k0);","        return 1.0 / (2.0 * gamma * beta * if m < 0.1 * e0 { e0 } else { k0 });")]
NEEDS="a boosted line of a particle whose mass is nonzero but below a tenth of its energy"
BREAKS="the boosted line of a light massive particle is not normalised to one"
DEMO='''
import numpy as np
from hazma._core import boost
import hazma._core as c
f = [getattr(boost, n) for n in dir(boost) if "delta" in n][0]
e0, m, beta = 10.0, 0.99, 0.5
g = 1 / np.sqrt(1 - beta ** 2); k = np.sqrt(e0 ** 2 - m ** 2)
lo, hi = g * (e0 - beta * k), g * (e0 + beta * k)
v = f(e0, 0.5 * (lo + hi), m, beta)
assert abs(v * (hi - lo) - 1) < 1e-6, v * (hi - lo)
'''
