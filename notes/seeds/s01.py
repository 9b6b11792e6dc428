ID="c02-rambo-stale-weight"; PROPERTY="C02"
EDITS=[("hazma/phase_space/_rambo.py","""        self.__cme = val
        self.__xi0 = self._compute_initial_scale()
        self.__base_wgt = self._compute_base_weight()
""","""        rescale = val > self.__cme
        self.__cme = val
        self.__xi0 = self._compute_initial_scale()
        if rescale:
            self.__base_wgt = self._compute_base_weight()
""")]
NEEDS="an existing Rambo object with three or more particles whose energy is lowered by assignment"
BREAKS="the phase-space weight keeps the normalisation of the old energy"
DEMO='''
import numpy as np
from hazma.phase_space import Rambo
r = Rambo(10.0, [1.0, 1.0, 1.0])
r.cme = 5.0
a = r.integrate(20000, seed=1)[0]
b = Rambo(5.0, [1.0, 1.0, 1.0]).integrate(20000, seed=1)[0]
assert abs(a / b - 1) < 1e-6, (a, b)
'''
