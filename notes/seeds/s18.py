ID='c23-heff-derivative'
PROPERTY='C23'
EDITS=[('hazma/relic_density/_thermal_functions.py', '        * (_sm_heff_deriv(T) * T + 3.0 * sm_dof_entropy(T))  # type: ignore', '        * (3.0 * sm_dof_entropy(T))  # type: ignore')]
NEEDS='temperatures where the number of degrees of freedom changes (near the QCD transition)'
BREAKS='the entropy derivative ignores the change in degrees of freedom'
DEMO='\nimport numpy as np\nfrom hazma.relic_density import _thermal_functions as T\nt = 180.0\nh = 0.01\nnum = (T.sm_entropy_density(t + h) - T.sm_entropy_density(t - h)) / (2 * h)\nassert abs(T.sm_entropy_density_deriv(t) / num - 1) < 1e-3, (T.sm_entropy_density_deriv(t), num)\n'
