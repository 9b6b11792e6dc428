ID='c14-pion-width-mass'
PROPERTY='C14'
EDITS=[('hazma/scalar_mediator/_scalar_mediator_widths.py', '                    -162 * gsGG * lam**3 * (-2 * mpi**2 + ms**2) * vh**2\n', '                    -162 * gsGG * lam**3 * (-2 * mpi**2 + ms**2) * vh**2 * (1 if gsGG > 0 else -1)\n')]
NEEDS='a negative gluon coupling together with a non-zero fermion coupling'
BREAKS='the relative sign of the two contributions to S -> pi pi is lost for negative couplings'
DEMO='\nfrom hazma.scalar_mediator import ScalarMediator\na = ScalarMediator(100.0, 500.0, 1.0, 0.5, 0.7, 0.0, 2e5).partial_widths()["pi pi"]\nb = ScalarMediator(100.0, 500.0, 1.0, -0.5, -0.7, 0.0, 2e5).partial_widths()["pi pi"]\nassert abs(a / b - 1) < 0.05, (a, b)\n'
