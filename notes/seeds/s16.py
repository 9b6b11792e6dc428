ID='c21-pion-fsr-endpoint'
PROPERTY='C21'
EDITS=[('hazma/vector_mediator/_vector_mediator_fsr.py', '        x_max = 1 - 4.0 * mu_pi**2', '        x_max = (1 - 2.0 * mu_pi) ** 2 + 2.0 * mu_pi * (1 - 2.0 * mu_pi)')]
NEEDS='a photon between 1 - 2 m/Q and 1 - 4 m^2/Q^2 of the end point'
BREAKS='the hardest photons of pion radiation are cut off'
DEMO='\nfrom hazma.vector_mediator import KineticMixing\nm = KineticMixing(200.0, 1e3, 1.0, 1e-2)\nq = 600.0\nfrom hazma.parameters import charged_pion_mass as mpi\nxm = 1 - 4 * (mpi / q) ** 2\nv = m.dnde_xx_to_v_to_pipig(0.9 * xm * q / 2, q)\nassert v > 0, v\n'
