ID='c27-background-derivative'
PROPERTY='C27'
EDITS=[('hazma/gamma_ray_parameters.py', '        dg_g = -f_g * np.log(eec) * eec**gamma', '        dg_g = -f_g * np.log(eec) * eec**gamma * np.sign(1.0 - eec)')]
NEEDS='photon energies above the exponential cut-off of the galactic background'
BREAKS='the derivative with respect to the exponential index has the wrong sign there'
DEMO='\nimport numpy as np\nfrom hazma.gamma_ray_parameters import GalacticCenterBackgroundModel as B\nb = B()\ne = 1.5 * b.galactic_exponential_cutoff\nd = b.derivatives(e)["galactic_exponential_index"]\nh = 1e-5\ng = b.galactic_exponential_index\nbp, bm = B(galactic_exponential_index=g + h), B(galactic_exponential_index=g - h)\nnum = (bp.dPhi_dEdOmega(e) - bm.dPhi_dEdOmega(e)) / (2 * h)\nassert abs(d / num - 1) < 1e-3, (d, num)\n'
