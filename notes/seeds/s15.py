ID='c20-ppv-lorentz'
PROPERTY='C20'
EDITS=[('hazma/form_factors/vector/_three_body.py', '        return (2 * mv**2 * q**2 + (q**2 + mv**2 - s) ** 2 / 4.0) / (', '        return (2 * mv**2 * q**2 + (q**2 - mv**2 - s) ** 2 / 4.0) / (')]
NEEDS="the Lorentz structure of a vector and two pseudoscalars at energies comparable to the vector's mass"
BREAKS="the polarisation sum uses the pions' energy instead of the vector's"
DEMO='\nimport numpy as np\nfrom hazma.form_factors.vector import VectorFormFactorPiPiOmega\nf = VectorFormFactorPiPiOmega()\nq, s, t = 1300.0, 320.0**2, 930.0**2\nmv = f.fsp_masses[0]\nqk = (q**2 + mv**2 - s) / 2\nwant = (2 + qk**2 / (mv * q) ** 2) / (3 * q**2)\ngot = np.asarray(f.squared_lorentz_structure(q, s, t)).ravel()[0]\nassert abs(got / want - 1) < 1e-6 or got == 0, (got, want)\n'
