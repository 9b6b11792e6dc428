ID='c16-width-propagator'
PROPERTY='C16'
EDITS=[('hazma/vector_mediator/_gev/cross_sections.py', '    den = ((1.0 - muv2) ** 2 + mug2 * muv2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3', '    den = ((1.0 - muv2) ** 2 + mug2) * np.sqrt(1.0 - 4.0 * mux2) * cme**3')]
NEEDS="the pi0 pi0 gamma channel on the mediator's resonance, away from which nothing changes noticeably"
BREAKS='the propagator of that channel uses Gamma^2 s instead of Gamma^2 M^2'
DEMO='\nfrom hazma.vector_mediator import KineticMixingGeV\nm = KineticMixingGeV(300.0, 1500.0, 2.0, 1e-2)\nw = m.width_v()\nassert w > 20, w\nfrom hazma.form_factors.vector import VectorFormFactorPi0Omega\nf = VectorFormFactorPi0Omega()\nq = 1300.0\na = m.sigma_xx_to_pi0_pi0_gamma(q)\nb = 0.0834 * f.cross_section(q=q, mx=m.mx, mv=m.mv, gvxx=m.gvxx, wv=w, couplings=m._couplings)\nassert abs(a / b - 1) < 1e-6, (a, b)\n'
