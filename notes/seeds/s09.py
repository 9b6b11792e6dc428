ID='c15-pi0g-width-coupling'
PROPERTY='C15'
EDITS=[('hazma/vector_mediator/_vector_mediator_widths.py', '                * (self.gvdd + 2 * self.gvuu) ** 2', '                * (self.gvdd**2 + 4 * self.gvuu**2 + 4 * abs(self.gvdd * self.gvuu))')]
NEEDS='quark couplings of opposite sign (up and down)'
BREAKS='the interference of the two quark couplings in V -> pi0 gamma has the wrong sign'
DEMO='\nfrom hazma.vector_mediator import QuarksOnly\na = QuarksOnly(100.0, 500.0, 1.0, 0.5, -1.0, 0.0).width_v_to_pi0g()\nassert abs(a) < 1e-12, a\n'
