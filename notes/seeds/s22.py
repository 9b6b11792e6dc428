ID='c28-kl-beam-dump'
PROPERTY='C28'
EDITS=[('hazma/scalar_mediator/_scalar_mediator_constraints.py', '        width_contr = self.width_kl_pi0_s() * widths_s["e e"] / width_s * pr_vis', '        width_contr = self.width_kl_pi0_s() * widths_s["e e"] / (width_s - widths_s["x x"]) * pr_vis')]
NEEDS='a mediator heavier than twice the dark matter (an open invisible decay)'
BREAKS='the K_L -> pi0 e e rate is not reduced by the invisible branching fraction'
DEMO='\nfrom hazma.scalar_mediator import HiggsPortal\na = HiggsPortal(50.0, 180.0, 1.0, 0.9)\nb = HiggsPortal(50.0, 180.0, 1e-6, 0.9)\ndef rate(m):\n    from hazma.constraint_parameters import kl_pi0_e_e_obs as o\n    return o.width_bound - m.constraint_kl_pi0_e_e()\nra, rb = rate(a), rate(b)\nassert rb > 0 and ra < 0.1 * rb, (ra, rb)\n'
