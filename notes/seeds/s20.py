ID='c25-vx-cmb'
PROPERTY='C25'
EDITS=[('hazma/theory/_theory_cmb.py', '                multiplicity = 2.0 if ch == fs else 1.0', '                multiplicity = 2.0 if ch == "g g" else 1.0')]
NEEDS='an annihilation into electron pairs (a line in the electron and positron spectrum)'
BREAKS='only one of the two monochromatic leptons is deposited'
DEMO='\nfrom hazma.single_channel import SingleChannelAnn\nfrom hazma.cmb import f_eff_ep\nm = SingleChannelAnn(100.0, "e e", 1.0)\ngot = m.f_eff_ep()\nassert abs(got / float(f_eff_ep(100.0)) - 1) < 1e-2, (got, float(f_eff_ep(100.0)))\n'
