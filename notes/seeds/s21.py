ID='c26-dec-line-swap'
PROPERTY='C26'
EDITS=[('hazma/single_channel.py', '                (mx**2 - m1**2 + m2**2) / (2 * mx),\n            ]\n\n            if s1 == "e":\n                lines[self.fs] = energies[0]\n            elif s2 == "e":\n                lines[self.fs] = energies[1]\n', '                (mx**2 - m1**2 + m2**2) / (2 * mx),\n            ]\n\n            if s1 == "e" or s2 == "e":\n                lines[self.fs] = energies[0]\n')]
NEEDS='a decay into an electron and a heavier particle, with the electron listed second'
BREAKS='the positron line takes the energy of the other particle'
DEMO='\nfrom hazma.single_channel import SingleChannelDec\na = SingleChannelDec(400.0, "pi e", 1.0).positron_lines()["pi e"]["energy"]\nb = SingleChannelDec(400.0, "e pi", 1.0).positron_lines()["e pi"]["energy"]\nassert abs(a - b) < 1e-9, (a, b)\n'
