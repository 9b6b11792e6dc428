ID='c19-rhn-stale-configuration'
PROPERTY='C19'
EDITS=[('hazma/rh_neutrino/_model.py', '        self._lstr = val\n        self._ml = sm_masses[val]\n        self._config = rhn_configure.configure(self, form_factor=self._ff_pi)\n', '        reconfigure = self._lstr != val and self._ml != sm_masses[val]\n        self._lstr = val\n        if reconfigure:\n            self._config = rhn_configure.configure(self, form_factor=self._ff_pi)\n        self._ml = sm_masses["e"] if val == "e" else self._ml\n        if val != "e":\n            self._ml = max(self._ml, sm_masses[val])\n')]
NEEDS='a right-handed neutrino whose flavour is reassigned from tau to mu'
BREAKS='the lepton mass stays that of the tau'
DEMO='\nfrom hazma.rh_neutrino import RHNeutrino\nm = RHNeutrino(500.0, 1e-3, "tau")\nm.flavor = "mu"\nassert abs(m.ml - 105.66) < 0.1, m.ml\n'
