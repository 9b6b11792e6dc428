ID='c01-newton'
PROPERTY='C01'
EDITS=[('hazma/phase_space/_rambo.py', '    def _compute_scale_factor(self, ps: np.ndarray, iterations=5) -> np.ndarray:', '    def _compute_scale_factor(self, ps: np.ndarray, iterations=3) -> np.ndarray:')]
NEEDS='several particles whose masses take up a good part of the energy, so that the Newton iteration needs more than three steps'
BREAKS='energies no longer add up to the centre-of-mass energy'
DEMO='\nimport numpy as np\nfrom hazma.phase_space import Rambo\np, w = Rambo(10.0, [1.9] * 5).generate(5000, seed=3)\nassert np.max(np.abs(p[0].sum(axis=0) / 10.0 - 1)) < 1e-10, np.max(np.abs(p[0].sum(axis=0) - 10))\n'
