ID='c24-last-window'
PROPERTY='C24'
EDITS=[('hazma/theory/_theory_gamma_ray_limits.py', '        for i, e_low in enumerate(e_grid[:-1]):', '        for i, e_low in enumerate(e_grid[:-2]):')]
NEEDS='a spectrum concentrated in the last energy bin of the grid'
BREAKS='the narrowest window at the top of the energy range is never considered'
DEMO='\nimport numpy as np\nfrom scipy.interpolate import interp1d\nfrom hazma.single_channel import SingleChannelAnn\nfrom hazma.background_model import BackgroundModel\nfrom hazma.target_params import TargetParams\nm = SingleChannelAnn(9.0, "g g", 1.0)\nA = interp1d([1.0, 10.0], [100.0, 100.0], bounds_error=False, fill_value=0.0)\nbg = BackgroundModel([0.1, 100.0], lambda e: 1e-3 + 0 * e)\nt = TargetParams(J=1e28, dOmega=1e-3)\ng = np.array([1.0, 8.0, 10.0])\nlim = lambda grid: m.unbinned_limit(A, lambda e: 0.01 + 0 * e, 1e6, t, bg, e_grid=np.array(grid))\ngot, wide = lim([1.0, 8.0, 10.0]), lim([1.0, 10.0 - 1e-6, 10.0])\nassert got < 0.6 * wide, (got, wide)\n'
