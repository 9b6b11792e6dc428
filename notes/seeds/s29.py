ID='c05-failed-extrapolation'
PROPERTY='C05'
EDITS=[('rust/src/quad.rs', "                if abserr / result.abs() > errsum / area.abs() {\n                    break 'l115;", "                if abserr / result.abs() < errsum / area.abs() {\n                    break 'l115;")]
NEEDS='an integrand for which extrapolation makes progress but the subdivision limit or round-off is reached'
BREAKS='the less accurate of extrapolated and plain result is returned'
DEMO='\nimport hazma._core as c, numpy as np, inspect\nfrom scipy.integrate import quad\nbad = 0\nfor p in (-0.9, -0.8, -0.5):\n    for s in (0.1234, 0.7071):\n        for lim in (8, 12, 20, 50):\n            f = lambda x: abs(x - s) ** p\n            w = quad(f, 0.0, 1.0, limit=lim, epsabs=0, epsrel=1e-10, full_output=1)[0]\n            g = c.quad.quad(f, 0.0, 1.0, 0.0, 1e-10, lim)\n            g = g[0] if isinstance(g, tuple) else g\n            bad += not abs(g - w) <= 1e-9 * abs(w)\nassert bad == 0, bad\n'
