ID='c06-kn-order'
PROPERTY='C06'
EDITS=[('rust/src/special.rs', '    match n.unsigned_abs() {\n        0 => x.bessel_k0(),', '    match n.max(0).unsigned_abs() {\n        0 => x.bessel_k0(),')]
NEEDS='a negative order'
BREAKS='K_{-n} is returned as K_0 instead of K_n'
DEMO='\nimport hazma._core as c\nspecial = c.special\nfrom scipy.special import kn\nf = special.bessel_kn\nassert abs(f(-2, 1.5) / kn(2, 1.5) - 1) < 1e-10, f(-2, 1.5)\n'
