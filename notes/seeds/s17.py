ID='c22-cold-bath'
PROPERTY='C22'
EDITS=[('rust/src/kernels/vector_xs.rs', '    let two_k2 = 2.0 * bessel_kn(2, xnew);\n', '    let two_k2 = if xnew > 100.0 {\n        (2.0 * std::f64::consts::PI / xnew).sqrt() * (-xnew).exp() * (1.0 + 7.0 / (8.0 * xnew))\n    } else {\n        2.0 * bessel_kn(2, xnew)\n    };\n')]
NEEDS='a bath colder than a hundredth of the dark-matter mass'
BREAKS='an asymptotic expansion with a wrong coefficient normalises the average'
DEMO='\nfrom hazma.vector_mediator import KineticMixing\nm = KineticMixing(250.0, 1e4, 1.0, 0.1)\na, b = m.thermal_cross_section(99.9999), m.thermal_cross_section(100.0001)\nassert a > 0 and abs(a / b - 1) < 1e-3, (a, b)\n'
