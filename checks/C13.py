"""Energy resolutions (constant, rising, falling, step; scalar-only or vectorised callbacks; 0.2%-40%), ranges of 0.3 to 4 decades,
continuum shapes, edges and lines inside/outside the range.  Oracle: the smearing integral by independent quadrature with a normalised
Gaussian of width res(E)*E at the true energy; linearity, count conservation, narrow limit; model-level convolved photon and positron
spectra of generated models; marginalisation against direct trapezoid/Simpson sums."""
import math
import numpy as np
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl, signed
from checks import stubs as M
from ref.ps import gl
from hazma.parameters import convolved_spectrum_fn, spec_res_fn
from hazma.spectra import convolve as CV

ASSUMPTIONS = ["true energies contribute from 0.1 e_min to 10 e_max (the padding the package documents), values between grid points are linear"]


def res_fn(spec, vec=True):
    kind, r, e0 = spec
    if kind == "const":
        f = lambda e: r
    elif kind == "rise":
        f = lambda e: r * (e / e0) ** 0.3
    elif kind == "fall":
        f = lambda e: r * (e / e0) ** -0.25
    elif kind == "intstep":        # a scalar-only callback whose first branch is the plain integer 1
        f = lambda e: 1 if e < e0 else r
    else:
        f = (lambda e: np.where(e < e0, r, 1.7 * r)) if vec else (lambda e: r if e < e0 else 1.7 * r)
    return f


RES = st.tuples(st.sampled_from(["const", "rise", "fall", "step"]), logfl(0.01, 0.3), logfl(0.3, 300))
RANGE = st.tuples(logfl(0.1, 100), fl(1.3, 100)).map(lambda t: (t[0], t[0] * t[1]))


def gauss(ep, e, s):
    return np.exp(-0.5 * ((ep - e) / s) ** 2) / (math.sqrt(2 * math.pi) * s)


def smear(f, lo, hi, res, ep, breaks=()):
    """int_{0.1 lo}^{10 hi} f(e) G(ep|e) de in log e, panels of one width or less."""
    a, b = math.log(0.1 * lo), math.log(10 * hi)
    # only e with |ep - e| < 9 sigma contribute
    g = np.linspace(a, b, 4000)
    s = np.exp(g) * np.asarray([float(res(x)) for x in np.exp(g)])
    inside = np.nonzero(np.abs(ep - np.exp(g)) < 9 * s)[0]
    if not len(inside):
        return 0.0
    a2, b2 = g[max(inside[0] - 1, 0)], g[min(inside[-1] + 1, len(g) - 1)]
    pts = sorted({a2, b2, *[x for x in (math.log(k) for k in breaks if k > 0) if a2 < x < b2]})
    x, w = gl(16)
    tot = 0.0
    for u, v in zip(pts[:-1], pts[1:]):
        n = max(4, min(400, int((v - u) / 0.005)))
        ed = np.linspace(u, v, n + 1)
        y = (0.5 * (ed[1:] + ed[:-1])[:, None] + 0.5 * (ed[1:] - ed[:-1])[:, None] * x).ravel()
        ww = (0.5 * (ed[1:] - ed[:-1])[:, None] * w).ravel()
        e = np.exp(y)
        sg = e * np.broadcast_to(np.asarray([float(res(t)) for t in e]), e.shape)
        tot += np.sum(ww * e * f(e) * gauss(ep, e, sg))
    return tot


def tol(spec, r):
    r = max(r, spec[1])
    return 1e-2 + 0.3 * r * r + (0.04 if spec[0] == "step" else 0)


def knots(lo, hi, n):
    return np.geomspace(lo, hi, n)


@oracle(st.tuples(RES, logfl(0.01, 1e4), st.lists(signed(fl(0, 6)), min_size=1, max_size=6), st.booleans(), fl(0.7, 1.4), st.integers(0, 2)), quick=1500)
def response(case):
    spec, e, us, vec, g, mode = case
    if mode == 0:
        spec = ("intstep", spec[1], e * g)      # the step lies among the energies
    elif mode == 1:
        spec = (spec[0], spec[1], e * g)
    res = res_fn(spec, vec)
    s = e * float(res(e))
    ep = np.array([e + u * s for u in us])
    got = cut(spec_res_fn, ep, e, res)
    close(got, gauss(ep, e, s), 1e-10, "response at fixed true energy")
    es = np.array([e * (1 + 0.3 * u) for u in us if 1 + 0.3 * u > 0.05] or [e])
    got = cut(spec_res_fn, e, es, res)
    sg = np.array([x * float(res(x)) for x in es])
    close(got, gauss(e, es, sg), 1e-9, "response at fixed measured energy (width from the true energy)", scale=1e-250)
    close(cut(spec_res_fn, float(ep[0]), e, res), gauss(ep[0], e, s), 1e-10, "scalar response")
    return spec[0]


@oracle(st.tuples(RES, RANGE, M.SHAPE, fl(0.02, 1.5), st.integers(5, 300), st.booleans(), st.lists(fl(0, 1), min_size=1, max_size=2)), quick=150, thorough=2500)
def continuum(case):
    spec, (lo, hi), sh, u, n, vec, ws = case
    res = res_fn(spec, vec)
    emax = lo * (hi / lo) ** u * 2
    f = M.shape_fn(sh, emax)
    got = cut(convolved_spectrum_fn, lo, hi, res, spec_fn=f, n_pts=n)
    k = knots(lo, hi, n)
    for w in ws:
        i = min(int(w * n), n - 1)
        ep = float(k[i])
        ref = smear(f, lo, hi, res, ep, (emax, spec[2]))
        close(float(got(min(max(ep, lo), hi))), ref, tol(spec, float(res(ep))), "smeared continuum at %r" % ep, scale=0.1 * float(np.max(f(np.geomspace(0.1 * lo, 10 * hi, 400)))))
    for x in (lo * 0.999, hi * 1.001):
        try:
            got(x)
        except ValueError:
            continue
        require(False, "energy outside the range accepted")
    finite_nonneg(got(k[1:-1]), "convolved spectrum")
    return spec[0]


@oracle(st.tuples(RES, RANGE, st.lists(st.tuples(st.sampled_from(["g g", "pi0 g", "e e", "mu mu"]), fl(-0.3, 1.3), logfl(1e-3, 1)), min_size=1, max_size=3, unique_by=lambda t: t[0]),
                  M.SHAPE, st.integers(10, 200)), quick=500)
def lines(case):
    spec, (lo, hi), ls, sh, n = case
    res = res_fn(spec)
    L = {c: dict(energy=lo * (hi / lo) ** u, bf=b) for c, u, b in ls}
    f = M.shape_fn(sh, hi)
    k = knots(lo, hi, n)[1:-1]
    got = cut(convolved_spectrum_fn, lo, hi, res, lines=L, n_pts=n)(k)
    ref = np.zeros_like(k)
    for c, l in L.items():
        ref += l["bf"] * (2 if c == "g g" else 1) * gauss(k, l["energy"], l["energy"] * float(res(l["energy"])))
    close(got, ref, 1e-8, "smeared lines", scale=1e-12 * ref.max() + 1e-300)
    both = cut(convolved_spectrum_fn, lo, hi, res, spec_fn=f, lines=L, n_pts=n)(k)
    cont = cut(convolved_spectrum_fn, lo, hi, res, spec_fn=f, n_pts=n)(k)
    close(both, cont + got, 1e-10, "continuum and lines add", scale=1e-12 * (ref.max() + cont.max()))
    null = cut(convolved_spectrum_fn, lo, hi, res, n_pts=n)(k)
    require(np.all(null == 0), "no input gives counts")
    # count conservation for a line well inside
    for c, l in L.items():
        e = l["energy"]
        s = e * float(res(e))
        if lo < e - 7 * s and e + 7 * s < hi:
            one = cut(convolved_spectrum_fn, lo, hi, res, lines={c: l}, n_pts=int(20 * math.log(hi / lo) * e / s) + 10)
            close(one.integral(lo, hi), l["bf"] * (2 if c == "g g" else 1), 5e-3, "particles in the line")
    return ["%d lines" % len(L)]


@oracle(st.tuples(RES, RANGE, M.SHAPE, M.SHAPE, signed(logfl(0.1, 10)), logfl(0.1, 10)), quick=150, thorough=2000)
def linear(case):
    spec, (lo, hi), s1, s2, a, b = case
    res = res_fn(spec)
    f, g = M.shape_fn(s1, hi), M.shape_fn(s2, hi * 0.7)
    k = knots(lo, hi, 60)[1:-1]
    F, G = [cut(convolved_spectrum_fn, lo, hi, res, spec_fn=x, n_pts=60)(k) for x in (f, g)]
    H = cut(convolved_spectrum_fn, lo, hi, res, spec_fn=lambda e: a * f(e) + b * g(e), n_pts=60)(k)
    close(H, a * F + b * G, 1e-9, "linearity", scale=1e-9 * np.max(abs(a) * F + b * G))
    # energies in other units
    lam = b * 7
    K = cut(convolved_spectrum_fn, lo * lam, hi * lam, lambda e: res(e / lam), spec_fn=lambda e: f(e / lam) / lam, n_pts=60)(k * lam) * lam
    close(K, F, 1e-6, "change of energy unit", scale=1e-8 * np.max(F))
    return spec[0]


@oracle(st.tuples(RES, logfl(0.1, 100), fl(0.05, 0.4), st.integers(2, 5), logfl(1e-3, 1e3)), quick=100, thorough=1500)
def conservation(case):
    """A spectrum supported well inside the range keeps its number of particles."""
    spec, e0, width, p, amp = case
    spec = (spec[0], min(spec[1], 0.12), e0)
    res = res_fn(spec)
    a, b = e0 * (1 - width), e0 * (1 + width)

    def f(e):
        x = (e - a) / (b - a)
        return np.where((x > 0) & (x < 1), amp * np.abs(x * (1 - x)) ** p, 0.0)
    lo, hi = a / 8, b * 8
    got = cut(convolved_spectrum_fn, lo, hi, res, spec_fn=f, n_pts=800).integral(lo, hi)
    x, w = gl(40)
    e = 0.5 * (a + b) + 0.5 * (b - a) * x
    tot = float(np.sum(w * f(e)) * 0.5 * (b - a))
    close(got, tot, 4e-3, "number of particles")
    return spec[0]


@oracle(st.tuples(M.SHAPE, RANGE, logfl(3e-4, 3e-3), fl(0.05, 0.9)), quick=40, thorough=400)
def narrow(case):
    sh, (lo, hi), r, u = case
    f = M.shape_fn(sh, hi * 2)
    got = cut(convolved_spectrum_fn, lo, hi, lambda e: r, spec_fn=f, n_pts=21)
    k = knots(lo, hi, 21)[1:-1]
    close(got(k), f(k), 3e-3, "vanishing width returns the spectrum", scale=1e-3 * f(k).max())
    return True


@oracle(st.tuples(M.channels(), RES, st.booleans(), fl(2, 2.2), st.integers(20, 120)), quick=120, thorough=2000)
def model(case):
    d, spec, dec, q, n = case
    spec = (spec[0], spec[1], d["mx"])
    res = res_fn(spec)
    mod = M.Dec(d) if dec else M.Ann(d)
    e_cm = None if dec else q * d["mx"]
    top = (d["mx"] if dec else e_cm) / 2
    lo, hi = 0.05 * top, 1.3 * top
    for key, name in (("photon", "total_conv_spectrum_fn"), ("positron", "total_conv_positron_spectrum_fn")):
        a = (lo, hi) + (() if dec else (e_cm,)) + (res,)
        got = cut(getattr(mod, name), *a, n_pts=n)
        k = knots(lo, hi, n)[1:-1]
        f = lambda e: M.continuum(mod, key, e, e_cm)
        idx = [0, len(k) // 2, len(k) - 1]
        ref = np.array([smear(f, lo, hi, res, float(x), (top, spec[2])) for x in k[idx]])
        for e, num in M.lines(mod, "gline" if key == "photon" else "eline", e_cm):
            ref = ref + num * gauss(k[idx], e, e * float(res(e)))
        close(got(k[idx]), ref, tol(spec, spec[1]), "%s of a %s model" % (name, mod.kind), scale=0.1 * max(ref.max(), np.max(f(np.linspace(lo, hi, 50)))) + 1e-12)
    return mod.kind


@oracle(st.tuples(st.integers(2, 9), fl(1, 100), fl(1.1, 5), st.lists(fl(0.1, 2), min_size=9, max_size=9), st.lists(logfl(0.01, 10), min_size=1, max_size=5),
                  st.sampled_from(["trapz", "simpson"]), fl(0.5, 2), st.booleans()), quick=600)
def marginal(case):
    n, c0, ratio, pr, es, method, a, wobble = case
    cm = np.linspace(c0, c0 * ratio, n)
    if wobble:
        cm = c0 * np.linspace(1, math.sqrt(ratio), n) ** 2
    p, es = np.array(pr[:n]), np.array(es)
    f = lambda e, c, k=1.0: k * np.exp(-e / c) / c
    vals = np.array([[pp * f(e, c, a) for e in es] for pp, c in zip(p, cm)])
    if method == "trapz":
        ref = np.sum(0.5 * (vals[1:] + vals[:-1]) * np.diff(cm)[:, None], axis=0)
    else:
        from scipy.integrate import simpson
        ref = simpson(vals, x=cm, axis=0)
    for v in (True, False):
        got = cut(CV.marginalize, f, es, cm, p, method=method, vectorized=v, args=(a,))
        close(got, ref, 1e-12, "marginalised spectrum (vectorized=%s)" % v)
        got = cut(CV.make_marginal_fn, f, list(cm), list(p), method=method, vectorized=v, args=(a,))(es)
        close(got, ref, 1e-12, "marginalising function")
    sc = cut(CV.make_marginal_fn, lambda e, c: f(e, c) if np.ndim(e) == 0 else 1 / 0, cm, p, method=method)(es)
    close(sc * a, ref, 1e-12, "element-by-element function")
    return method
