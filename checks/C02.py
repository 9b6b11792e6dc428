"""Phase-space integrals of generated matrix elements against exact volumes, Gauss-Legendre Dalitz integrals and moments, across
methods, signatures, batches and reassignment.  Non-trivial: above threshold with a non-zero integral; classes record what was
integrated.  Two-body kinematic helpers are compared with 50-digit arithmetic."""
import mpmath
import numpy as np
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl, seeds, mass_patterns
from ref import ps as R
from hazma.phase_space import Rambo, ThreeBody
try:
    from hazma.phase_space._two_body import TwoBody
except ImportError:  # not part of the public interface
    TwoBody = None
from hazma import utils

ASSUMPTIONS = ["Monte-Carlo comparisons use a 7-sigma band plus 0.2 %"]


@oracle(st.tuples(mass_patterns(2, 6, 0.95), seeds(), st.sampled_from([None, 1000, 2500]), st.integers(0, 3), fl(0.2, 5.0)), quick=100)
def monte_carlo(case):
    mp, seed, batch, kind, c = case
    ms, cme = mp["masses"], mp["cme"]
    k = len(ms)
    N = 10000
    vol = float(R.volume(np.array(cme), ms))
    if kind == 0 or k < 3 or k > 5:
        kind, f, exact = 0, None, vol
    elif kind == 1:
        f, exact = (lambda p: c * p[0, k - 1] / cme), c * R.moment_energy(cme, ms, k - 1, 1, 24)[0] / cme * vol
    elif kind == 2:
        f, exact = (lambda p: c * (p[0, 0] / cme) ** 2), c * R.moment_energy(cme, ms, 0, 2, 24)[0] / cme ** 2 * vol
    else:
        # s_{01}/M^2 through energies of recoil: use sum of dot products with total momentum: sum_i p_i.P = M^2
        f, exact = (lambda p: c * (p[0, 0] + p[0, 1]) / cme), c * (R.moment_energy(cme, ms, 0, 1, 24)[0] + R.moment_energy(cme, ms, 1, 1, 24)[0]) / cme * vol
    r = Rambo(cme, ms, msqrd=f)
    val, err = cut(r.integrate, N, batch_size=batch, seed=seed)
    require(np.isfinite(val) and np.isfinite(err) and err >= 0, "integral %r +- %r", val, err)
    require(abs(val - exact) < 7 * err + 2e-3 * exact, "integral %.6g +- %.2g, exact %.6g", val, err, exact)
    # the reported error is the standard error of the mean
    ws = r.generate(N, seed)[1]
    se = np.std(ws, ddof=1) / np.sqrt(N)
    # batches draw other events than one call does: near-massless weights are constant but for rare outliers, so compare only real spreads
    if se > (1e-6 if batch is None else 1e-3) * exact:
        lim = 1.25 if batch is None else 1.6
        require(1 / lim < err / se < lim, "reported error %.3g, standard error of the mean %.3g", err, se)
    if batch is None:
        close(val, np.mean(ws), 1e-10, "integral vs average weight")
    w, werr = r.decay_width(N, batch_size=batch, seed=seed)
    close(w, val / (2 * cme), 1e-12, "decay width = integral/(2M)")
    close(werr, err / (2 * cme), 1e-12, "decay width error")
    m1, m2 = 0.3 * cme, 0.1 * c * cme
    xs, xerr = r.cross_section(m1, m2, N, batch_size=batch, seed=seed)
    p = float(R.pcm(cme, m1, m2))
    close(xs, val / (4 * p * cme), 1e-10, "cross section = integral/flux")
    close(xerr, err / (4 * p * cme), 1e-10, "cross section error")
    return ["n=%d" % k, "kind=%d" % kind, "batched" if batch else "unbatched"]


@oracle(st.tuples(logfl(1, 1e5), fl(0, 0.999), fl(0, 1), st.lists(fl(-3, 3), min_size=1, max_size=4), fl(0.3, 4)), quick=600)
def two_body(case):
    if TwoBody is None:
        return None
    cme, r, x, co, g = case
    m1, m2 = cme * r * x, cme * r * (1 - x)
    p = float(R.pcm(cme, m1, m2))
    pre = p / (8 * np.pi * cme)
    exact = pre * sum(c * (2.0 / (i + 1) if i % 2 == 0 else 0.0) for i, c in enumerate(co))

    def fz(z):
        return sum(c * z ** i for i, c in enumerate(co))

    def fp(mom):
        require(mom.shape[:2] == (4, 2), "momenta of shape %s passed to matrix element", mom.shape)
        tot = mom[:, 0] + mom[:, 1]
        require(abs(tot[0] - cme) < 1e-9 * cme and np.max(np.abs(tot[1:])) < 1e-9 * cme, "momenta do not add up: %s", tot)
        for i, m in enumerate((m1, m2)):
            require(abs(utils.lnorm_sqr(mom[:, i]) - m * m) < 1e-9 * cme ** 2, "momentum off shell")
        if p == 0:
            return fz(0.0)
        return fz(mom[3, 0] / p)

    sc = pre * sum(abs(c) for c in co) + 1e-300
    flat, _ = cut(TwoBody(cme, [m1, m2]).integrate)
    close(flat, 2 * pre, 1e-7, "flat two-body phase space", scale=1e-9 / np.pi)
    close(flat, float(R.phi2(cme, m1, m2)), 1e-7, "flat two-body phase space", scale=1e-9 / np.pi)
    a, _ = cut(TwoBody(cme, [m1, m2], msqrd=fz).integrate)
    require(abs(a - exact) <= 1e-7 * sc, "angular integral %.9g, exact %.9g", a, exact)
    a, _ = cut(TwoBody(cme, (m1, m2), msqrd=fz, msqrd_signature="z").integrate)
    require(abs(a - exact) <= 1e-7 * sc, "angular integral %.9g, exact %.9g", a, exact)
    b, _ = cut(TwoBody(cme, [m1, m2], msqrd=fp, msqrd_signature="momenta").integrate)
    if r < 0.99:
        require(abs(b - exact) <= 1e-6 * sc, "momentum-signature integral %.9g, exact %.9g", b, exact)
    t = TwoBody(cme / g, [0.0, 0.0])
    t.integrate()
    t.cme = cme
    t.masses = (m1, m2)
    t.msqrd = fz
    close(t.integrate()[0], TwoBody(cme, [m1, m2], msqrd=fz).integrate()[0], 1e-12, "reassigned two-body integrator", scale=1e-12)
    require(t.cme == cme and tuple(t.masses) == (m1, m2), "getters do not return what was assigned")
    return "deg=%d" % (len(co) - 1)


STEP = st.tuples(st.sampled_from(["cme", "masses"]), fl(0.3, 3.0), fl(0.0, 0.9), seeds())


@oracle(st.tuples(mass_patterns(2, 6, 0.9), st.lists(STEP, min_size=1, max_size=5), fl(0.2, 3.0), st.booleans()), quick=150)
def rambo_history(case):
    """Any history of reassignments and integrations: the next integral is the one of a freshly built object."""
    mp, steps, c, flat = case
    cme, ms = mp["cme"], list(mp["masses"])
    k, q0 = len(ms), mp["cme"]
    kw = {} if flat else dict(msqrd=lambda p: c * (p[0, 0] / q0) ** 2)
    r = Rambo(cme, ms, **kw)
    lab = []
    for what, g, frac, seed in steps:
        if what == "cme":
            new = max(cme * g, sum(ms) / 0.95)
            lab.append("cme " + ("down" if new < cme else "up"))
            cme = new
            r.cme = cme
        else:
            w = np.array([1.0 + (seed >> (3 * i)) % 7 for i in range(k)])
            ms = [float(x) for x in w / w.sum() * cme * frac]
            if seed % 5 == 0:
                ms = [0.0] * k
            r.masses = ms if seed % 2 else tuple(ms)
            lab.append("masses")
        fresh = Rambo(cme, ms, **kw)
        n = 400
        a, b = cut(r.integrate, n, seed=seed), fresh.integrate(n, seed=seed)
        close(a[0], b[0], 1e-10, "integral after %s vs fresh object" % (lab,))
        close(a[1], b[1], 1e-8, "error after %s vs fresh object" % (lab,), scale=1e-12 * abs(b[0]))
        if flat:
            vol = float(R.volume(np.array(cme), ms))
            require(abs(a[0] - vol) < 12 * a[1] + 0.02 * vol, "volume after %s: %.6g +- %.2g, exact %.6g", lab, a[0], a[1], vol)
        w1, w2 = r.generate(20, seed)[1], fresh.generate(20, seed)[1]
        close(w1, w2, 1e-10, "weights after %s vs fresh object" % (lab,))
        close(r.decay_width(n, seed=seed)[0], a[0] / (2 * cme), 1e-10, "width after %s" % (lab,))
    return [*set(lab), "n=%d" % k]


POW = st.tuples(st.integers(0, 2), st.integers(0, 2))


def poly(terms, q):
    def f(s, t):
        return sum(c * (s / q ** 2) ** a * (t / q ** 2) ** b for (a, b), c in terms)
    return f


@oracle(st.tuples(mass_patterns(3, 3, 0.95), st.lists(st.tuples(POW, fl(0.1, 2.0)), min_size=1, max_size=3)), quick=60)
def three_body(case):
    mp, terms = case
    ms, q = mp["masses"], mp["cme"]
    vol = float(R.volume(np.array(q), ms))
    flat = cut(ThreeBody(q, ms).integrate)[0]
    close(flat, vol, 1e-4, "flat three-body phase space (quad)")
    f = poly(terms, q)
    ex = R.dalitz(q, ms, f)
    sc = vol * sum(c for _, c in terms)
    v = cut(ThreeBody(q, tuple(ms), msqrd=f).integrate)[0]
    require(abs(v - ex) < 2e-4 * abs(ex) + 1e-12 * sc, "Dalitz integral %.9g, reference %.9g", v, ex)
    v2 = cut(ThreeBody(q, ms, msqrd=f, msqrd_signature="st").integrate)[0]
    require(v2 == v, "default and explicit (s,t) signature differ")

    def fm(p):
        require(np.shape(p)[:2] == (4, 3), "momenta of shape %s passed to matrix element", np.shape(p))
        s = utils.lnorm_sqr(p[:, 1] + p[:, 2])
        t = utils.lnorm_sqr(p[:, 0] + p[:, 2])
        return f(s, t)
    mm = cut(ThreeBody(q, ms, msqrd=fm, msqrd_signature="momenta").integrate)[0]
    require(abs(mm - ex) < 3e-4 * abs(ex) + 1e-12 * sc, "momentum-signature integral %.9g, reference %.9g", mm, ex)
    for fn, sig, e in ((None, None, vol), (f, None, ex)):
        val, err = cut(ThreeBody(q, ms, msqrd=fn, msqrd_signature=sig).integrate, method="rambo", npts=10000)
        require(abs(val - e) < 7 * err + 2e-3 * e, "Monte-Carlo three-body integral %.6g +- %.2g, reference %.6g", val, err, e)
    require(tuple(ThreeBody(0.9 * sum(ms), ms).integrate()) == (0.0, 0.0) if sum(ms) > 1e-6 * q else True, "non-zero below threshold")
    return [mp["kind"], "terms=%d" % len(terms)]


@oracle(st.tuples(mass_patterns(3, 3, 0.8), st.tuples(POW, fl(0.1, 2.0)), st.tuples(POW, fl(0.1, 2.0)), fl(1.0, 2.0), st.permutations(["cme", "masses", "msqrd"]), st.booleans()), quick=25)
def three_body_reassign(case):
    mp, t1, t2, g, order, momenta = case
    ms, q = mp["masses"], mp["cme"]

    def mk(t):
        f = poly([t], q)
        if not momenta:
            return f
        return lambda p: f(utils.lnorm_sqr(p[:, 1] + p[:, 2]), utils.lnorm_sqr(p[:, 0] + p[:, 2]))
    sig = "momenta" if momenta else "st"
    new = {"cme": q * g, "masses": [m / g for m in ms], "msqrd": mk(t2)}
    o = ThreeBody(q, ms, msqrd=mk(t1), msqrd_signature=sig)
    cur = dict(cme=q, masses=ms, msqrd=mk(t1))
    for name in order:
        if name == "masses" or True:
            setattr(o, name, new[name])
            cur[name] = new[name]
    fresh = ThreeBody(cur["cme"], cur["masses"], msqrd=cur["msqrd"], msqrd_signature=sig)
    close(cut(o.integrate)[0], fresh.integrate()[0], 1e-9, "reassigned three-body integrator vs fresh (%s, %s)" % (sig, order))
    return [sig, "->".join(order)]


@oracle(st.tuples(mass_patterns(3, 5, 0.8), seeds(), fl(0.1, 3), fl(0.1, 3)), quick=60)
def linear(case):
    mp, seed, a, b = case
    ms, cme = mp["masses"], mp["cme"]

    def f(p):
        return (p[0, 0] / cme) ** 2

    def g(p):
        return 1 + p[1, 1] * p[1, 0] / cme ** 2
    I = [cut(Rambo(cme, ms, msqrd=h).integrate, 500, seed=seed)[0] for h in (f, g, lambda p: a * f(p) + b * g(p))]
    close(I[2], a * I[0] + b * I[1], 1e-10, "linearity in the matrix element")
    return True


@oracle(st.tuples(logfl(1e-2, 1e5), fl(0, 1), fl(0, 1), st.lists(fl(-1e3, 1e3), min_size=8, max_size=8)), quick=800)
def kinematics(case):
    cme, r, x, v = case
    r = r * (1 - 1e-9)
    m1, m2 = cme * r * x, cme * r * (1 - x)
    mpmath.mp.dps = 50
    M, a, b = mpmath.mpf(cme), mpmath.mpf(m1), mpmath.mpf(m2)
    lam = (M ** 2 - (a + b) ** 2) * (M ** 2 - (a - b) ** 2)
    if m1 + m2 < cme:
        p = float(mpmath.sqrt(max(lam, 0)) / (2 * M))
        close(cut(utils.two_body_momentum, cme, m1, m2), p, 1e-6 if r > 0.9999 else 1e-10, "two-body momentum")
        close(cut(utils.two_body_momentum, cme, m2, m1), p, 1e-6 if r > 0.9999 else 1e-10, "two-body momentum, masses swapped")
        arr = cut(utils.two_body_momentum, np.array([cme, 2 * cme]), m1, m2)
        close(arr[0], p, 1e-6 if r > 0.9999 else 1e-10, "two-body momentum (array)")
        if p > 1e-4 * cme:
            close(cut(utils.cross_section_prefactor, m1, m2, cme), float(1 / (4 * mpmath.sqrt(lam) / 2)), 1e-7, "flux factor")
    s, a2, b2 = cme ** 2, m1 ** 2, m2 ** 2
    ex = mpmath.mpf(s) ** 2 + mpmath.mpf(a2) ** 2 + mpmath.mpf(b2) ** 2 - 2 * (mpmath.mpf(s) * a2 + mpmath.mpf(s) * b2 + mpmath.mpf(a2) * b2)
    for perm in ((s, a2, b2), (b2, s, a2), (a2, b2, s)):
        require(abs(utils.kallen_lambda(*perm) - float(ex)) < 1e-13 * s * s, "Kallen function %.9g, exact %.9g", utils.kallen_lambda(*perm), float(ex))
    p, q = np.array(v[:4]), np.array(v[4:])
    ex = p[0] * q[0] - np.dot(p[1:], q[1:])
    sc = np.sum(np.abs(p * q)) + 1e-300
    for got in (utils.ldot(p, q), utils.minkowski_dot(p, q), utils.ldot(q, p), utils.ldot(p[None, :], q[None, :], axis=1)[0]):
        require(abs(got - ex) <= 1e-12 * sc, "Minkowski product %.9g, expected %.9g", got, ex)
    require(abs(utils.lnorm_sqr(p) - (p[0] ** 2 - np.dot(p[1:], p[1:]))) <= 1e-12 * np.dot(p, p) + 1e-300, "Minkowski norm")
    require(bool(utils.kinematically_accessable(cme, [m1, m2])) == (cme > m1 + m2), "threshold")
    return True
