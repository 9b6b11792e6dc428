"""Energy and invariant-mass distributions for generated masses, matrix elements, bin counts and methods against bin-integrated
reference densities; expectation values against the exact integral of the piecewise density.  Non-trivial: above threshold;
classes record the method and multiplicity."""
import numpy as np
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl, seeds, mass_patterns
from ref import ps as R
from hazma.phase_space import Rambo, ThreeBody, PhaseSpaceDistribution1D

ASSUMPTIONS = ["Monte-Carlo bins: 7 sigma (effective counts) plus 0.5 % of the total probability"]


def basic(d, nbins, lo, hi, what):
    edges, pr = np.asarray(d.bins, float), np.asarray(d.probabilities, float)
    require(len(pr) == nbins and len(d) == nbins and len(edges) == nbins + 1, "%s: %d bins, %d requested", what, len(pr), nbins)
    close([edges[0], edges[-1]], [lo, hi], 1e-9, what + ": range", scale=1e-9 * max(hi, 1e-9))
    close(np.array(d.limits()), [lo, hi], 1e-9, what + ": limits()", scale=1e-9 * max(hi, 1e-9))
    require(np.all(np.diff(edges) > 0), "%s: edges not ascending", what)
    close(d.bin_centers, 0.5 * (edges[1:] + edges[:-1]), 1e-12, what + ": centres")
    require(np.all(np.isfinite(pr)) and np.all(pr >= 0), "%s: probabilities not finite and non-negative", what)
    close(np.sum(pr * np.diff(edges)), 1.0, 1e-9, what + ": normalisation")


def binned(dens, edges, n=6):
    x, w = R.gl(n)
    lo, hi = edges[:-1, None], edges[1:, None]
    xs = 0.5 * (hi - lo) * x + 0.5 * (hi + lo)
    v = np.sum(dens(xs) * w * 0.5 * (hi - lo), axis=1)
    return v


def weighted_density_E(M, ms, i, f):
    """dPhi/dE_i weighted with f(s,t) for three bodies, by angular quadrature in the recoil frame."""
    j, k = [x for x in range(3) if x != i]
    x, w = R.gl(24)

    def dens(E):
        E = np.asarray(E, float)
        r2 = np.maximum(M * M + ms[i] ** 2 - 2 * M * E, 0)
        ok = (E > ms[i]) & (r2 > (ms[j] + ms[k]) ** 2)
        r2 = np.where(ok, r2, (ms[j] + ms[k] + 1.0) ** 2)
        r = np.sqrt(r2)
        base = np.sqrt(np.maximum(E * E - ms[i] ** 2, 0)) / (4 * np.pi ** 2) * R.phi2(r, ms[j], ms[k])
        ej = (r2 + ms[j] ** 2 - ms[k] ** 2) / (2 * r)
        ei = (M * M - r2 - ms[i] ** 2) / (2 * r)
        pj, pi = R.pcm(r, ms[j], ms[k]), np.sqrt(np.maximum(ei ** 2 - ms[i] ** 2, 0))
        mij = ms[i] ** 2 + ms[j] ** 2 + 2 * ((ei * ej)[..., None] - (pi * pj)[..., None] * x)
        inv = {}
        inv[frozenset((j, k))] = np.broadcast_to(r2[..., None], mij.shape)
        inv[frozenset((i, j))] = mij
        inv[frozenset((i, k))] = M * M + sum(m * m for m in ms) - r2[..., None] - mij
        val = f(inv[frozenset((1, 2))], inv[frozenset((0, 2))])
        return np.where(ok, base * np.sum(val * w / 2, axis=-1), 0.0)
    return dens


@oracle(st.tuples(mass_patterns(3, 3, 0.9), st.integers(5, 25), st.integers(0, 2), st.integers(0, 2), fl(0, 2.0)), quick=200)
def three_body_quad(case):
    mp, nbins, a, b, c = case
    ms, q = mp["masses"], mp["cme"]

    def f(s, t):
        return 1.0 * np.ones_like(s) + c * (s / q ** 2) ** a * (t / q ** 2) ** b
    o = ThreeBody(q, ms, msqrd=None if c == 0 else f)
    ds = cut(o.energy_distributions, nbins)
    require(len(ds) == 3, "%d energy distributions", len(ds))
    for i, d in enumerate(ds):
        emax = (q * q + ms[i] ** 2 - (sum(ms) - ms[i]) ** 2) / (2 * q)
        basic(d, nbins, ms[i], emax, "energy distribution %d" % i)
        dens = weighted_density_E(q, ms, i, f)
        e = dens(d.bin_centers)
        e = e / np.sum(e * np.diff(d.bins))
        close(d.probabilities, e, 2e-3, "energy distribution %d at bin centres" % i, scale=0.02 * np.max(e))
    im = cut(o.invariant_mass_distributions, nbins)
    require(set(im) == {(0, 1), (0, 2), (1, 2)}, "pairs %s", sorted(im))
    for (i, j), d in im.items():
        k = 3 - i - j
        basic(d, nbins, ms[i] + ms[j], q - ms[k], "invariant mass %d%d" % (i, j))
        mu = d.bin_centers
        e = weighted_density_E(q, ms, k, f)((q * q + ms[k] ** 2 - mu ** 2) / (2 * q)) * mu / q
        e = e / np.sum(e * np.diff(d.bins))
        close(d.probabilities, e, 2e-3, "invariant-mass distribution %d%d at bin centres" % (i, j), scale=0.02 * np.max(e))
    return [mp["kind"], "flat" if c == 0 else "msqrd"]


def mc_compare(d, exact, neff, what):
    pr = d.probabilities * np.diff(d.bins)
    ex = exact / np.sum(exact)
    sig = np.sqrt(np.maximum(ex, 1.0 / neff) / neff)
    bad = np.abs(pr - ex) > 7 * sig + 5e-3
    require(not np.any(bad), "%s: bin %s has probability %s, expected %s", what, np.argmax(bad), pr[bad][:1], ex[bad][:1])


@oracle(st.tuples(mass_patterns(3, 5, 0.9), st.integers(3, 15), st.sampled_from([None, 1500, 4000]), seeds(), st.booleans()), quick=60)
def rambo(case):
    mp, nbins, batch, seed, weighted = case
    ms, q = mp["masses"], mp["cme"]
    k = len(ms)
    N = 12000
    if weighted and k == 3:
        def f(p):
            return (p[0, 0] / q) ** 2
    else:
        weighted, f = False, None
    r = Rambo(q, ms, msqrd=f)
    ws = r.generate(N, seed)[1]
    neff = np.sum(ws) ** 2 / np.sum(ws ** 2)
    ds = cut(r.energy_distributions, N, nbins, batch_size=batch, seed=seed)
    require(len(ds) == k, "%d energy distributions for %d particles", len(ds), k)
    for i, d in enumerate(ds):
        emax = (q * q + ms[i] ** 2 - (sum(ms) - ms[i]) ** 2) / (2 * q)
        basic(d, nbins, ms[i], emax, "energy distribution %d" % i)
        if weighted:
            dens = weighted_density_E(q, ms, i, lambda s, t: ((q * q + ms[0] ** 2 - s) / (2 * q * q)) ** 2)
        else:
            def dens(E, i=i):
                return R.energy_density(q, ms, i, E)
        mc_compare(d, binned(dens, d.bins), neff, "energy distribution %d" % i)
    im = cut(r.invariant_mass_distributions, N, nbins, batch_size=batch, seed=seed)
    require(set(im) == {(i, j) for i in range(k) for j in range(i + 1, k)}, "pairs %s", sorted(im))
    for (i, j), d in im.items():
        basic(d, nbins, ms[i] + ms[j], q - (sum(ms) - ms[i] - ms[j]), "invariant mass %d%d" % (i, j))
        if weighted:
            l = 3 - i - j
            wd = weighted_density_E(q, ms, l, lambda s, t: ((q * q + ms[0] ** 2 - s) / (2 * q * q)) ** 2)

            def dens(mu, l=l, wd=wd):
                return wd((q * q + ms[l] ** 2 - mu ** 2) / (2 * q)) * mu
        else:
            def dens(mu, i=i, j=j):
                return R.pair_density(q, ms, i, j, mu)
        mc_compare(d, binned(dens, d.bins, 3 if k == 5 else 6), neff, "invariant mass %d%d" % (i, j))
    return ["n=%d" % k, mp["kind"], "batched" if batch else "unbatched", "weighted" if weighted else "flat"]


@oracle(st.tuples(mass_patterns(3, 3, 0.9), st.integers(4, 12), fl(0, 2)), quick=25)
def three_body_methods(case):
    mp, nbins, c = case
    ms, q = mp["masses"], mp["cme"]

    def f(s, t):
        return 1.0 + c * s / q ** 2
    o = ThreeBody(q, ms, msqrd=None if c < 0.3 else f)
    N = 12000
    a = cut(o.energy_distributions, nbins, method="rambo", npts=N)
    dens_f = (lambda s, t: np.ones_like(s)) if c < 0.3 else f
    for i, d in enumerate(a):
        emax = (q * q + ms[i] ** 2 - (sum(ms) - ms[i]) ** 2) / (2 * q)
        basic(d, nbins, ms[i], emax, "energy distribution %d (Monte Carlo)" % i)
        mc_compare(d, binned(weighted_density_E(q, ms, i, dens_f), d.bins), N / 4, "energy distribution %d (Monte Carlo)" % i)
    b = cut(o.invariant_mass_distributions, nbins, method="rambo", npts=N)
    for (i, j), d in b.items():
        k = 3 - i - j
        basic(d, nbins, ms[i] + ms[j], q - ms[k], "invariant mass %d%d (Monte Carlo)" % (i, j))
        wd = weighted_density_E(q, ms, k, dens_f)
        mc_compare(d, binned(lambda mu: wd((q * q + ms[k] ** 2 - mu ** 2) / (2 * q)) * mu, d.bins), N / 4, "invariant mass %d%d (Monte Carlo)" % (i, j))
    return mp["kind"]


@oracle(st.tuples(fl(0, 100), fl(0.1, 500), st.lists(fl(0.05, 3.0), min_size=5, max_size=60), fl(0.1, 5), st.lists(fl(-2, 2), min_size=1, max_size=3)), quick=500)
def expectation(case):
    """Distribution objects built from arbitrary histograms: normalisation, interpolation, expectation values and their linearity."""
    lo, width, y, scale, co = case
    n = len(y)
    edges = np.linspace(lo, lo + width, n + 1)
    y = np.array(y) * scale
    d = cut(PhaseSpaceDistribution1D, edges, y)
    basic(d, n, lo, lo + width, "distribution")
    close(d.probabilities, y / np.sum(y * np.diff(edges)), 1e-10, "probabilities proportional to input")
    xs = d.bin_centers
    close(d(xs), d.probabilities, 1e-10, "density at bin centres")
    mid = 0.5 * (xs[1:] + xs[:-1])
    close(d(mid), 0.5 * (d.probabilities[1:] + d.probabilities[:-1]), 1e-9, "density between bin centres")
    require(d(lo - 1.0) == 0 and d(lo + width + 1.0) == 0, "density outside the limits is not zero")

    def f(x):
        return sum(c * ((x - lo) / width) ** i for i, c in enumerate(co))
    sc = sum(abs(c) for c in co) + 1e-4
    # exact integral of the piecewise-linear density between the first and last bin centre
    x, w = R.gl(8)
    a, b = xs[:-1, None], xs[1:, None]
    pts = 0.5 * (b - a) * x + 0.5 * (a + b)
    exact = np.sum(np.interp(pts, xs, d.probabilities) * f(pts) * w * 0.5 * (b - a))
    got = {m: float(cut(d.expect, f, method=m)) for m in ("trapz", "simps", "quad")}
    tz = np.trapezoid(d.probabilities * f(xs), x=xs)
    require(abs(got["trapz"] - tz) < 1e-9 * sc, "trapezoid expectation %.9g, expected %.9g", got["trapz"], tz)
    require(abs(got["quad"] - exact) < 2e-2 * sc, "expectation (quad) %.6g, exact %.6g", got["quad"], exact)
    jump = np.max(np.abs(np.diff(d.probabilities))) * (xs[1] - xs[0])
    require(abs(got["simps"] - exact) < 2e-3 * sc + 1.5 * sc * jump * n, "expectation (simps) %.6g, exact %.6g", got["simps"], exact)
    g2 = float(d.expect(lambda x, k: k * f(x), args=(2.5,)))
    require(abs(g2 - 2.5 * got["trapz"]) < 1e-9 * sc, "expectation with extra arguments")
    vec = np.asarray(d.expect(lambda x: np.array([f(x), 1.0, 2.0 * f(x)])))
    require(vec.shape == (3,) and abs(vec[0] - got["trapz"]) < 1e-9 * sc and abs(vec[2] - 2 * vec[0]) < 1e-9 * sc, "vector-valued expectation %s", vec)
    return "n<15" if n < 15 else "n>=15"
