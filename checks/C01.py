"""Generated (E_cm, masses, event count, batch, seed, matrix element) and reassignment histories; every event of every case is
checked against four-momentum conservation, the mass shell and the exact weight formula's first moments.  A case is
non-trivial when events were generated above threshold; classes record the mass pattern and multiplicity."""
import numpy as np
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl, seeds, mass_patterns
from ref import ps as R
from hazma.phase_space import Rambo

ASSUMPTIONS = ["statistical comparisons use a 7-sigma band plus 0.2 %"]


def check_events(ps, ws, cme, ms, n, tag=""):
    k = len(ms)
    require(ps.shape == (4, k, n), "momenta have shape %s, expected %s%s", ps.shape, (4, k, n), tag)
    require(ws.shape == (n,), "weights have shape %s%s", ws.shape, tag)
    require(np.all(np.isfinite(ps)), "non-finite momentum%s", tag)
    require(np.all(np.isfinite(ws)) and np.all(ws >= 0), "weight not finite and non-negative%s", tag)
    require(np.mean(ws > 0) > 0.99, "weights vanish%s", tag)
    tot = ps.sum(axis=1)
    require(np.max(np.abs(tot[0] - cme)) < 1e-9 * cme, "energy not conserved: %.3g%s", np.max(np.abs(tot[0] / cme - 1)), tag)
    require(np.max(np.abs(tot[1:])) < 1e-9 * cme, "momentum not conserved: %.3g%s", np.max(np.abs(tot[1:])) / cme, tag)
    m2 = ps[0] ** 2 - (ps[1:] ** 2).sum(axis=0)
    require(np.max(np.abs(m2 - np.array(ms)[:, None] ** 2)) < 1e-10 * cme ** 2, "off shell by %.3g%s",
            np.max(np.abs(m2 - np.array(ms)[:, None] ** 2)) / cme ** 2, tag)
    require(np.all(ps[0] >= np.array(ms)[:, None] * (1 - 1e-12)), "energy below mass%s", tag)


@oracle(st.tuples(mass_patterns(2, 8, 0.98), st.integers(1, 300), seeds(), st.sampled_from(["list", "array", "tuple"])), quick=800)
def events(case):
    mp, n, seed, form = case
    ms = mp["masses"]
    arg = np.array(ms) if form == "array" else (tuple(ms) if form == "tuple" else list(ms))
    r = cut(Rambo, mp["cme"], arg)
    ps, ws = cut(r.generate, n, seed)
    check_events(ps, ws, mp["cme"], ms, n)
    ps2, ws2 = r.generate(n, seed)
    require(np.array_equal(ps, ps2) and np.array_equal(ws, ws2), "same seed gives different events")
    ps3, _ = r.generate(n, seed + 1)
    require(not np.array_equal(ps, ps3), "different seeds give the same events")
    return ["n=%d" % len(ms), mp["kind"]]


@oracle(st.tuples(mass_patterns(2, 5, 0.95), st.integers(1, 200), st.integers(1, 80), seeds(), fl(0.1, 3.0)), quick=300)
def batches(case):
    """The generator delivers at least the requested events in batches, each of them valid, with the matrix element folded in."""
    mp, n, b, seed, c = case
    ms, cme = mp["masses"], mp["cme"]
    seen = []

    def msqrd(p):
        return c * (p[0, 0] / cme) ** 2

    plain = Rambo(cme, ms)
    r = Rambo(cme, ms, msqrd=msqrd)
    tot, got = 0, []
    for ps, ws in r.generator(n, b, seed):
        check_events(ps, ws, cme, ms, ps.shape[-1])
        tot += ps.shape[-1]
        got.append(ws)
        seen.append(ps)
    require(tot >= n, "generator delivered %d of %d events", tot, n)
    require(tot < n + b, "generator delivered %d events for %d requested in batches of %d", tot, n, b)
    for (ps, ws), w1, p1 in zip(plain.generator(n, b, seed), got, seen):
        require(np.array_equal(ps, p1), "events depend on the matrix element")
        close(w1, ws * msqrd(ps), 1e-12, "weight times squared matrix element")
    if len(seen) > 1:
        require(not np.array_equal(seen[0], seen[1]), "consecutive batches repeat the same events")
    return ["batches=%d" % min(len(seen), 5)]


@oracle(st.tuples(mass_patterns(2, 5, 0.9), mass_patterns(2, 5, 0.9), st.lists(st.sampled_from(["cme", "masses", "both", "gen"]), min_size=1, max_size=5), fl(0.3, 3.0), seeds()), quick=400)
def reassign(case):
    """Any sequence of reassignments is equivalent to a fresh generator."""
    a, b, ops, f, seed = case
    cme, ms = a["cme"], list(a["masses"])
    r = Rambo(cme, ms)
    for op in ops:
        if op == "gen":
            r.generate(5, seed)
        if op in ("cme",):
            cme = max(cme * f, sum(ms) * 1.05 + 1e-6)
            r.cme = cme
        if op == "masses":
            s = sum(b["masses"])
            ms = [x / b["cme"] * cme for x in b["masses"]]
            r.masses = np.array(ms)
        if op == "both":
            if b["cme"] > cme:
                cme, ms = b["cme"], list(b["masses"])
                r.cme = cme
                r.masses = np.array(ms)
    ps, ws = cut(r.generate, 40, seed)
    check_events(ps, ws, cme, ms, 40, " after reassignment")
    p2, w2 = Rambo(cme, ms).generate(40, seed)
    close(ps, p2, 1e-8, "momenta after reassignment vs fresh generator", scale=cme)
    close(ws, w2, 1e-8, "weights after reassignment vs fresh generator")
    return ops


@oracle(st.tuples(mass_patterns(2, 6, 0.9), seeds()), quick=60, thorough=1500)
def distribution(case):
    """First moments of the weighted events: volume, <E_i>, isotropy in every direction for every particle."""
    mp, seed = case
    ms, cme = mp["masses"], mp["cme"]
    k = len(ms)
    N = 20000
    ps, ws = Rambo(cme, ms).generate(N, seed)

    def mean(x):
        m = np.mean(x)
        return m, np.std(x) / np.sqrt(N)

    vol = float(R.volume(np.array(cme), ms))
    m, s = mean(ws)
    require(abs(m - vol) < 7 * s + 1e-3 * vol, "mean weight %.6g, exact phase-space volume %.6g (sigma %.2g)", m, vol, s)
    wn = ws / vol
    p = np.sqrt((ps[1:] ** 2).sum(axis=0))
    for i in range(k):
        if k > 2 and k < 6:
            e1, _ = R.moment_energy(cme, ms, i, 1, 24)
            m, s = mean(wn * ps[0, i])
            require(abs(m - e1) < 7 * s + 2e-3 * e1, "<E_%d> = %.6g, exact %.6g (sigma %.2g)", i, m, e1, s)
        pi = np.where(p[i] > 0, p[i], 1)
        for ax in (1, 2, 3):
            c = ps[ax, i] / pi
            m, s = mean(wn * c)
            require(abs(m) < 7 * s + 2e-3, "particle %d prefers direction %d: <cos> = %.4g (sigma %.2g)", i, ax, m, s)
            m, s = mean(wn * c * c)
            require(abs(m - 1 / 3) < 7 * s + 2e-3, "particle %d anisotropic: <cos^2> = %.4g along %d (sigma %.2g)", i, m, ax, s)
        m, s = mean(wn * ps[1, i] * ps[2, i] / pi ** 2)
        require(abs(m) < 7 * s + 2e-3, "particle %d azimuth correlated", i)
        q = ps[1, i] * ps[3, i] / pi ** 2
        m, s = mean(wn * q)
        require(abs(m) < 7 * s + 2e-3, "particle %d directions correlated", i)
    return ["n=%d" % k, mp["kind"]]
