"""Generated dark-matter models (annihilating and decaying; continua, lines, several channels), measurements (contiguous and gapped bins,
errors, powers), targets, effective areas, backgrounds and significances.  Oracle: predicted counts recomputed from the model's convolved
spectrum (decided by C13) with independent quadrature; the returned limit must saturate the stated criterion exactly; scaling relations;
inputs and model stay unchanged.  Non-trivial: a finite limit."""
import math
import numpy as np
from scipy import interpolate, special
from vlib.runner import oracle, require, close, cut, finite_nonneg
from checks.common import st, fl, logfl, signed
from checks import stubs as M
from checks import models as D
from hazma.flux_measurement import FluxMeasurement
from hazma.target_params import TargetParams
from hazma.background_model import BackgroundModel
from hazma import gamma_ray_parameters as GP
from hazma import limits as L

ASSUMPTIONS = ["the convolved spectrum function of a model is an input here (decided by C13), its integral over a bin is that of its own piecewise-linear interpolant",
               "dark matter is not self-conjugate (f_dm = 2), as the package documents"]
KIND = st.sampled_from(["ann", "dec"])
RES = st.tuples(logfl(0.01, 0.3), fl(-.3, .3))
TARGET = st.fixed_dictionaries(dict(J=logfl(1e26, 1e33), D=logfl(1e23, 1e27), dOmega=logfl(1e-7, 12), vx=logfl(1e-5, 0.05)))
BINS = st.tuples(logfl(.05, 300), st.lists(st.tuples(fl(1.05, 3), fl(1, 1.5), logfl(1e-3, 1e3), logfl(1e-3, 1), fl(.2, 2)), min_size=1, max_size=7), st.booleans())
NS = st.one_of(fl(.5, 5), fl(2, 2.0001), logfl(.05, 8))


def resolution(r):
    def f(e):
        return r[0] * (np.asarray(e) / 10.0) ** r[1]
    f.key = tuple(r)
    return f


def model(kind, d, factor=1.0):
    """the model, remembering its (expensive) convolved spectra"""
    m = (M.Ann if kind == "ann" else M.Dec)(d, factor)
    real, memo = m.total_conv_spectrum_fn, {}

    def total_conv_spectrum_fn(*a, **k):
        key = (m.mx, m.factor) + a[:-1] + (getattr(a[-1], "key", id(a[-1])),) + tuple(sorted(k.items()))
        if key not in memo:
            memo[key] = real(*a, **k)
        return memo[key]
    m.total_conv_spectrum_fn = total_conv_spectrum_fn
    return m


def measurement(b, target, r, power=2):
    e0, rows, gaps = b
    lo, hi, f, up, dn = [], [], [], [], []
    for w, gap, amp, err, asym in rows:
        e0 = e0 * gap if gaps and lo else e0
        lo.append(e0)
        e0 *= w
        hi.append(e0)
        f.append(amp)
        up.append(amp * (1 + err))
        dn.append(amp * max(1 - err * asym, 0))
    raw = [np.array(x) for x in (lo, hi, f, up, dn)]
    m = FluxMeasurement(*raw, resolution(r), TargetParams(**target), power=power)
    return m, raw


def pw_integral(fn, knots, a, b):
    """integral of the continuous piecewise-linear function fn with the given knots"""
    x = np.unique(np.concatenate([[a, b], knots[(knots > a) & (knots < b)]]))
    return np.trapezoid(fn(x), x)


def cme(m, kind, vx):
    return (2 * m.mx * (1 + .5 * vx * vx),) if kind == "ann" else ()


def flux_factor(m, kind, t):
    return t["dOmega"] / (4 * math.pi) * (t["J"] / (4 * m.mx ** 2) if kind == "ann" else t["D"] / m.mx)


def predicted(m, kind, t, lo, hi, conv):
    k = np.asarray(conv.get_knots())
    return np.array([pw_integral(conv, k, a, b) for a, b in zip(lo, hi)]) * flux_factor(m, kind, t)


def chi2_critical(ns, k):
    """upper quantile of chi^2 with k degrees of freedom at the one-sided normal tail of ns sigma"""
    return 2 * special.gammainccinv(k / 2, .5 * special.erfc(ns / math.sqrt(2)))


@oracle(st.tuples(M.channels(), KIND, TARGET, BINS, RES, NS, st.sampled_from([0, 1, 2, 2.5]), logfl(.01, 100)), quick=700, thorough=8000)
def binned(case):
    d, kind, t, b, r, ns, power, c = case
    m = model(kind, d)
    before = dict(m.__dict__)
    meas, raw = measurement(b, t, r, power)
    lo, hi, f, up, dn = raw
    keep = measurement(b, t, r, power)[1]
    require(all(np.array_equal(x, y) for x, y in zip(raw, keep)), "FluxMeasurement modified its input arrays")
    mid = .5 * (lo + hi)
    close(meas.fluxes, f / mid ** power, 1e-13, "flux without the power of energy")
    close(meas.upper_errors, (up - f) / mid ** power, 1e-9, "upper error bar")
    close(meas.lower_errors, (f - dn) / mid ** power, 1e-9, "lower error bar")
    close(meas.e_lows, lo, 0, "bins")
    close(meas.e_highs, hi, 0, "bins")
    conv = m.total_conv_spectrum_fn(lo[0], hi[-1], *cme(m, kind, t["vx"]), resolution(r))
    phi = predicted(m, kind, t, lo, hi, conv)
    obs, err, dw = f / mid ** power, (up - f) / mid ** power, t["dOmega"] * (hi - lo)
    one, chi = cut(m.binned_limit, meas, ns), cut(m.binned_limit, meas, ns, method="chi2")
    close(cut(m.binned_limit, meas), cut(m.binned_limit, meas, 2.0, "1bin"), 1e-14, "default: two sigma, single bin")
    pos = phi > 1e-9 * phi.max() if phi.max() > 0 else np.zeros(len(phi), bool)
    if not pos.any():
        if not (phi > 0).any():
            require(one == math.inf and chi == math.inf, "no flux but finite limits %r %r", one, chi)
        return None
    allowed = dw * (obs + ns * err)
    # saturation: at the limit no bin exceeds its allowance and one reaches it
    ratio = one * phi / allowed
    require(np.all(ratio[pos] <= 1 + 1e-6), "a bin exceeds its allowance at the limit: %r", ratio)
    close(ratio.max(), 1.0, 1e-6, "most constraining bin at the single-bin limit")
    x2 = np.sum(np.maximum(chi * phi - dw * obs, 0) ** 2 / (dw * err) ** 2)
    close(x2, chi2_critical(ns, len(phi)), 1e-5, "chi^2 at the chi^2 limit (%d bins, %g sigma)" % (len(phi), ns))
    # scaling
    t2 = dict(t, J=t["J"] * c, D=t["D"] * c)
    m2 = measurement(b, t2, r, power)[0]
    close(cut(m.binned_limit, m2, ns), one / c, 1e-9, "limit against target factor")
    close(cut(m.binned_limit, m2, ns, method="chi2"), chi / c, 1e-6, "chi2 limit against target factor")
    if c > 1:
        require(cut(m.binned_limit, meas, ns * c) >= one * (1 - 1e-12), "limit falls with significance")
    require(m.__dict__ == before, "the model changed")
    require(all(np.array_equal(x, y) for x, y in zip((meas.e_lows, meas.e_highs), (lo, hi))) and np.array_equal(meas.fluxes, obs), "the measurement changed")
    try:
        m.binned_limit(meas, ns, "nonsense")
    except NotImplementedError:
        pass
    else:
        require(False, "unknown method accepted")
    return kind + (":lines" if any(ch["gline"] and ch["rate"] for ch in d["chans"].values()) else "")


# ------------------------------------------------------------------ projected limits
AEFF = st.tuples(logfl(.05, 20), st.lists(st.tuples(fl(1.2, 6), logfl(1, 1e4)), min_size=2, max_size=6))


def effective_area(a):
    e, x, y = a[0], [], []
    for w, v in a[1]:
        x.append(e)
        y.append(v)
        e *= w
    return interpolate.interp1d(np.array(x), np.array(y), bounds_error=False, fill_value=0.0)


BG = st.tuples(logfl(1e-5, 1e-1), fl(.5, 3))


@oracle(st.tuples(M.channels(), KIND, TARGET, AEFF, RES, BG, logfl(1e3, 1e9), NS, st.one_of(st.none(), st.lists(fl(0, 1), min_size=2, max_size=8, unique=True)), st.integers(2, 25)), quick=500, thorough=6000)
def unbinned(case):
    d, kind, t, a, r, bg, T, ns, us, ng = case
    m = model(kind, d)
    before = dict(m.__dict__)
    A = effective_area(a)
    lo, hi = A.x[0], A.x[-1]
    B = BackgroundModel([lo, hi], lambda e: bg[0] * e ** -bg[1])
    grid = None if us is None else np.sort(lo * (hi / lo) ** np.array(us))
    if grid is not None and np.min(np.diff(grid)) < 1e-6 * hi:
        return None
    kw = dict(n_sigma=ns, n_grid=ng) if grid is None else dict(n_sigma=ns, e_grid=grid.copy())
    got = cut(m.unbinned_limit, A, resolution(r), T, TargetParams(**t), B, **kw)
    conv = m.total_conv_spectrum_fn(lo, hi, *cme(m, kind, t["vx"]), resolution(r))
    k = np.asarray(conv.get_knots())
    g = np.geomspace(lo, hi, ng) if grid is None else grid
    # expected counts of every window, per unit rate; integrands are linear between the knots of the convolved spectrum
    sig, back = conv(k) * A(k) * flux_factor(m, kind, t) * T, B.dPhi_dEdOmega(k) * A(k) * t["dOmega"] * T

    def cumulative(y):
        c = np.concatenate([[0], np.cumsum(.5 * (y[1:] + y[:-1]) * np.diff(k))])
        i = np.clip(np.searchsorted(k, g) - 1, 0, len(k) - 2)
        h = np.clip(g, k[0], k[-1]) - k[i]
        s = (y[i + 1] - y[i]) / (k[i + 1] - k[i])
        return c[i] + y[i] * h + .5 * s * h * h
    S, N = cumulative(sig), cumulative(back)
    i, j = np.triu_indices(len(g), 1)
    with np.errstate(all="ignore"):
        snr = (S[j] - S[i]) / np.sqrt(N[j] - N[i])
    best = np.nanmax(snr)
    scale = S[-1] / np.sqrt(N[-1])
    if not best > 1e-6 * scale or not best > 0:
        require(not best > 0 or got > 0, "limit %r", got)
        return None
    # at the limit the best window has exactly ns = N_S/sqrt(N_B)
    close(got * best, ns, 1e-6, "significance of the best window at the limit")
    close(cut(m.unbinned_limit, A, resolution(r), 4 * T, TargetParams(**t), B, **kw), got / 2, 1e-9, "limit against exposure")
    close(cut(m.unbinned_limit, A, resolution(r), T, TargetParams(**dict(t, dOmega=4 * t["dOmega"])), B, **kw), got / 2, 1e-9, "limit against solid angle")
    close(cut(m.unbinned_limit, A, resolution(r), T, TargetParams(**dict(t, J=3 * t["J"], D=3 * t["D"])), B, **kw), got / 3, 1e-9, "limit against target factor")
    require(m.__dict__ == before, "the model changed")
    return kind


GC = st.tuples(logfl(1e-3, .1), fl(1, 2.5), fl(.5, 4), fl(.8, 2.5), logfl(1e-4, .1), fl(2, 3.5))
GECCO = st.tuples(logfl(1e-4, .1), fl(1, 3))


def background(spec):
    return GP.GalacticCenterBackgroundModel(*spec) if len(spec) == 6 else GP.GeccoBackgroundModel(*spec)


GCN = ["galactic_amplitude", "galactic_power_law_index", "galactic_exponential_cutoff", "galactic_exponential_index", "extra_galactic_amplitude", "extra_galactic_power_law_index"]


def bg_flux(p, e):
    if len(p) == 6:
        return p[0] * e ** -p[1] * np.exp(-(e / p[2]) ** p[3]) + p[4] * e ** -p[5]
    return p[0] * e ** -p[1]


def bg_derivatives(p, e):
    out = []
    for i in range(len(p)):
        q = np.array(p, complex)
        q[i] += 1e-30j * abs(p[i])
        out.append(bg_flux(q, e.astype(complex)).imag / (1e-30 * abs(p[i])))
    return out


@oracle(st.tuples(st.one_of(GC, GECCO), st.lists(logfl(.16, 4.9), min_size=1, max_size=6)), quick=600)
def backgrounds(case):
    p, es = case
    e = np.array(es)
    b = background(p)
    names = GCN if len(p) == 6 else ["amplitude", "power_law_index"]
    require(dict(b.params) == dict(zip(names, p)), "params %r of a background built from %r", b.params, p)
    require(list(b.params) == names, "order of params")
    close(cut(b.dPhi_dEdOmega, e), bg_flux(p, e), 1e-12, "background flux")
    close(cut(b.dPhi_dEdOmega, es[0]), bg_flux(p, es[0]), 1e-12, "background flux (single energy)")
    der = cut(b.derivatives, e)
    require(set(der) == set(names), "derivative names %r", sorted(der))
    for n, ref in zip(names, bg_derivatives(p, e)):
        close(der[n], ref, 1e-9, "derivative by " + n, scale=1e-12)
    g = BackgroundModel([e.min(), e.max()], lambda x: bg_flux(p, x))
    close(cut(g.dPhi_dEdOmega, e), bg_flux(p, e), 1e-14, "wrapped background")
    close(cut(g.dPhi_dEdOmega, es[0]), bg_flux(p, es[0]), 1e-14, "wrapped background")
    return "galactic centre" if len(p) == 6 else "gecco"


@oracle(st.tuples(M.channels(mx=logfl(1, 20)), KIND, TARGET, RES, st.one_of(GC, GECCO), logfl(1e3, 1e9), st.lists(fl(.5, 6), min_size=1, max_size=3),
                  st.integers(12, 60), st.booleans(), st.integers(1, 3)), quick=250)
def fisher(case):
    from hazma.theory._theory_gamma_ray_limits import fisher as run
    d, kind, t, r, p, T, sigmas, ng, own, k = case
    m = model(kind, d)
    A = effective_area((.16, [(1.9, 10.), (2.2, 200.), (2.4, 150.), (2.9, 30.)]))
    lo, hi = A.x[0], A.x[-1]
    b = background(p)
    grid = np.geomspace(lo, hi, ng) if not own else np.linspace(lo, hi, ng)
    kw = dict(n_grid=ng) if not own else dict(e_grid=grid.copy())
    res = cut(run, m, A, resolution(r), TargetParams(**t), b, T, vx=t["vx"], k=k, **kw)
    names = list(res.params)
    require(names == ["rate"] + (GCN if len(p) == 6 else ["amplitude", "power_law_index"]), "parameters %r", names)
    conv = m.total_conv_spectrum_fn(lo, hi, *cme(m, kind, t["vx"]), resolution(r))
    grid[-1] = min(grid[-1], hi)
    dphi = [conv(grid) * flux_factor(m, kind, t)] + [x * t["dOmega"] for x in bg_derivatives(p, grid)]
    w = A(grid) * T / (bg_flux(p, grid) * t["dOmega"])
    # integral of the interpolant of order k through the grid
    F = np.array([[interpolate.InterpolatedUnivariateSpline(grid, x * y * w, k=k).integral(lo, hi) for x in dphi] for y in dphi])
    S = np.asarray(res.fisher_matrix)
    sc = np.sqrt(np.abs(np.outer(np.diag(F), np.diag(F))))
    close(S / np.where(sc > 0, sc, 1), F / np.where(sc > 0, sc, 1), 1e-8, "Fisher matrix", scale=1.0)
    close(S, S.T, 1e-12, "Fisher matrix is symmetric", scale=np.abs(S) + 1e-300)
    if not F[0, 0] > 0 or not np.all(np.diag(F) > 0):
        return None
    c = np.sqrt(np.diag(F))
    N = F / np.outer(c, c)
    if np.linalg.cond(N) > 1e7:
        return None
    ref = math.sqrt(np.linalg.inv(N)[0, 0]) / c[0]
    got = cut(m.fisher_limit, A, resolution(r), TargetParams(**t), b, T, vx=t["vx"], sigma_levels=sigmas, k=k, **kw)
    close(got, np.array(sigmas) * ref, 1e-5, "Fisher limits")
    for i, n in enumerate(names):
        close(cut(res.limit, 1.0, n), math.sqrt(np.linalg.inv(N)[i, i]) / c[i], 1e-5, "Fisher limit on " + n)
    # nuisance parameters can only weaken the limit
    require(ref >= (1 - 1e-9) / c[0], "limit stronger than without nuisance parameters")
    return kind


# ------------------------------------------------------------------ the ready-made constrainers and the image of constraints
SV = 1.0 / (1 / 1.973269804e-11) ** 2 * 2.99792458e8 * 1e2


@oracle(st.tuples(st.lists(M.channels(), min_size=1, max_size=3), KIND, st.sampled_from(["Comptel", "Egret", "Fermi", "Integral"]), fl(.5, 5), st.sampled_from(["1bin", "chi2"])), quick=24, thorough=400)
def ready_made(case):
    ds, kind, name, ns, method = case
    ms = [model(kind, d) for d in ds]
    con = getattr(L, name + "Limit")(sigma=ns, method=method)
    require(con.name == name.lower(), "name")
    meas = getattr(GP, name.lower() + "_diffuse")
    keep = [x.copy() for x in (meas.fluxes, meas.upper_errors, meas.e_lows, meas.e_highs)]
    got = cut(con.constrain, ms)
    ref = [m.binned_limit(meas, ns, method) for m in ms]
    close(got, ref, 1e-13, "%s limits of a list of models" % name)
    require(all(np.array_equal(x, y) for x, y in zip((meas.fluxes, meas.upper_errors, meas.e_lows, meas.e_highs), keep)), "the data changed")
    return "%s:%s" % (kind, method) if np.isfinite(got).any() else None


@oracle(st.tuples(M.channels(), TARGET, BINS, RES, NS, st.lists(logfl(1, 300), min_size=1, max_size=2), st.lists(logfl(1e-3, 1e3), min_size=1, max_size=3)), quick=120, thorough=2500)
def image(case):
    d, t, b, r, ns, mxs, fs = case
    m = model("ann", d)
    meas, raw = measurement(b, t, r)
    lo, hi, f, up, _ = raw
    mid = .5 * (lo + hi)
    before = dict(m.__dict__)
    img = cut(m.constrain_binned_gamma, "mx", np.array(mxs), "factor", np.array(fs), meas, ns)
    require(img.shape == (len(fs), len(mxs)), "shape %s", img.shape)
    require(m.__dict__ == before, "the model changed")
    some = False
    for i, mx in enumerate(mxs):
        for j, fac in enumerate(fs):
            q = M.Ann(dict(d, mx=mx), fac)
            q.mx = mx
            E = 2 * mx * (1 + .5 * t["vx"] ** 2)
            conv = q.total_conv_spectrum_fn(lo[0], hi[-1], E, resolution(r))
            sv = M.rates(q, E)[2] * t["vx"] * SV
            phi = predicted(q, "ann", t, lo, hi, conv) * sv
            allowed = t["dOmega"] * (hi - lo) * (f + ns * (up - f)) / mid ** 2
            diff = np.where(phi > 0, allowed - phi, np.inf)
            if np.isfinite(diff).any():
                worst = np.nanmin(diff)
                close(img[j, i], worst, 1e-6, "margin of the binned constraint", scale=max(np.abs(diff[np.isfinite(diff)]).max() * 1e-3, 1e-300))
                require((img[j, i] >= 0) == (worst >= 0) or abs(worst) < 1e-6 * allowed.max(), "sign of the constraint")
                some = True
    return "image" if some else None
