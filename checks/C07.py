"""The calling contract of every compiled kernel, single-particle spectrum, splitting function, boosted line and model-level total.
Oracle (metamorphic): the array result equals the scalar results element by element, whatever the container, memory layout, order, repetition or
company of the energies; fresh output, untouched input, repeatable; malformed input raises.  Non-trivial: some element is non-zero."""
import numpy as np
from hazma import _core, spectra, parameters as P
from hazma.spectra import boost as B
from hazma.spectra import altarelli_parisi as AP
from vlib.runner import oracle, require, cut, Violation
from checks.common import st, fl, logfl, signed
from checks import models as D

ASSUMPTIONS = ["model-level totals take floats and float64 arrays (their documented argument), not lists", "an integer or float32 array is either rejected or evaluated correctly",
               "phase-space Monte Carlo results are not compared (their samples depend on the call)"]
MASS = dict(muon=P.muon_mass, neutral_pion=P.neutral_pion_mass, charged_pion=P.charged_pion_mass, charged_kaon=P.charged_kaon_mass, long_kaon=P.long_kaon_mass,
            short_kaon=P.short_kaon_mass, eta=P.eta_mass, eta_prime=P.eta_prime_mass, omega=P.omega_mass, charged_rho=P.rho_mass, neutral_rho=P.rho_mass, phi=P.phi_mass)
SPECTRA = [(k, n) for k in ("photon", "positron", "neutrino") for n in MASS if hasattr(spectra, "dnde_%s_%s" % (k, n))]
KINDS = ["array", "list", "tuple", "reversed", "strided", "readonly", "column"]


def contain(vals, kind):
    """The same numbers in another container / memory layout."""
    a = np.array(vals, dtype=np.float64)
    if kind == "list":
        return [float(v) for v in vals]
    if kind == "tuple":
        return tuple(float(v) for v in vals)
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "strided":
        b = np.full(3 * len(a) + 1, -7.25)
        b[1::3] = a
        return b[1::3]
    if kind == "column":
        b = np.full((len(a), 3), 3.5)
        b[:, 1] = a
        return b[:, 1]
    if kind == "readonly":
        a.flags.writeable = False
    return a


def same(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "%s: shape %s instead of %s", what, got.shape, want.shape)
    ok = (got == want) | (np.isnan(got) & np.isnan(want)) | (np.abs(got - want) <= 1e-10 * np.maximum(np.abs(got), np.abs(want)))
    if not np.all(ok):
        i = tuple(int(v[0]) for v in np.nonzero(~ok))
        raise Violation("%s: element %s is %r in the array call and %r alone" % (what, i, float(got[i]), float(want[i])))


def scalar_value(r, what, triple):
    require(np.shape(r) == ((3,) if triple else ()), "%s: a scalar energy gives shape %s", what, np.shape(r))
    if not triple:
        require(not isinstance(r, np.ndarray), "%s: a scalar energy gives an array", what)
    return np.array(r, float)


def contract(f, vals, kind, what, triple=False, scalars=("float", "np", "0d")):
    """Element-by-element agreement of one call with the scalar calls."""
    conv = {"float": float, "np": np.float64, "0d": np.array}
    alone = []
    for i, v in enumerate(vals):
        alone.append(scalar_value(cut(f, conv[scalars[i % len(scalars)]](v)), what, triple))
    ref = np.array(alone).reshape((len(vals), 3) if triple else (len(vals),))
    if triple:
        ref = ref.T
    x = contain(vals, kind)
    before = np.array(x, dtype=float)
    got = cut(f, x)
    require(isinstance(got, np.ndarray) and got.dtype == np.float64, "%s: a %s of energies gives %s", what, kind, type(got).__name__)
    same(got, ref, "%s(%s of %d)" % (what, kind, len(vals)))
    require(np.array_equal(np.array(x, dtype=float), before, equal_nan=True), "%s modified its input", what)
    if isinstance(x, np.ndarray):
        require(not np.shares_memory(got, x), "%s returns memory of its input", what)
    keep = got.copy()
    if got.size and got.flags.writeable:
        got[...] = -1.0          # a result the caller overwrites must not feed a later call
    same(cut(f, contain(vals, "array")), keep, "%s, second call" % what)
    return bool(np.any(np.nan_to_num(ref) != 0))


US = st.lists(st.one_of(fl(-0.1, 1.3), fl(0, 1), fl(0, 0.2), st.sampled_from([0.0, 1.0, -1.0, 0.5])), min_size=0, max_size=9)


def repeat(us, perm):
    """repeat and reorder entries"""
    us = list(us)
    for i in perm:
        if us:
            us.append(us[i % len(us)])
            us.insert(0, us.pop(i % len(us)))
    return us


PERM = st.lists(st.integers(0, 20), max_size=4)
PARENT = st.one_of(logfl(1e-3, 30).map(lambda x: 1 + x), st.just(1.0), fl(0.5, 1.0), logfl(1e-9, 1e-3).map(lambda x: 1 + x))


@oracle(st.tuples(st.sampled_from(SPECTRA), PARENT, US, PERM, st.sampled_from(KINDS), st.sampled_from([None, None, "e", "mu", "tau"]), st.sampled_from(["public", "core"])), quick=4500, thorough=60000)
def decay_spectra(case):
    (k, n), g, us, perm, kind, flavor, layer = case
    m = MASS[n]
    name = "dnde_%s_%s" % (k, n)
    f = getattr(spectra, name)
    if layer == "core":
        f = getattr(getattr(_core, k), name, f)
    top = m * g * 0.6
    vals = [top * u if u < 0.3 or i % 2 else top * 10 ** (-4 * abs(1 - u)) for i, u in enumerate(repeat(us, perm))]
    triple = k == "neutrino" and (flavor is None or layer == "core")
    kw = {} if k != "neutrino" or layer == "core" or flavor is None else {"flavor": flavor}
    nz = contract(lambda e: f(e, m * g, **kw), vals, kind, name, triple)
    if triple and layer == "public" and vals:
        # the flavour argument selects the row
        x = np.array(vals)
        full = cut(f, x, m * g)
        for i, fv in enumerate(("e", "mu", "tau")):
            same(cut(f, x, m * g, flavor=fv), full[i], "%s flavor %s" % (name, fv))
    return "%s %s" % (name, kind) if nz else None


BAD = {"2d": lambda v: np.array([v, v], float), "2d1": lambda v: np.array([v], float), "3d": lambda v: np.ones((1, 2, 2)), "str": lambda v: "%r" % v[0], "strs": lambda v: [str(x) for x in v], "none": lambda v: None,
       "complex": lambda v: complex(v[0], 1.0), "dict": lambda v: {1.0: v[0]}, "objects": lambda v: np.array([object() for _ in v]), "nested": lambda v: [v, v],
       "ragged": lambda v: [v, v[:1], 1.0], "bytes": lambda v: b"1.0", "set": lambda v: {v[0]}, "func": lambda v: (lambda: v[0])}


@oracle(st.tuples(st.sampled_from(SPECTRA), PARENT, st.sampled_from(sorted(BAD) + ["flavor", "flavor", "parent"]), st.lists(logfl(1e-3, 1e3), min_size=2, max_size=4), st.sampled_from(["x", "electron", "E", "", "muon", "3"])),
        quick=1500, thorough=15000)
def malformed(case):
    (k, n), g, bad, vals, fv = case
    name = "dnde_%s_%s" % (k, n)
    f, m = getattr(spectra, name), MASS[n]
    if bad == "flavor":
        if k != "neutrino":
            return None
        try:
            r = f(vals[0], m * g, flavor=fv)
        except (ValueError, TypeError):
            return "flavor"
        raise Violation("%s accepts the flavour %r and returns %r" % (name, fv, r))
    if bad == "parent":
        args = (np.array(vals), [m * g, m * g])
    else:
        args = (BAD[bad](vals), m * g)
    try:
        r = f(*args)
    except (ValueError, TypeError, IndexError):
        return bad
    except Exception as e:
        raise Violation("%s(%s) raises %s instead of ValueError or TypeError: %s" % (name, bad, type(e).__name__, str(e)[:100]))
    raise Violation("%s accepts malformed energies (%s: %r) and returns %r" % (name, bad, args[0] if bad != "parent" else args[1], r))


@oracle(st.tuples(st.sampled_from(SPECTRA), PARENT, st.lists(st.integers(0, 900), min_size=1, max_size=5), st.sampled_from(["i8", "i4", "f4", ">f8", "ilist", "int", "npint", "bool", "f4s"])), quick=1000, thorough=10000)
def other_numbers(case):
    """Integers and single precision: rejected, or the same values as float64."""
    (k, n), g, vals, dt = case
    name = "dnde_%s_%s" % (k, n)
    f, m = getattr(spectra, name), MASS[n]
    e = m * g
    conv = {"ilist": list, "int": lambda v: v[0], "npint": lambda v: np.int64(v[0]), "bool": lambda v: bool(v[0]), "f4s": lambda v: np.float32(v[0])}
    x = conv[dt](vals) if dt in conv else np.array(vals, dtype=dt)
    single = dt in ("int", "npint", "bool", "f4s")
    try:
        got = f(x, e)
    except (ValueError, TypeError):
        require(dt not in ("int", "npint", "f4s"), "%s rejects the plain number %r", name, x)
        return "rejected " + dt
    want = cut(f, float(x) if single else np.array(vals, float), e)
    same(got, want, "%s on %s" % (name, dt))
    return dt if np.any(np.asarray(want) != 0) else None


SX = ["sigma_xx_to_s_to_ff", "sigma_xx_to_s_to_gg", "sigma_xx_to_s_to_pi0pi0", "sigma_xx_to_s_to_pipi", "sigma_xx_to_ss", "sigma_ss_to_xx", "sigma_xl_to_xl", "sigma_xpi_to_xpi", "sigma_xpi0_to_xpi0",
      "sigma_xg_to_xg", "sigma_xs_to_xs"]
VX = ["sigma_xx_to_v_to_ff", "sigma_xx_to_v_to_pipi", "sigma_xx_to_v_to_pi0g", "sigma_xx_to_v_to_pi0v", "sigma_xx_to_vv"]


@oracle(st.tuples(st.sampled_from(SX + VX), logfl(1, 1e3), logfl(1, 1e3), st.lists(signed(logfl(1e-3, 1)), min_size=7, max_size=7), st.sampled_from([0.511, 105.66]), logfl(1e-6, 10),
                  st.lists(st.one_of(fl(0.5, 5), logfl(1e-4, 10).map(lambda v: 1 + v), st.just(1.0)), min_size=0, max_size=7), PERM, st.sampled_from(KINDS)), quick=3000, thorough=30000)
def cross_sections(case):
    n, mx, mm, g, mf, w, us, perm, kind = case
    base = 2 * mx if n in VX or "xx_to" in n else (2 * mm if n.startswith("sigma_ss") else mx + (mm if "xs" in n else mf if "xl" in n else 140.0 if "pi" in n else 0.0))
    if n in SX:
        f, args = getattr(_core.scalar_mediator, n), (mx, mm, g[0], g[1], g[2], g[3], 1e4, w, 0.0) + ((mf,) if n in ("sigma_xx_to_s_to_ff", "sigma_xl_to_xl") else ())
    else:
        f = getattr(_core.vector_mediator, n)
        args = (mx, mm, g[0], g[1], w, mf) if n == "sigma_xx_to_v_to_ff" else (mx, mm) + tuple(g[:6]) + (w,)
    vals = []
    for u in repeat(us, perm):
        try:
            f(float(base * u), *args)
            vals.append(base * u)
        except (ValueError, TypeError):
            try:
                f(np.array([1.5 * base, base * u]), *args)
            except (ValueError, TypeError):
                continue
            raise Violation("%s rejects the energy %r alone but not inside an array" % (n, base * u))
    return "%s %s" % (n, kind) if contract(lambda e: f(e, *args), vals, kind, n) else None


@oracle(st.tuples(st.sampled_from(["k1", "kn", "spence", "beta", "gamma", "delta", "table", "interp", "roundtrip", "boost_delta", "double_delta", "ap_fermion", "ap_scalar"]), st.lists(fl(-2, 8), min_size=0, max_size=8), PERM,
                  st.sampled_from(KINDS), fl(0.05, 0.95), st.integers(0, 5), fl(0.1, 0.9)), quick=2500, thorough=20000)
def helpers(case):
    n, us, perm, kind, beta, order, b2 = case
    vals = repeat(us, perm)
    C = _core
    if n in ("boost_delta", "double_delta", "ap_fermion", "ap_scalar") and kind in ("list", "tuple"):
        kind = "array"
    xs, ys = np.array([0.0, 1.0, 2.5, 4.0]), np.array([0.5, 1.0, 0.25, 2.0])
    if n in ("k1", "kn", "spence"):
        vals = [abs(v) + 1e-3 for v in vals]
    if n in ("beta", "gamma"):
        vals = [1.0 + abs(v) for v in vals]
    if n in ("boost_delta", "double_delta", "delta"):
        vals = [abs(v) + 0.5 for v in vals]
    if n in ("ap_fermion", "ap_scalar"):
        vals = [abs(v) * 20 + 0.1 for v in vals]
    f = {"k1": C.special.bessel_k1, "kn": lambda x: C.special.bessel_kn(order, x), "spence": C.special.spence, "beta": lambda x: C.boost.boost_beta(x, 1.0),
         "gamma": lambda x: C.boost.boost_gamma(x, 1.0), "delta": lambda x: C.boost.boost_delta_function(2.0, x, 0.5, beta), "table": lambda x: C.boost.boost_integrate_linear_interp(x, beta, xs, ys),
         "interp": lambda x: C.interp.interp(x, xs, ys), "roundtrip": lambda x: C.dispatch.roundtrip(x, "numbers"), "boost_delta": lambda x: B.boost_delta_function(x, 2.0, 0.5, beta),
         "double_delta": lambda x: B.double_boost_delta_function(x, 2.0, 0.3, beta, b2), "ap_fermion": lambda x: AP.dnde_photon_ap_fermion(x, 4e4, 0.511), "ap_scalar": lambda x: AP.dnde_photon_ap_scalar(x, 4e4, 10.0)}[n]
    return "%s %s" % (n, kind) if contract(f, vals, kind, n, scalars=("float", "np")) else None


NB = st.sampled_from([("mu", "mu"), ("e", "e"), ("pi", "pi"), ("pi0", "pi0"), ("pi0", "a"), ("k", "k"), ("eta", "a"), ("mu", "vm"), ("eta",), ("pi", "k")])


@oracle(st.tuples(NB, st.sampled_from(["photon", "positron", "neutrino"]), logfl(1e-2, 5), st.lists(fl(-0.1, 1.2), min_size=1, max_size=5), PERM), quick=400, thorough=4000)
def final_states(case):
    """Two-body (and one-particle) final states: the array result equals one-element arrays, whatever its order and company."""
    fs, k, x, us, perm = case
    cme = sum(P.standard_model_masses[f] for f in fs) * (1 + x)
    f = getattr(spectra, "dnde_" + k)
    vals = np.array([cme / 2 * u for u in repeat(us, perm)])
    before = vals.copy()
    got = np.asarray(cut(f, vals, cme, list(fs)), float)
    require(np.array_equal(vals, before), "dnde_%s modified its energies", k)
    one = [np.asarray(cut(f, np.array([v]), cme, list(fs)), float) for v in vals]
    same(got, np.concatenate(one, axis=-1), "dnde_%s(%s)" % (k, fs))
    if k != "neutrino":
        for v, o in zip(vals, one):
            same(np.asarray(cut(f, float(v), cme, list(fs)), float).reshape(-1), o, "dnde_%s(%s), scalar" % (k, fs))
    return "%s %s" % (k, "+".join(fs)) if np.any(got != 0) else None


SINGLE = st.tuples(st.sampled_from(["mu mu", "pi pi", "pi0 pi0", "e e", "k k", "pi0 g"]), logfl(10, 2e3)).map(lambda t: dict(cls="SingleChannelAnn", kw=dict(mx=t[1], fs=t[0], sigma=1e-26)))


@oracle(lambda cls: st.tuples(SINGLE if cls == "SingleChannelAnn" else D.points(cls, mx=logfl(1, 260)) if cls == "RHNeutrino" else D.points(cls), logfl(1e-2, 2), US.filter(len), PERM), quick=60, thorough=800,
        params=["ScalarMediator", "HiggsPortal", "HeavyQuark", "VectorMediator", "KineticMixing", "QuarksOnly", "RHNeutrino", "SingleChannelAnn"])
def model_totals(case, cls):
    d, x, us, perm = case
    try:
        m = D.build(d)
    except Exception:
        return None
    dec = d["cls"] == "RHNeutrino"
    q = d["kw"]["mx"] if dec else 2 * d["kw"]["mx"] * (1 + x)
    top = q / 2
    vals = np.array([top * 10 ** (-3 * abs(u)) for u in repeat(us, perm)][:2 if dec else 20])      # every right-handed neutrino call integrates its three-body modes
    lab = []
    for n in ("total_spectrum", "total_positron_spectrum"):
        f = getattr(m, n)
        a = () if dec else (q,)
        before = vals.copy()
        got = np.asarray(cut(f, vals, *a), float)
        require(got.shape == vals.shape, "%s.%s: shape %s for %s energies", d["cls"], n, got.shape, vals.shape)
        require(np.array_equal(vals, before), "%s.%s modified its energies", d["cls"], n)
        one = np.array([float(cut(f, float(v), *a)) for v in vals])
        same(got, one, "%s.%s" % (d["cls"], n))
        same(cut(f, np.sort(vals), *a), np.sort(vals) * 0 + one[np.argsort(vals, kind="stable")], "%s.%s of sorted energies" % (d["cls"], n))
        if np.any(one != 0):
            lab.append("%s %s" % (d["cls"], n))
    return lab or None


@oracle(st.tuples(st.one_of(D.points(["ScalarMediator", "HiggsPortal", "HeavyQuark"]), D.points(["VectorMediator", "KineticMixing", "QuarksOnly"])),
                  st.lists(logfl(1e-3, 3), min_size=1, max_size=6), PERM, st.sampled_from(["array", "list", "reversed", "readonly"])), quick=1000, thorough=10000)
def model_cross_sections(case):
    d, xs, perm, kind = case
    m = D.build(d)
    vals = [D.ecm(d, x) for x in repeat(xs, perm)]
    got = cut(m.annihilation_cross_sections, contain(vals, kind))
    one = [cut(m.annihilation_cross_sections, float(v)) for v in vals]
    for k in got:
        same(np.broadcast_to(np.asarray(got[k], float), (len(vals),)), np.array([o[k] for o in one], float), "%s sigma(%s)" % (d["cls"], k))
    return "%s %s" % (d["cls"], kind) if np.any(np.asarray(got["total"]) > 0) else None


@oracle(lambda cls: st.tuples(st.tuples(logfl(5, 1e3), st.sampled_from(["mu mu", "pi pi", "pi0 g", "mu pi", "e pi"])).map(lambda t: dict(cls=cls, kw=dict(mx=t[0], fs=t[1], width=1e-20))) if cls == "SingleChannelDec"
                              else D.points(cls, mx=logfl(1, 195), mv=logfl(1, 1500)), logfl(1e-3, 1), US.filter(len), PERM), quick=45, thorough=500, params=["VectorMediatorGeV", "KineticMixingGeV", "BLGeV", "SingleChannelDec"])
def wide_totals(case, cls):
    """The GeV-scale models (below the three-pion threshold, where their spectra are deterministic) and single-channel decays."""
    d, x, us, perm = case
    try:
        m = D.build(d)
    except Exception:
        return None
    dec = cls == "SingleChannelDec"
    q = d["kw"]["mx"] if dec else min(2 * d["kw"]["mx"] * (1 + x), 410.0)
    a = () if dec else (q,)
    vals = np.array([q / 2 * (u if i % 2 else 10 ** (-3 * abs(u))) for i, u in enumerate(repeat(us, perm))][:6])
    lab = []
    names = [("total_spectrum", ()), ("total_positron_spectrum", ())] + ([] if dec else [("total_neutrino_spectrum", (fv,)) for fv in ("e", "mu", "tau")])
    for n, extra in names:
        f = getattr(m, n)
        before = vals.copy()
        try:
            got = f(vals, *a, *extra)
        except (AssertionError, IndexError, ValueError):
            continue              # no open channel
        got = np.asarray(got, float)
        require(got.shape == vals.shape, "%s.%s: shape %s for %s energies", cls, n, got.shape, vals.shape)
        require(np.array_equal(vals, before), "%s.%s modified its energies", cls, n)
        one = np.array([float(np.asarray(cut(f, np.array([v]), *a, *extra), float)[0]) for v in vals])
        same(got, one, "%s.%s(%s)" % (cls, n, ",".join(extra)))
        same(cut(f, vals, *a, *extra), got, "%s.%s, second call" % (cls, n))
        same(np.array([scalar_value(cut(f, float(v), *a, *extra), n, False) for v in vals[:2]]), one[:2], "%s.%s of single numbers" % (cls, n))
        if np.any(one != 0):
            lab.append("%s %s" % (cls, n))
    return lab or None
