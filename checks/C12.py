"""Final states drawn from all supported particles (1 to 5 bodies, repeats, any order), centre-of-mass energies from just above threshold
to 30x, product energies inside and outside, flat or generated matrix elements with each signature and integrator.  Oracle: the package's
single-particle spectra (decided by C08-C10) summed at exact two-body energies, or folded with independent N-body energy densities and
pair-mass densities (radiation); permutation, charge/flavour, product-line and threshold relations."""
import numpy as np
from vlib.runner import oracle, require, close, cut
from checks.common import st, fl, logfl, seeds
from ref import ps as R
from hazma import spectra as S
from hazma.utils import ldot

ASSUMPTIONS = ["single-particle spectra are those of the public functions decided by C08-C11",
               "two-body final states: primary lines (e+, neutrinos, photons) are left to the caller, as documented",
               "discretisation of distributions into nbins bins: tolerance of order 1/nbins"]
MASS = dict(e=0.5109989461, mu=105.6583745, ve=0.0, vm=0.0, vt=0.0, pi=139.57039, pi0=134.9768, k=493.677, kl=497.611, ks=497.611,
            eta=547.862, etap=957.78, rho=775.26, rho0=775.26, omega=782.66, phi=1019.461)
NAME = dict(mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", kl="long_kaon", ks="short_kaon", eta="eta",
            etap="eta_prime", rho="charged_rho", rho0="neutral_rho", omega="omega", phi="phi")
NONE = {"photon": set(), "positron": {"pi0"}, "neutrino": {"pi0"}}
FSR = dict(e=False, mu=False, pi=True, k=True)
STATES = sorted(MASS)
ROW = dict(e=0, mu=1, tau=2)
FN = dict(photon=S.dnde_photon, positron=S.dnde_positron, neutrino=S.dnde_neutrino)


def decay(product, s, es, E):
    """Single-particle spectrum; 3 rows for neutrinos."""
    z = np.zeros((3, len(es))) if product == "neutrino" else np.zeros(len(es))
    if s not in NAME or s in NONE[product]:
        return z
    return getattr(S, "dnde_%s_%s" % (product, NAME[s]))(es, E)


def ap(s, es, mass):
    f = S.dnde_photon_ap_scalar if FSR[s] else S.dnde_photon_ap_fermion
    return f(es, mass ** 2, MASS[s], charge=1.0)


@st.composite
def final(draw, nmin, nmax, charged=False):
    n = draw(st.integers(nmin, nmax))
    pool = draw(st.sampled_from([STATES, ["e", "mu", "pi", "k", "pi0", "ve"], ["pi", "pi0", "mu", "eta"], ["ve", "vm", "vt", "mu", "e", "pi", "pi0"]]))
    fs = [draw(st.sampled_from(pool)) for _ in range(n)]
    if n > 2 and sum(MASS[x] for x in fs) < 1:
        fs[0] = "mu"
    msum = sum(MASS[x] for x in fs)
    q = max(msum, 1.0) * draw(st.one_of(fl(1.02, 3), logfl(1.02, 30), fl(1.0001, 1.02)))
    return dict(fs=fs, q=q, us=draw(st.lists(st.tuples(fl(0, 1), st.sampled_from(["log", "lin", "lin", "out"])), min_size=2, max_size=6)),
                product=draw(st.sampled_from(["photon", "positron", "neutrino"])), seed=draw(seeds()), fsr=draw(st.booleans()),
                c=[draw(fl(0.2, 2)) for _ in range(3)], kind=draw(st.integers(0, 2)))


def pe(c):
    return np.array([c["q"] * (10 ** (-0.3 - 4 * u) if k == "log" else max(u, 1e-4) / 2 if k == "lin" else 0.5 + u) for u, k in c["us"]])


def call(product, es, q, fs, fsr, **k):
    if product == "photon":
        k["include_fsr"] = fsr
    return cut(FN[product], es, q, fs, **k)


def flavors(got, es, q, fs, seed, **k):
    f = ("e", "mu", "tau")[seed % 3]
    one = cut(S.dnde_neutrino, es, q, fs, flavor=f, **k)
    close(one, got[ROW[f]], 1e-12, "flavour %s is its row" % f)


@oracle(final(1, 1), quick=300)
def single(c):
    s = c["fs"][0]
    if MASS[s] == 0 or s == "e":
        return None
    es = pe(c)
    ex = decay(c["product"], s, es, c["q"])
    for fs in ([s], s):
        got = call(c["product"], es, c["q"], fs, c["fsr"])
        close(got, ex, 1e-12, "single %s -> %s" % (s, c["product"]))
    return [c["product"], s]


@oracle(final(2, 2), quick=900)
def two_body(c):
    (a, b), q, es, product = c["fs"], c["q"], pe(c), c["product"]
    ma, mb = MASS[a], MASS[b]
    ea, eb = (q * q + ma * ma - mb * mb) / (2 * q), (q * q - ma * ma + mb * mb) / (2 * q)
    keep = es.copy()
    got = call(product, es, q, [a, b], c["fsr"])
    require(np.array_equal(es, keep), "input modified")
    ex = decay(product, a, es, ea) + decay(product, b, es, eb)
    if product == "photon" and c["fsr"]:
        for s in (a, b):
            if s in FSR:
                ex = ex + ap(s, es, q)
    require(got.shape == ex.shape, "shape %s, expected %s", got.shape, ex.shape)
    near = max(ea / max(ma, 1e-9), eb / max(mb, 1e-9)) > 1 and min([x / m - 1 for x, m in ((ea, ma), (eb, mb)) if m > 0.6] + [1]) < 1e-6
    close(got, ex, 1e-3 if near else 1e-8, "%s from %s %s" % (product, a, b), scale=1e-12 / q)
    close(call(product, es, q, (b, a), c["fsr"]), got, 1e-10, "order of the particles", scale=1e-14 / q)
    if product == "neutrino":
        flavors(got, es, q, [a, b], c["seed"])
    sc = call(product, float(es[0]), q, [a, b], c["fsr"])
    close(sc, got[..., 0], 1e-12, "scalar energy")
    if not np.any(ex):
        return None
    return [product, "fsr" if product == "photon" and c["fsr"] else "nofsr"]


def dalitz_density(Q, ms, f, n=64):
    """Nodes r=sqrt(s) with weights of int dPhi_3 f(s,t), s=(p2+p3)^2, t=(p1+p3)^2."""
    m1, m2, m3 = ms
    r, w = R._nodes(np.array(m2 + m3), np.array(Q - m1), n)
    s = r * r
    e3, e1 = (s + m3 ** 2 - m2 ** 2) / (2 * r), (Q * Q - s - m1 ** 2) / (2 * r)
    p3, p1 = R.pcm(r, m2, m3), Q * R.pcm(Q, m1, r) / r
    x, wx = R.gl(24)
    t = m1 ** 2 + m3 ** 2 + 2 * (e1 * e3)[:, None] + 2 * (p1 * p3)[:, None] * x
    ww = (w * 2 * r / (2 * np.pi) * R.phi2(Q, m1, r) * R.phi2(r, m2, m3))[:, None] * wx / 2
    return r, np.sum(ww * f(np.broadcast_to(s[:, None], t.shape), t), axis=1)


def three_tables(Q, ms, f):
    """For each i: recoil masses r_i and weights (sum to one)."""
    S0 = Q * Q + sum(m * m for m in ms)
    g = [lambda s, t: f(s, t), lambda s, t: f(t, s), lambda s, t: f(S0 - s - t, t)]
    order = [ms, [ms[1], ms[0], ms[2]], [ms[2], ms[1], ms[0]]]
    out = []
    for k in range(3):
        r, w = dalitz_density(Q, order[k], g[k])
        out.append((r, w / w.sum()))
    return out


@oracle(final(3, 3), quick=130, thorough=1500)
def three_body(c):
    fs, q, es, product = c["fs"], c["q"], pe(c), c["product"]
    ms = [MASS[x] for x in fs]
    if q < 1.02 * sum(ms):
        return None
    q2 = q * q
    kind, cc = c["kind"], c["c"]
    if kind == 0:
        f, kw = (lambda s, t: 1 + 0 * s), {}
    else:
        f = lambda s, t: cc[0] + cc[1] * s / q2 + 3 * cc[2] * t / q2
        if kind == 1:
            kw = dict(msqrd=f)
        else:
            def mom(p):
                return f(ldot(p[:, 1], p[:, 1]) + ldot(p[:, 2], p[:, 2]) + 2 * ldot(p[:, 1], p[:, 2]),
                         ldot(p[:, 0], p[:, 0]) + ldot(p[:, 2], p[:, 2]) + 2 * ldot(p[:, 0], p[:, 2]))
            kw = dict(msqrd=mom, msqrd_signature="momenta")
    nb = 100 if kind < 2 else 40
    got = call(product, es, q, fs, False, nbins=nb, **kw)
    ref = np.zeros_like(got)
    width = np.zeros_like(got)
    tabs = three_tables(q, ms, f)
    require(got.shape == ((3, len(es)) if product == "neutrino" else es.shape), "shape %s", got.shape)
    for i, s in enumerate(fs):
        r, w = tabs[i]
        E = (q2 + ms[i] ** 2 - r ** 2) / (2 * q)
        if s in NAME and s not in NONE[product]:
            d = np.array([decay(product, s, es, x) for x in E])
            ref += np.tensordot(w, d, 1)
            # discretisation: variation of the decay spectrum between neighbouring energies
            k = 4.0 / nb
            width += k * np.max(d, axis=0)
        if (product == "positron" and s == "e") or (product == "neutrino" and s in ("ve", "vm", "vt")):
            lo, hi = E.min(), E.max()
            edges = np.sqrt(np.maximum(q2 + ms[i] ** 2 - 2 * q * es, 0))
            # density at es: derivative of the cumulative weight
            o = np.argsort(E)
            cum = np.concatenate([[0], np.cumsum(w[o])])
            mid = np.concatenate([[ms[i]], 0.5 * (E[o][1:] + E[o][:-1]), [(q2 + ms[i] ** 2 - (sum(ms) - ms[i]) ** 2) / (2 * q)]])
            h = 0.02 * (mid[-1] - mid[0])
            den = (np.interp(es + h, mid, cum) - np.interp(es - h, mid, cum)) / (2 * h)
            edge = (np.abs(es - mid[0]) < 2 * h) | (np.abs(es - mid[-1]) < 2 * h)
            near = (es > mid[0] - 2 * h) & (es < mid[-1] + 2 * h)
            row = {"e": 0, "ve": 0, "vm": 1, "vt": 2}[s]
            top = 4.0 / (mid[-1] - mid[0])
            if product == "neutrino":
                ref[row] += den
                width[row] += np.where(edge, top, np.where(near, 0.06 * top, 0))
            else:
                ref += den
                width += np.where(edge, top, np.where(near, 0.06 * top, 0))
    bad = np.abs(got - ref) > width + (0.02 + 2.0 / nb) * np.abs(ref) + 1e-9 / q
    require(not np.any(bad), "%s from %s at %r: %s, expected %s (tolerance %s)", product, fs, q, got, ref, width)
    if kind == 0:
        p = [1, 2, 0] if c["seed"] % 2 else [1, 0, 2]
        perm = call(product, es, q, tuple(fs[i] for i in p), False, nbins=nb)
        close(perm, got, 1e-4, "order of the particles", scale=1e-6 * np.max(np.abs(got)) + 1e-12 / q)
    if product == "neutrino":
        flavors(got, es, q, fs, c["seed"], nbins=nb, **kw)
    sc = call(product, float(es[0]), q, fs, False, nbins=nb, **kw)
    close(sc, got[..., 0], 1e-12, "scalar energy")
    if not np.any(ref):
        return None
    return [product, "kind%d" % kind]


@oracle(final(3, 3), quick=70, thorough=1200)
def radiation(c):
    """include_fsr adds, per charged particle, the splitting spectrum folded with its pair masses (averaged over partners)."""
    fs, q, es = c["fs"], c["q"], pe(c)
    ms = [MASS[x] for x in fs]
    if q < 1.02 * sum(ms):
        return None
    nb = 100
    on = call("photon", es, q, fs, True, nbins=nb)
    off = call("photon", es, q, fs, False, nbins=nb)
    got = on - off
    ref = np.zeros_like(got)
    lo_, hi_, wid = np.zeros_like(got), np.zeros_like(got), np.zeros_like(got)
    any_ = False
    for i, s in enumerate(fs):
        if s not in FSR:
            continue
        any_ = True
        per = []
        for j in range(3):
            if j == i:
                continue
            k = 3 - i - j
            mu, w = R._nodes(np.array(ms[i] + ms[j]), np.array(q - ms[k]), 120)
            d = R.pair_density(q, ms, i, j, mu) * w
            sp = np.array([ap(s, es, x) for x in mu])
            wid += 1.5 / nb * np.max(sp, axis=0)
            per.append(np.tensordot(d / d.sum(), sp, 1))
        ref += 0.5 * (per[0] + per[1])
        lo_ += np.minimum(*per)
        hi_ += np.maximum(*per)
    tol = wid + (0.02 + 2.0 / nb) * ref + 0.004 * (np.max(ref * es) / es) + 1e-9 * np.abs(off)
    require(np.all(np.abs(got - ref) <= tol), "radiation from %s at %r: %s, expected %s", fs, q, got, ref)
    once = call("photon", es, q, fs, True, nbins=nb, average_fsr=False) - off
    require(np.all((once >= lo_ - tol) & (once <= hi_ + tol)), "radiation without averaging from %s: %s outside [%s, %s]", fs, once, lo_, hi_)
    return ["charged%d" % sum(s in FSR for s in fs)] if any_ else None


@oracle(final(4, 5), quick=80, thorough=600)
def many_body(c):
    fs, q, es, product = c["fs"], c["q"], pe(c), c["product"]
    ms = [MASS[x] for x in fs]
    n = len(fs)
    if q < 1.05 * sum(ms):
        return None
    np.random.seed(c["seed"] % 2 ** 31)
    nb, fsr = 30, product == "photon" and c["fsr"]
    got = call(product, es, q, fs, fsr, nbins=nb, npts=1 << 13)
    ref, width = np.zeros_like(got), np.zeros_like(got)
    for i, s in enumerate(fs):
        emax = (q * q + ms[i] ** 2 - (sum(ms) - ms[i]) ** 2) / (2 * q)
        E, w = R._nodes(np.array(ms[i]), np.array(emax), 60)
        d = R.energy_density(q, ms, i, E) * w
        d = d / d.sum()
        if s in NAME and s not in NONE[product]:
            dd = np.array([decay(product, s, es, x) for x in E])
            ref += np.tensordot(d, dd, 1)
            width += 0.08 * np.max(dd, axis=0)
        if (product == "positron" and s == "e") or (product == "neutrino" and s in ("ve", "vm", "vt")):
            row = {"e": 0, "ve": 0, "vm": 1, "vt": 2}[s]
            den = R.energy_density(q, ms, i, es) / np.sum(R.energy_density(q, ms, i, E) * w)
            wd = 0.3 * den + 0.35 / (emax - ms[i])
            wd = np.where(es < emax * 1.001, wd, 0)
            if product == "neutrino":
                ref[row] += den
                width[row] += wd
            else:
                ref += den
                width += wd
        if fsr and s in FSR:
            per = []
            for j in range(n):
                if j == i:
                    continue
                hi = q - (sum(ms) - ms[i] - ms[j])
                mu, w = R._nodes(np.array(ms[i] + ms[j]), np.array(hi), 24)
                d = R.pair_density(q, ms, i, j, mu) * w
                per.append(np.tensordot(d / d.sum(), np.array([ap(s, es, x) for x in mu]), 1))
            m = np.mean(per, axis=0)
            ref += m
            width += 0.1 * m + 0.03 * np.max(m * es) / es
    bad = np.abs(got - ref) > width + 0.1 * np.abs(ref) + 1e-9 / q
    require(not np.any(bad), "%s from %s at %r: %s, expected %s", product, fs, q, got, ref)
    if not np.any(ref):
        return None
    return [product + ("+fsr" if fsr else ""), "n=%d" % n]


@oracle(final(3, 3), quick=40, thorough=500)
def rambo_three_body(c):
    """The Monte-Carlo integrator agrees with quadrature for three bodies."""
    fs, q, es, product = c["fs"], c["q"], pe(c), c["product"]
    if q < 1.05 * sum(MASS[x] for x in fs):
        return None
    prim = dict(positron={"e"}, neutrino={"ve", "vm", "vt"}, photon=set())[product]
    np.random.seed(c["seed"] % 2 ** 31)
    a = call(product, es, q, fs, c["fsr"], nbins=25, npts=1 << 15, three_body_integrator="rambo")
    ok = []
    for integ in ("quad", "trapz", "simps"):
        b = call(product, es, q, fs, c["fsr"], nbins=25, three_body_integrator=integ)
        top = np.max(np.abs(b) * es) / es
        ok.append(np.all(np.abs(a - b) <= (0.1 if not prim & set(fs) else 0.3) * np.abs(b) + 0.06 * top))
    require(all(ok), "%s from %s at %r: rambo disagrees with quad/trapz/simps %s", product, fs, q, ok)
    return product if np.any(a) else None


@oracle(st.tuples(final(1, 5), fl(0.2, 0.9999), st.integers(0, 3)), quick=120)
def rejected(t):
    c, u, k = t
    fs, product, es = c["fs"], c["product"], pe(c)
    if k == 0:
        q = u * sum(MASS[x] for x in fs)
        if q == 0:
            return None
    else:
        q = c["q"]
        fs = list(fs)
        fs[c["seed"] % len(fs)] = ["pion", "gluon", "X", "mu+", "K"][c["seed"] % 5]
    try:
        call(product, es, q, fs if len(fs) > 1 else fs[0] if c["fsr"] else fs, False)
    except Exception:
        return "below threshold" if k == 0 else "unknown"
    require(False, "%s at %r accepted (%s)", fs, q, "below threshold" if k == 0 else "unknown particle")


@oracle(st.tuples(final(2, 2), st.sampled_from(["tauon", "E", "vmu", "1", "electron"])), quick=20)
def flavour_names(t):
    c, f = t
    try:
        cut(S.dnde_neutrino, pe(c), c["q"], c["fs"], flavor=f)
    except AssertionError:
        return True
    require(False, "flavour %r accepted", f)
