"""Generated histories of parameter assignments, rejected assignments, reads and limit/constraint computations on every model class.
Reference model: a dictionary of the parameters last assigned; after each step group the used model must give exactly the observables of a model
freshly constructed from that dictionary, and failed or read-only operations must change nothing.
Non-trivial: at least one accepted assignment after a read; classes name the model and the kinds of operation."""
import copy
import numpy as np
from vlib.runner import oracle, require, close, cut, finding, Violation
from checks.common import st, fl, logfl, signed
from checks import models as D
from hazma.pbh import PBH

ASSUMPTIONS = ["GeV models are driven at centre-of-mass energies and mediator masses below 410 MeV, where no Monte-Carlo integration enters"]

SMALL = dict(mx=logfl(1, 180), mv=logfl(1, 410))
RANGES = {n: dict(p) for n, p in D.PARAMS.items()}
for n in D.GEV:
    RANGES[n].update(SMALL)
FSTATES = ["e e", "mu mu", "pi pi", "pi0 pi0", "k k", "pi0 eta", "mu e", "e pi", "g g", "pi0 g", "ve ve", "pi pi pi0"]
RANGES["RHNeutrino"] = dict(mx=logfl(1, 420), theta=logfl(1e-6, 0.1), flavor=st.sampled_from(["e", "mu", "tau"]))
RANGES["SingleChannelAnn"] = dict(mx=logfl(100, 1500), fs=st.sampled_from(FSTATES), sigma=logfl(1e-30, 1))
RANGES["SingleChannelDec"] = dict(mx=logfl(100, 1500), fs=st.sampled_from(FSTATES), width=logfl(1e-30, 1))
FORBID = {"HiggsPortal": ["gsff", "gsGG", "gsFF"], "HeavyQuark": ["gsff", "gsGG", "gsFF"],
          "KineticMixing": ["gvuu", "gvdd", "gvss", "gvee", "gvmumu"], "QuarksOnly": ["gvee", "gvmumu"],
          "KineticMixingGeV": ["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"],
          "BLGeV": ["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"]}
READS = ["widths", "xs", "bf", "photon", "positron", "lines", "limit", "plane", "cmb"]


@st.composite
def histories(draw, names):
    n = draw(st.sampled_from(names))
    p = RANGES[n]
    kw = {k: draw(s) for k, s in p.items()}
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        kind = draw(st.sampled_from(["set", "set", "set", "read", "read", "forbid" if n in FORBID else "set"]))
        if kind == "set":
            a = draw(st.sampled_from(sorted(p)))
            ops.append(["set", a, draw(p[a])])
        elif kind == "read":
            ops.append(["read", draw(st.sampled_from(READS)), draw(fl(0.02, 1))])
        else:
            ops.append(["forbid", draw(st.sampled_from(FORBID[n])), draw(D.NZ)])
    return dict(cls=n, kw=kw, ops=ops, x=draw(fl(0.02, 1.0)))


def observe(n, m, what, x):
    """One group of observables as a plain nested dictionary of floats/arrays."""
    dec = n in ("RHNeutrino", "SingleChannelDec")
    q = m.mx * (2 + 2 * x * 0.13 if n in D.GEV else 2 + 2 * x)
    es = np.geomspace(0.01, 0.95, 6) * (m.mx if dec else q) / 2
    a = () if dec else (q,)
    if what == "widths":
        if dec:
            return m.decay_widths()
        if n == "SingleChannelAnn":
            return {}
        r = dict(m.partial_widths())
        if n in D.SCALAR:
            r["attr"] = m.width_s
        elif n in D.VECTOR:
            r["attr"] = m.width_v
        else:
            r["attr"] = m.width_v()
        return r
    if what == "xs":
        return m.decay_widths() if dec else m.annihilation_cross_sections(q)
    if what == "bf":
        return m.decay_branching_fractions() if dec else m.annihilation_branching_fractions(q)
    if what == "photon":
        return dict(m.spectra(es, *a)) if n not in D.GEV else {k: f(es, q) for k, f in m.spectrum_funcs().items() if k in ("e e", "mu mu", "pi pi")}
    if what == "positron":
        return dict(m.positron_spectra(es, *a)) if n not in D.GEV else {k: f(es, q) for k, f in m.positron_spectrum_funcs().items() if k in ("mu mu", "pi pi")}
    if what == "lines":
        out = {}
        for nm, L in (("g", m.gamma_ray_lines(*a)), ("e", m.positron_lines(*a))):
            for k, d in L.items():
                out[nm + k] = [d["energy"], d["bf"]]
        return out


def same(got, ref, where):
    require(set(got) == set(ref), "%s: keys %s, a fresh model has %s", where, sorted(got), sorted(ref))
    for k in ref:
        g, r = np.asarray(got[k], float), np.asarray(ref[k], float)
        require(g.shape == r.shape, "%s %s: shape", where, k)
        ok = (g == r) | (np.isnan(g) & np.isnan(r)) | (np.abs(g - r) <= 1e-9 * np.abs(r))
        require(np.all(ok), "%s %s: %r, a fresh model gives %r", where, k, got[k], ref[k])


def params_same(m, kw, where):
    for k, v in kw.items():
        require(getattr(m, k) == v, "%s: parameter %s is %r, assigned %r", where, k, getattr(m, k), v)


def run_read(n, m, what, x):
    """Operations that compute something expensive with the model; their results are not compared, only that they change nothing."""
    if what == "plane":
        if n == "HiggsPortal":
            m.constrain("mx", np.array([m.mx * 0.7, m.mx * 1.3]), "ms", np.array([m.ms * 0.6, m.ms * 1.7, m.ms * 2.1]))
        elif hasattr(m, "custom_constrain") and n in D.VECTOR:
            m.constraints()
    elif what == "cmb" and n in D.SCALAR + D.VECTOR:
        m.f_eff(1e-6)
    elif what == "limit" and n in D.SCALAR + D.VECTOR:
        m.total_conv_spectrum_fn(1.0, 50.0, 2 * m.mx * (1 + x), lambda e: 0.1)


def reading(n, m, what, x):
    if what in ("limit", "plane", "cmb"):
        try:
            run_read(n, m, what, x)
        except NotImplementedError:
            pass
    elif n.startswith("Single"):
        try:
            observe(n, m, what, x)
        except ValueError:  # spectra of a final state below its threshold are rejected
            pass
    else:
        cut(observe, n, m, what, x)


def history(case):
    n, kw, x = case["cls"], dict(case["kw"]), case["x"]
    m = D.CLS[n](**kw)
    labels = set([n])
    read = False
    for i, op in enumerate(case["ops"]):
        where = "after step %d %s" % (i + 1, op[:2])
        if op[0] == "set":
            try:
                setattr(m, op[1], op[2])
            except Exception as e:  # noqa: BLE001
                raise Violation("assigning %s=%r raised %r" % (op[1], op[2], e))
            kw[op[1]] = op[2]
            if read:
                labels.add("set %s after read" % op[1])
        elif op[0] == "forbid":
            before = getattr(m, op[1])
            try:
                setattr(m, op[1], op[2])
            except AttributeError:
                pass
            else:
                raise Violation("%s of a %s can be assigned" % (op[1], n))
            require(getattr(m, op[1]) == before, "rejected assignment changed %s", op[1])
            labels.add("rejected assignment")
        else:
            reading(n, m, op[1], op[2])
            read = True
            labels.add("read " + op[1])
        params_same(m, kw, where)
    fresh = D.CLS[n](**kw)
    # every public numeric property (masses derived from a flavour, widths, couplings, ...)
    names = [a for c in type(fresh).__mro__ for a, v in vars(c).items() if isinstance(v, property) and not a.startswith("_")]
    for a in sorted(set(names)):
        try:
            ref = getattr(fresh, a)
        except Exception:  # noqa: BLE001
            continue
        if isinstance(ref, (int, float, str)):
            got = cut(getattr, m, a)
            require(got == ref or (isinstance(ref, float) and abs(got - ref) <= 1e-9 * abs(ref)), "attribute %s is %r, a fresh model has %r", a, got, ref)
    for w in ("widths", "xs", "bf", "lines", "photon", "positron"):
        try:
            ref = observe(n, fresh, w, x)
        except Exception as e:  # noqa: BLE001  (a point at which this observable is not available)
            try:
                observe(n, m, w, x)
            except type(e):
                continue
            raise Violation("%s available only with a history (a fresh model raises %r)" % (w, e))
        same(cut(observe, n, m, w, x), ref, w)
    # repeated reading gives the same answer
    same(cut(observe, n, m, "xs", x), cut(observe, n, fresh, "xs", x), "second reading of xs")
    return sorted(labels)


@oracle(histories(D.SCALAR + D.VECTOR), quick=800, thorough=4000)
def mediator(case):
    return history(case)


@oracle(histories(D.GEV), quick=400, thorough=2000)
def gev(case):
    return history(case)


@oracle(histories(["RHNeutrino"]), quick=200, thorough=600)
def rh_neutrino(case):
    return history(case)


@oracle(histories(["SingleChannelAnn", "SingleChannelDec"]), quick=300, thorough=1500)
def single(case):
    return history(case)


def _tables():
    m = PBH.__new__(PBH)
    m.f_pbh_dummy, m._spectrum_kind, m._bh_secondary = 1, "secondary", False
    try:
        m._load_spec_data()
        return [float(v) for v in m._mxs]
    except Exception:  # noqa: BLE001
        from hazma.parameters import g_to_MeV
        return [float(g_to_MeV * 1e15)]


TABLE = _tables()


@oracle(st.tuples(st.lists(st.tuples(st.sampled_from(["mx", "f_pbh_dummy", "read"]), st.integers(0, 10 ** 6)), min_size=1, max_size=6), st.booleans(), fl(0.001, 10)), quick=60, thorough=600)
def black_hole(case):
    ops, prim, e = case
    kind = "primary" if prim else "secondary"
    m = PBH(TABLE[0], spectrum_kind=kind)
    masses = [float(v) for v in getattr(m, "_mxs", [TABLE[0]])]
    m.mx = masses[0]
    kw = dict(mx=masses[0], f_pbh_dummy=1)
    es = np.array([0.5, 1.0, 3.0]) * e
    for op, k in ops:
        if op == "read":
            cut(m.total_spectrum, es)
            cut(m.decay_widths)
        else:
            v = masses[k % len(masses)] if op == "mx" else 0.1 + k % 7
            setattr(m, op, v)
            kw[op] = v
        for a in ("spectrum_kind", "bh_secondary"):
            try:
                setattr(m, a, "primary")
            except (RuntimeError, AttributeError):
                continue
            raise Violation("%s can be assigned" % a)
    f = PBH(kw["mx"], f_pbh_dummy=kw["f_pbh_dummy"], spectrum_kind=kind)
    close(cut(m.total_spectrum, es), cut(f.total_spectrum, es), 1e-12, "black-hole spectrum", scale=1e-300)
    same(cut(m.decay_widths), cut(f.decay_widths), "widths")
    same(cut(m.decay_branching_fractions), cut(f.decay_branching_fractions), "branching fractions")
    return kind


@st.composite
def planes(draw):
    n = "HiggsPortal"  # the model whose constraints() are implemented
    kw = {k: draw(s) for k, s in D.PARAMS[n].items()}
    p1, p2 = draw(st.permutations(["mx", "ms", "gsxx", "stheta"]))[:2]
    v1 = draw(st.lists(RANGES[n][p1], min_size=1, max_size=3))
    v2 = draw(st.lists(RANGES[n][p2], min_size=1, max_size=3))
    return dict(cls=n, kw=kw, p1=p1, p2=p2, v1=v1, v2=v2)


@oracle(planes(), quick=30, thorough=500)
def plane(case):
    """constrain() and custom_constrain() evaluate each constraint of a model built at that grid point and leave the model alone."""
    n, kw = case["cls"], case["kw"]
    m = D.CLS[n](**kw)
    snap = copy.deepcopy(m.__dict__)
    p1, p2, v1, v2 = case["p1"], case["p2"], case["v1"], case["v2"]
    img = cut(m.constrain, p1, np.array(v1), p2, np.array(v2))
    same({k: v for k, v in m.__dict__.items() if isinstance(v, (int, float))}, {k: v for k, v in snap.items() if isinstance(v, (int, float))}, "model after constrain")
    grid = np.empty((len(v2), len(v1)), dtype=object)
    for j, b in enumerate(v2):
        for i, a in enumerate(v1):
            grid[j, i] = D.CLS[n](**dict(kw, **{p1: a, p2: b}))
    img2 = cut(m.custom_constrain, grid)
    same({k: v for k, v in m.__dict__.items() if isinstance(v, (int, float))}, {k: v for k, v in snap.items() if isinstance(v, (int, float))}, "model after custom_constrain")
    for j in range(len(v2)):
        for i in range(len(v1)):
            for k, f in grid[j, i].constraints().items():
                r = f()
                for nm, im in (("constrain", img), ("custom_constrain", img2)):
                    require(im[k].shape == (len(v2), len(v1)), "%s image of shape %s", nm, im[k].shape)
                    g = im[k][j, i]
                    require(g == r or (np.isnan(g) and np.isnan(r)) or abs(g - r) <= 1e-9 * abs(r), "%s %s at (%d, %d): %r, the model there gives %r", nm, k, j, i, g, r)
    return [n, "%dx%d" % (len(v1), len(v2))]
