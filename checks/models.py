"""Generated parameter points of the package's own dark-matter models.  A model is described by plain data:
dict(cls=name, kw=constructor arguments); build() makes the object."""
from checks.common import st, fl, logfl, signed
from hazma.scalar_mediator import ScalarMediator, HiggsPortal, HeavyQuark
from hazma.vector_mediator import VectorMediator, KineticMixing, QuarksOnly, VectorMediatorGeV, KineticMixingGeV, BLGeV
from hazma.rh_neutrino import RHNeutrino
from hazma.single_channel import SingleChannelAnn, SingleChannelDec

CLS = dict(ScalarMediator=ScalarMediator, HiggsPortal=HiggsPortal, HeavyQuark=HeavyQuark, VectorMediator=VectorMediator, KineticMixing=KineticMixing,
           QuarksOnly=QuarksOnly, VectorMediatorGeV=VectorMediatorGeV, KineticMixingGeV=KineticMixingGeV, BLGeV=BLGeV, RHNeutrino=RHNeutrino,
           SingleChannelAnn=SingleChannelAnn, SingleChannelDec=SingleChannelDec)

COUP = st.one_of(signed(logfl(1e-4, 1.0)), signed(logfl(1e-4, 1.0)), signed(logfl(1e-4, 1.0)), st.just(0.0))
NZ = signed(logfl(1e-4, 1.0))
PARAMS = {
    "ScalarMediator": dict(mx=logfl(1, 1500), ms=logfl(1, 3000), gsxx=NZ, gsff=COUP, gsGG=COUP, gsFF=COUP, lam=logfl(1e3, 1e6)),
    "HiggsPortal": dict(mx=logfl(1, 1500), ms=logfl(1, 3000), gsxx=NZ, stheta=NZ),
    "HeavyQuark": dict(mx=logfl(1, 1500), ms=logfl(1, 3000), gsxx=NZ, gsQ=NZ, mQ=logfl(1e3, 1e7), QQ=signed(fl(0.1, 2))),
    "VectorMediator": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, gvuu=COUP, gvdd=COUP, gvss=COUP, gvee=COUP, gvmumu=COUP),
    "KineticMixing": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, eps=NZ),
    "QuarksOnly": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, gvuu=COUP, gvdd=COUP, gvss=COUP),
    "VectorMediatorGeV": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, gvuu=COUP, gvdd=COUP, gvss=COUP, gvee=COUP, gvmumu=COUP, gvveve=COUP, gvvmvm=COUP, gvvtvt=COUP),
    "KineticMixingGeV": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, eps=NZ),
    "BLGeV": dict(mx=logfl(1, 1500), mv=logfl(1, 3000), gvxx=NZ, g=NZ),
    "RHNeutrino": dict(mx=logfl(1, 1500), theta=logfl(1e-6, 0.1), flavor=st.sampled_from(["e", "mu", "tau"])),
}
SCALAR = ["ScalarMediator", "HiggsPortal", "HeavyQuark"]
VECTOR = ["VectorMediator", "KineticMixing", "QuarksOnly"]
GEV = ["VectorMediatorGeV", "KineticMixingGeV", "BLGeV"]


@st.composite
def points(draw, names, **over):
    n = draw(st.sampled_from(list(names))) if not isinstance(names, str) else names
    kw = {k: draw(over.get(k, s)) for k, s in PARAMS[n].items()}
    return dict(cls=n, kw=kw)


def build(d):
    return CLS[d["cls"]](**d["kw"])


# centre-of-mass energies: 2 mx (1 + x), x from just above threshold to far above
XCM = st.one_of(logfl(1e-6, 0.05), logfl(0.01, 3.0), logfl(0.01, 3.0))


def ecm(d, x):
    return 2 * d["kw"]["mx"] * (1 + x)


# the two constant sets: cross-section kernels (fermion masses are passed in by the models) and widths
XS = dict(me=0.5109989461, mmu=105.6583745, mpi=139.57018, mpi0=134.9766, bm=2654.082197477761 * 7.1)      # fermion masses are passed in by the model
W = dict(me=0.5109989461, mmu=105.6583745, mpi=139.57039, mpi0=134.9768, bm=2759.0102319508087 * (2.16 + 4.67))
ALPHA = 1 / 137.04


def near(d, x, kind):
    """energy of the case: 2 mx (1+x), or tied to a threshold or to the resonance"""
    mx, ms = d["kw"]["mx"], d["kw"].get("ms", d["kw"].get("mv"))
    base = {"res": ms, "ss": 2 * ms, "pi": 2 * XS["mpi"], "pi0": 2 * XS["mpi0"], "mu": 2 * XS["mmu"], "e": 2 * XS["me"]}.get(kind, 2 * mx)
    return base * (1 + x)


ECM = st.tuples(st.sampled_from(["mx", "mx", "mx", "res", "ss", "pi", "pi0", "mu", "e"]), st.one_of(XCM, XCM, logfl(1e-6, 0.05).map(lambda v: -v), st.just(0.0)))
