"""Shared generators."""
import math
import sys
import os
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)
from hypothesis import strategies as st  # noqa: E402
import hazma  # noqa: E402
if os.environ.get("VERIF_OVERLAY") and not hazma.__file__.startswith(os.environ["VERIF_OVERLAY"]):
    raise RuntimeError("hazma imported from %s, not from the overlay" % hazma.__file__)

ME, MMU, MPI, MPI0, MK, MK0, META = 0.510998928, 105.6583715, 139.57018, 134.9766, 493.677, 497.614, 547.862


def fl(a, b):
    return st.floats(a, b, allow_nan=False, allow_infinity=False)


def logfl(a, b):
    """Log-uniform-ish positive float."""
    return st.floats(math.log(a), math.log(b), allow_nan=False).map(math.exp)


def signed(s):
    return st.tuples(s, st.booleans()).map(lambda t: t[0] if t[1] else -t[0])


def seeds():
    return st.integers(0, 2 ** 31 - 1)


@st.composite
def mass_patterns(draw, nmin=2, nmax=6, rmax=0.95, cme=None):
    n = draw(st.sampled_from(list(range(nmax, nmin - 1, -1))))
    e = draw(logfl(1.0, 2e4)) if cme is None else draw(cme)
    kind = draw(st.sampled_from(["generic", "zeros", "equal", "one_heavy", "mixed"]))
    r = draw(fl(0.0, rmax))
    if kind == "zeros":
        w = [0.0] * n
        r = 0.0
    elif kind == "equal":
        w = [1.0] * n
    elif kind == "one_heavy":
        w = [1.0] + [draw(st.sampled_from([0.0, 1e-3, 1e-2])) for _ in range(n - 1)]
        w = draw(st.permutations(w))
    elif kind == "mixed":
        w = [draw(st.sampled_from([0.0, 0.5, 1.0, 1.0])) for _ in range(n)]
    else:
        w = [draw(fl(0.01, 1.0)) for _ in range(n)]
    s = sum(w)
    ms = [0.0] * n if s == 0 else [e * r * x / s for x in w]
    return dict(cme=e, masses=ms, kind=kind)
