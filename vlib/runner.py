"""Runs the oracles of one property: Hypothesis generates, the oracle decides, failures shrink to a replay file.

A check module (checks/<ID>.py) registers oracles and, for listed known findings, reproductions:

    @oracle(strategy, quick=200, thorough=4000)                 # fn(case) -> label(s) | None, raises Violation
    @oracle(strategy_of_param, params=[...], ...)               # fn(case, param); one budget per param
    @finding("key")                                             # fn() -> True while the defect is present

A case is plain JSON data.  Returning None/False means "trivial case"; anything else is a (non-trivial) label.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, settings  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
OVERLAY = os.environ.get("VERIF_OVERLAY", "")
TASK_SECONDS = float(os.environ.get("VERIF_TASK_SECONDS", "150" if TIER == "quick" else "1500"))
SHRINK_SECONDS = 15.0


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    pass


class _StopShrink(BaseException):
    pass


ORACLES = []
FINDINGS = {}
RULES = []


def oracle(strategy, quick=100, thorough=None, params=None, name=None):
    def deco(fn):
        ORACLES.append(dict(name=name or fn.__name__, fn=fn, strategy=strategy, quick=quick,
                            thorough=thorough if thorough is not None else quick * 15, params=params))
        return fn
    return deco


def finding(key):
    def deco(fn):
        FINDINGS[key] = fn
        return fn
    return deco


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def cut(fn, *a, **k):
    """Calls code under test; an exception it raises is a violation (the call is inside its documented domain)."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s: %s" % (getattr(fn, "__qualname__", repr(fn)), type(e).__name__, str(e)[:300]))


def rel(a, b, scale=0.0):
    """Elementwise |a-b| / max(|a|,|b|,scale); inf where a NaN appears on one side only."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        m = np.maximum(np.maximum(np.abs(a), np.abs(b)), scale)
        r = np.where(d == 0, 0.0, d / m)
    r = np.where((a == b), 0.0, r)
    r = np.where(np.isnan(a) & np.isnan(b), 0.0, r)
    return np.where(np.isnan(r), np.inf, r)


def close(a, b, tol, what, scale=0.0, ctx=None):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        try:
            np.broadcast_shapes(a.shape, b.shape)
        except ValueError:
            raise Violation("%s: shapes differ: %s vs %s" % (what, a.shape, b.shape))
    r = rel(a, b, scale)
    if np.size(r) and np.max(r) > tol:
        i = np.unravel_index(np.argmax(r), r.shape) if np.ndim(r) else ()
        av, bv = np.broadcast_arrays(a, b)
        raise Violation("%s: got %r, expected %r (rel diff %.3g > %.3g)%s" % (
            what, float(av[i]), float(bv[i]), float(r[i]), tol, "" if ctx is None else " [%s]" % (ctx,)))


def finite_nonneg(x, what, floor=0.0):
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        raise Violation("%s: non-finite value %r" % (what, x[~np.isfinite(x)].ravel()[:1]))
    if np.any(x < -floor):
        raise Violation("%s: negative value %r" % (what, float(np.min(x))))


_REAL_RNG = np.random.default_rng


def _seeded_rng(seed=None):
    """Entropy stand-in: unseeded generators become reproducible, so a run is a function of code and VERIF_SEED."""
    return _REAL_RNG(20240229 if seed is None else seed)


def _classify(e):
    """Violation, or a harness error?"""
    if isinstance(e, Violation):
        return Violation(str(e))
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    if OVERLAY and any(f.filename.startswith(OVERLAY) for f in frames):
        last = [f for f in frames if f.filename.startswith(OVERLAY)][-1]
        return Violation("exception in code under test (%s:%s): %s: %s" % (
            os.path.relpath(last.filename, OVERLAY), last.name, type(e).__name__, str(e)[:300]))
    return None


def _call(o, case, param):
    np.random.seed(1234567)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return o["fn"](case) if o["params"] is None else o["fn"](case, param)


def _run_task(task):
    oi, pi = task
    o = ORACLES[oi]
    param = None if o["params"] is None else o["params"][pi]
    n = o["quick"] if TIER == "quick" else o["thorough"]
    strat = o["strategy"](param) if o["params"] is not None and callable(o["strategy"]) and not hasattr(o["strategy"], "map") else o["strategy"]
    tag = o["name"] + ("" if param is None else "[%s]" % (param,))
    seed = int(hashlib.sha256(("%d/%s" % (SEED, tag)).encode()).hexdigest()[:12], 16)
    st = dict(evaluations=0, distinct=set(), labels={}, samples=[], fail=None, failed_at=None, budget_hit=False)
    t0 = time.time()

    def body(case):
        now = time.time()
        if st["failed_at"] is None and now - t0 > TASK_SECONDS:
            st["budget_hit"] = True
            return
        if st["failed_at"] is not None and now - st["failed_at"] > SHRINK_SECONDS:
            raise _StopShrink()
        st["evaluations"] += 1
        try:
            lab = _call(o, case, param)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            v = _classify(e)
            if v is None:
                raise HarnessError("".join(traceback.format_exception(e))[-3000:] + "\ncase=" + json.dumps(case)[:1500])
            js = json.dumps(case, sort_keys=True)
            if st["failed_at"] is None:
                st["failed_at"] = time.time()
            if st["fail"] is None or len(js) <= len(st["fail"][0]):
                st["fail"] = (js, str(v))
            raise v
        if lab is not None and lab is not False:
            js = json.dumps(case, sort_keys=True)
            st["distinct"].add(hashlib.sha1(js.encode()).digest()[:8])
            for x in (lab if isinstance(lab, (list, tuple)) else [lab]):
                x = "nontrivial" if x is True else str(x)
                st["labels"][x] = st["labels"].get(x, 0) + 1
            if len(st["samples"]) < 3 and (not st["samples"] or st["evaluations"] % 7 == 0):
                st["samples"].append(case)

    test = hypothesis.given(strat)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), print_blob=False,
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example,
                                           HealthCheck.filter_too_much])(test)
    err = None
    import io
    import contextlib
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            test()
    except _StopShrink:
        pass
    except Violation:
        pass
    except HarnessError as e:
        err = str(e)
    except BaseException as e:  # Hypothesis wraps (Flaky etc.)
        if st["fail"] is None:
            err = "".join(traceback.format_exception(e))[-3000:]
    return dict(tag=tag, oracle=o["name"], pi=pi, evaluations=st["evaluations"], distinct=len(st["distinct"]), labels=st["labels"],
                samples=st["samples"], fail=st["fail"], err=err, budget_hit=st["budget_hit"], wall=round(time.time() - t0, 2))


def _load_known(pid):
    with open(KNOWN_FILE) as f:
        d = json.load(f)
    return [x for x in d["findings"] if x["property"] == pid]


def main(pid, argv):
    np.random.default_rng = _seeded_rng
    warnings.simplefilter("ignore")
    t0 = time.time()
    try:
        mod = importlib.import_module("checks." + pid)
    except BaseException:
        traceback.print_exc()
        print("ERROR: check %s could not be loaded" % pid)
        return 2
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            r = json.load(f)
        if "finding" in r:
            bad = FINDINGS[r["finding"]]()
            print("finding %s %s" % (r["finding"], "reproduces" if bad else "does not reproduce"))
            return 1 if bad else 0
        o = [x for x in ORACLES if x["name"] == r["oracle"]][0]
        try:
            lab = _call(o, r["case"], None if o["params"] is None else o["params"][r["pi"]])
            print("holds:", lab)
            return 0
        except Exception as e:
            v = _classify(e)
            if v is None:
                raise
            print("VIOLATION property=%s replay=%s" % (pid, argv[1]))
            print("  ", v)
            return 1
    only = None
    if argv and argv[0] == "--only":
        only = argv[1]
    tasks = []
    for i, o in enumerate(ORACLES):
        if only and only not in o["name"]:
            continue
        for j in range(1 if o["params"] is None else len(o["params"])):
            tasks.append((i, j))
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as pool:
        res = pool.map(_run_task, tasks, chunksize=1)
    errs = [r for r in res if r["err"]]
    fails = [r for r in res if r["fail"]]
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    for r in fails:
        nviol += 1
        path = os.path.join(rdir, "%s-%s.json" % (pid, "".join(c if c.isalnum() else "_" for c in r["tag"])[:80]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, oracle=r["oracle"], pi=r["pi"], case=json.loads(r["fail"][0]), message=r["fail"][1]), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s" % (r["tag"], r["fail"][1][:600]))
    known = {x["key"]: x for x in _load_known(pid)}
    for key, x in known.items():
        if key not in FINDINGS:
            print("ERROR: known finding %s has no reproduction" % key)
            errs.append(dict(tag="finding " + key, err="no reproduction"))
    reproduced = 0
    if not only:
        for key, fn in FINDINGS.items():
            np.random.seed(1234567)
            with np.errstate(all="ignore"):
                try:
                    bad = fn()
                except Exception as e:
                    bad = None
                    if _classify(e) is not None:      # the reproduction itself breaks inside the code under test
                        nviol += 1
                        path = os.path.join(rdir, "%s-finding-%s.json" % (pid, key))
                        with open(path, "w") as f:
                            json.dump(dict(property=pid, finding=key), f)
                        print("VIOLATION property=%s replay=%s" % (pid, path))
                        print("   %s: %s" % (key, _classify(e)))
                        continue
                    errs.append(dict(tag="finding " + key, err="".join(traceback.format_exception(e))[-1500:]))
            if bad and key in known:
                reproduced += 1
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]["what"]))
            elif bad:
                nviol += 1
                path = os.path.join(rdir, "%s-finding-%s.json" % (pid, key))
                with open(path, "w") as f:
                    json.dump(dict(property=pid, finding=key), f)
                print("VIOLATION property=%s replay=%s" % (pid, path))
    if os.environ.get("VERIF_VERBOSE"):
        for r in sorted(res, key=lambda r: -r["wall"]):
            print("  %7.2fs %6d ev %6d distinct %s %s %s" % (r["wall"], r["evaluations"], r["distinct"], r["tag"], r["labels"], "BUDGET" if r["budget_hit"] else ""))
    for e in errs:
        print("HARNESS ERROR in %s:\n%s" % (e["tag"], e["err"]))
    ev = sum(r["evaluations"] for r in res)
    samples = []
    for r in res:
        if r["samples"]:
            s = json.dumps(r["samples"][0])
            samples.append(dict(oracle=r["tag"], case=r["samples"][0] if len(s) < 1500 else s[:1500] + "..."))
    out = dict(property=pid, tier=TIER, seed=SEED, level="exploration",
               coverage=dict(evaluations=ev, distinct_nontrivial=sum(r["distinct"] for r in res),
                             rule=getattr(mod, "RULE", (mod.__doc__ or "").strip()),
                             samples=samples[:40],
                             per_oracle=[dict(oracle=r["tag"], evaluations=r["evaluations"], distinct_nontrivial=r["distinct"],
                                              classes=r["labels"], wall_s=r["wall"], budget_hit=r["budget_hit"]) for r in res],
                             known_findings_reproduced=reproduced),
               assumptions=getattr(mod, "ASSUMPTIONS", []),
               wall_s=round(time.time() - t0, 2), violations=nviol)
    if not only:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(out, f, indent=1)
    vac = [r["tag"] for r in res if not r["fail"] and not r["err"] and r["distinct"] == 0]
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d oracles, %d violations, %.1fs" % (
        pid, TIER, SEED, ev, out["coverage"]["distinct_nontrivial"], len(res), nviol, time.time() - t0))
    if vac:
        print("WARNING vacuous oracles:", vac)
    if nviol:
        return 1
    if errs:
        return 2
    return 0
