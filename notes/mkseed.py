"""mkseed.py SPEC.py: SPEC defines ID, PROPERTY, EDITS=[(file, old, new)], DEMO (python source, exit by assertion), NEEDS, BREAKS.
Creates /verif/seeded/ID and validates it (demo both ways, baseline tests, the check of PROPERTY).  Flags: --notest, --nocheck."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V, R, WT = "/verif", "/repo", "/tmp/wt"
DEMO_SH = """#!/bin/bash
# Builds an importable copy of the tree in a scratch directory and runs demo.py against it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$tmp/mpl" OMP_NUM_THREADS=1
ov=$(VERIF_REPO="$PWD" VERIF_BUILD_ROOT="$tmp/build" /opt/venv/bin/python "$here/kit/vlib/build.py") || exit 3
cd "$tmp" && PYTHONPATH="$ov" timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main(spec):
    s = runpy.run_path(spec)
    d = os.path.join(V, "seeded", s["ID"])
    if not os.path.isdir(WT):
        sh("git -C /repo worktree prune; cp -a /repo /tmp/wt")
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD && git -C %s clean -fdq -e '*.so'" % (WT, WT, WT))
    for f, old, new in s["EDITS"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["DEMO"])
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    k = d + "/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(k + "/vlib")
    shutil.copy(V + "/vlib/build.py", k + "/vlib/")
    shutil.copytree(V + "/shim", k + "/shim", ignore=shutil.ignore_patterns("__pycache__", "gen_bessel.py"))
    json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd=R)
    b = sh("bash %s/demo.sh" % d, cwd=WT)
    print(s["ID"], "demo clean rc=%d patched rc=%d" % (a.returncode, b.returncode), a.stdout[-300:] if a.returncode else "", "|", b.stdout[-160:].strip().replace("\n", " / "))
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    if "--notest" not in sys.argv:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        try:
            r1 = sh("bash /opt/vp/build.sh")
            r2 = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        finally:
            sh("git -C /repo checkout -- .")
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open("/tmp/seed_out.json"))
        want = set(base["stable"] if "stable" in base else base["passed"] if "passed" in base else base)
        got = set(out["passed"]) if "passed" in out else {t for t, v in out.items() if v in ("passed", True)}
        print("   build rc=%d, missing tests: %s" % (r1.returncode, sorted(want - got)[:5]))
        ok = ok and r1.returncode == 0 and not want - got
    if "--nocheck" not in sys.argv:
        r = sh("python3 run.py %s" % s["PROPERTY"], cwd=V, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1"))
        rp = V + "/notes/seed_results.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[s["ID"]] = "yes" if r.returncode == 1 else "no"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
        print("   check rc=%d: %s" % (r.returncode, r.stdout[-420:].strip()))
    print("   ", "VALID" if ok else "INVALID")


main(sys.argv[1])
