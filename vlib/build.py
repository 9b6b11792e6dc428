"""Builds an importable overlay of /repo's current tree (Python + Rust core + Cython modules).

Nothing is written under /repo.  The overlay is keyed by the content of every input, so a stale one is never used.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(VERIF, "shim")
GLUE = os.path.join(SHIM, "glue")
ROOT = os.environ.get("VERIF_BUILD_ROOT", os.path.join(VERIF, "build"))
PY = "/opt/venv/bin/python"
SKIP_DIRS = {"__pycache__"}
SKIP_EXT = (".so", ".pyc", ".c", ".cpp", ".o")


class BuildError(Exception):
    pass


def _files(top):
    for d, dirs, files in os.walk(top):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            if not f.endswith(SKIP_EXT):
                yield os.path.join(d, f)


def _hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "hazma"), os.path.join(REPO, "rust", "src"), SHIM):
        for f in _files(top):
            h.update(os.path.relpath(f, top).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))


def _rust(dst):
    w = os.path.join(dst, "rust")
    os.makedirs(w, exist_ok=True)
    rc = ["rustc", "-A", "warnings", "-L", w, "--out-dir", w]
    _run(rc + ["--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "pyo3_macros", SHIM + "/pyo3_macros.rs"])
    _run(rc + ["--edition", "2024", "-O", "--crate-type", "rlib", "--crate-name", "pyo3", SHIM + "/pyo3.rs"])
    _run(rc + ["--edition", "2024", "-O", "--crate-type", "rlib", "--crate-name", "numpy", SHIM + "/numpy.rs"])
    _run(rc + ["--edition", "2021", "-O", "--crate-type", "rlib", "--crate-name", "spec_math", SHIM + "/spec_math.rs"])

    def lib(src):
        _run(["rustc", "--edition", "2024", "-C", "opt-level=2", "--crate-type", "cdylib", "--crate-name", "_core",
              "-A", "warnings", "-L", w, "--extern", "pyo3=" + w + "/libpyo3.rlib", "--extern",
              "numpy=" + w + "/libnumpy.rlib", "--extern", "spec_math=" + w + "/libspec_math.rlib", src,
              "-o", os.path.join(dst, "ov", "hazma", "_core.abi3.so")])
    try:
        lib(os.path.join(REPO, "rust", "src", "lib.rs"))
    except BuildError as first:
        # The glue uses something the stand-ins lack: take the glue files that do not compile from the snapshot,
        # everything else from /repo.
        g = os.path.join(dst, "glue", "rust", "src")
        shutil.copytree(os.path.join(REPO, "rust", "src"), g)
        os.symlink(os.path.join(REPO, "hazma"), os.path.join(dst, "glue", "hazma"))
        err, left = first, set(os.listdir(GLUE))
        while left:
            bad = {f for f in left if re.search(r"--> \S*/rust/src/%s:" % re.escape(f), str(err))} or left
            for f in bad:
                shutil.copy(os.path.join(GLUE, f), os.path.join(g, f))
            left -= bad
            try:
                lib(os.path.join(g, "lib.rs"))
            except BuildError as e:
                err = e
                continue
            sys.stderr.write("note: rust glue built from snapshot: %s\n" % " ".join(sorted(set(os.listdir(GLUE)) - left)))
            return
        raise first


def _cython(dst):
    ov = os.path.join(dst, "ov")
    pyx = []
    for f in _files(os.path.join(ov, "hazma")):
        if f.endswith(".pyx") and "/experimental/" not in f:
            pyx.append(os.path.relpath(f, ov))
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    if not suffix or sys.executable != PY:
        suffix = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"], text=True).strip()
    inc = subprocess.check_output([PY, "-c", "import sysconfig,numpy;print(sysconfig.get_path('include'));print(numpy.get_include())"], text=True).split()

    def one(src):
        base = src[:-4]
        mod = base.replace("/", ".")
        _run([PY, "-c", "import sys\nfrom Cython.Compiler.Main import compile as c, CompilationOptions as O\n"
              "r=c(sys.argv[1], O(), full_module_name=sys.argv[2], output_file=sys.argv[1][:-4]+'.c')\n"
              "sys.exit(1 if r.num_errors else 0)", src, mod], cwd=ov)
        _run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-fwrapv", "-DNDEBUG", "-I" + inc[0], "-I" + inc[1], base + ".c", "-o", base + suffix, "-lm"], cwd=ov)
    with cf.ThreadPoolExecutor(9) as ex:
        for fu in [ex.submit(one, s) for s in pyx]:
            fu.result()


def build(cython=True):
    """Returns the overlay directory (put it on PYTHONPATH)."""
    os.makedirs(ROOT, exist_ok=True)
    key = _hash()
    dst = os.path.join(ROOT, key)
    lock = open(os.path.join(ROOT, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        ov = os.path.join(dst, "ov")
        if not os.path.exists(os.path.join(dst, "rust.ok")):
            if os.path.isdir(dst):
                shutil.rmtree(dst)
            others = sorted((os.path.join(ROOT, d) for d in os.listdir(ROOT) if len(d) == 16), key=os.path.getmtime)
            for d in others[:-5]:
                shutil.rmtree(d, ignore_errors=True)
            os.makedirs(ov)
            shutil.copytree(os.path.join(REPO, "hazma"), os.path.join(ov, "hazma"),
                            ignore=lambda d, fs: [f for f in fs if f.endswith(SKIP_EXT) or f in SKIP_DIRS])
            _rust(dst)
            open(os.path.join(dst, "rust.ok"), "w").close()
        if cython and not os.path.exists(os.path.join(dst, "cython.ok")):
            _cython(dst)
            open(os.path.join(dst, "cython.ok"), "w").close()
        return ov
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    print(build("--no-cython" not in sys.argv))
