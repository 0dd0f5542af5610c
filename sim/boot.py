"""Bootstrap: environment, extension build, seams installed before SMT is imported.

Everything here runs before the first `import smt`, so that a module that binds a patched
function at import time (`from time import time`) still gets the simulator's version.
"""
import os, sys, subprocess, hashlib, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {
    "LANG": "C.UTF-8",
    "PIP_NO_INDEX": "1", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mplconfig",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "OPENBLAS_CORETYPE": "Haswell",
}


def reexec():
    """Re-executes the interpreter of the project with a fixed environment."""
    if os.environ.get("VERIF_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault("PYTHONHASHSEED", "0")
    env["VERIF_BOOTED"] = "1"
    os.execve(PY, [PY, "-X", "faulthandler"] + sys.argv, env)


LIBS = ("idw", "rbf", "rmts")


def _so(lib):
    return os.path.join(REPO, "smt/surrogate_models/%sclib.cpython-312-x86_64-linux-gnu.so" % lib)


def _stamp(lib):
    """Same content hash as /opt/vp/env.sh's build_ext keeps in build/stamps."""
    src = os.path.join(REPO, "smt/src", lib)
    names = []
    for d, _, fs in os.walk(src):
        for f in fs:
            if f != lib + "clib.cpp":
                names.append(os.path.relpath(os.path.join(d, f), REPO))
    h = hashlib.sha256()
    h.update(open(os.path.join(REPO, "setup.py"), "rb").read())
    for n in sorted(names, key=lambda s: s.encode()):
        h.update(n.encode() + b"\n")
        h.update(open(os.path.join(REPO, n), "rb").read())
    return h.hexdigest()


def build():
    """Rebuilds the compiled extensions of the tree under test if their sources changed.

    Products go where the project's own build puts them: all of it is git-ignored.
    """
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build", ".verif.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stale = []
        for lib in LIBS:
            st = os.path.join(REPO, "build/stamps", lib)
            try:
                have = open(st).read().split()[0]
            except (OSError, IndexError):
                have = None
            if not os.path.exists(_so(lib)) or have != _stamp(lib):
                stale.append(lib)
        if not stale:
            return []
        for lib in stale:
            for f in (_so(lib), os.path.join(REPO, "smt/src", lib, lib + "clib.cpp"),
                      os.path.join(REPO, "build/stamps", lib)):
                if os.path.exists(f):
                    os.unlink(f)
        import glob, shutil
        for lib in stale:
            for d in glob.glob(os.path.join(REPO, "build", "temp.*", "smt", "src", lib)):
                shutil.rmtree(d, ignore_errors=True)
            for f in glob.glob(os.path.join(REPO, "build", "lib.*", "smt", "surrogate_models", lib + "clib.*.so")):
                os.unlink(f)
        r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "3"], cwd=REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not all(os.path.exists(_so(l)) for l in stale):
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            raise SystemExit(3)
        os.makedirs(os.path.join(REPO, "build/stamps"), exist_ok=True)
        for lib in stale:
            with open(os.path.join(REPO, "build/stamps", lib), "w") as f:
                f.write(_stamp(lib) + "  -\n")
        return stale


def load():
    """Installs the seams and imports SMT from the tree under test."""
    import warnings
    warnings.simplefilter("ignore")
    from . import seams
    seams.install()
    from . import sched
    sched.install_locks()
    sys.path.insert(0, REPO)
    import numpy as np
    seams.install_entropy()
    np.seterr(all="ignore")
    import smt
    assert os.path.realpath(smt.__file__).startswith(os.path.realpath(REPO) + os.sep), smt.__file__
    import smt.surrogate_models, smt.sampling_methods, smt.applications, smt.problems  # noqa
    import smt.utils.silence  # noqa
    warnings.simplefilter("ignore")
    return smt
