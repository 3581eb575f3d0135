"""Builds AMPE's dimension dependent Fortran kernels and the SAMRAI-free C++
from /repo's *current working tree* into shared libraries.

Nothing is cached between runs and nothing is written in /repo: m4 output and
objects go to a private scratch directory that is removed at exit."""
import atexit, ctypes, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AMPE_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(HERE, ".build")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="b", dir=base)
        owner = os.getpid()

        def clean(path=_scratch, owner=owner):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def _run(cmd, cwd=None, stdout=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=stdout or subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))


VARIANTS = {
    "opt": ["-O2"],
    # every array access is checked against its declared extents
    "chk": ["-O1", "-g", "-fcheck=bounds,mem,do"],
}


def build_fortran(dim, variant):
    src = os.path.join(REPO, "source", "fortran")
    out = os.path.join(scratch(), "f%d%s" % (dim, variant))
    os.makedirs(out, exist_ok=True)
    flags = VARIANTS[variant] + ["-fPIC", "-DNDIM=%d" % dim, "-DMAX_POL_T_INDEX=2"]
    jobs = []
    for f in sorted(glob.glob(os.path.join(src, "%dd" % dim, "*.m4"))):
        jobs.append(("m4", f))
    for f in sorted(glob.glob(os.path.join(src, "*.f"))):
        jobs.append(("f", f))

    def one(job):
        kind, f = job
        base = os.path.splitext(os.path.basename(f))[0]
        o = os.path.join(out, ("k_" if kind == "m4" else "c_") + base + ".o")
        if kind == "m4":
            g = os.path.join(out, base + ".f")
            with open(g, "wb") as fh:
                _run(["m4", "-DSAMRAI_FORTDIR=" + src, f], stdout=fh)
            f = g
        _run(["gfortran"] + flags + ["-I" + src, "-c", f, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    lib = os.path.join(out, "lib.so")
    _run(["gfortran", "-shared"] + objs + ["-o", lib])
    return lib


def build_cxx():
    """SAMRAI-free C++ of the ampe executable behind a small extern "C" shim."""
    src = os.path.join(REPO, "source")
    out = os.path.join(scratch(), "cxx")
    os.makedirs(out, exist_ok=True)
    files = [os.path.join(src, f) for f in
             ("TiltingFolchPlapp2005.cc", "TiltingMoelans2011.cc",
              "computeWeights3Pairs.cc")]
    files.append(os.path.join(HERE, "shim", "shim.cc"))

    def one(f):
        o = os.path.join(out, os.path.basename(f) + ".o")
        _run(["g++", "-std=c++11", "-O2", "-fPIC", "-I" + src,
              "-I" + os.path.join(HERE, "shim"), "-c", f, "-o", o])
        return o

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    lib = os.path.join(out, "lib.so")
    _run(["g++", "-shared"] + objs + ["-o", lib])
    return lib


_libs = {}


def lib(dim, variant="opt"):
    k = (dim, variant)
    if k not in _libs:
        _libs[k] = ctypes.CDLL(build_fortran(dim, variant))
    return _libs[k]


def cxx():
    if "cxx" not in _libs:
        _libs["cxx"] = ctypes.CDLL(build_cxx())
    return _libs["cxx"]
