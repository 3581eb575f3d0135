"""Demonstration helper: compiles AMPE's Fortran kernels of the tree in the
current directory into a scratch directory and calls them through ctypes."""
import atexit, ctypes, glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import numpy as np

_tmp = tempfile.mkdtemp(prefix="demo")
_pid = os.getpid()
atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True) if os.getpid() == _pid else None)


def _sh(cmd, **kw):
    p = subprocess.run(cmd, stderr=subprocess.PIPE, **kw)
    if p.returncode:
        sys.stderr.write(p.stderr.decode(errors="replace")[-2000:])
        sys.exit(3)


class Kernels:
    def __init__(self, dim):
        src = os.path.join(os.getcwd(), "source", "fortran")
        out = os.path.join(_tmp, "k%d" % dim)
        os.mkdir(out)

        def one(f):
            base = os.path.basename(f)
            o = os.path.join(out, base + ".o")
            if f.endswith(".m4"):
                g = os.path.join(out, base + ".f")
                with open(g, "wb") as fh:
                    _sh(["m4", "-DSAMRAI_FORTDIR=" + src, f], stdout=fh)
                f = g
            _sh(["gfortran", "-O1", "-fPIC", "-DNDIM=%d" % dim, "-I" + src, "-c", f, "-o", o])
            return o

        files = glob.glob(os.path.join(src, "%dd" % dim, "*.m4")) + [
            os.path.join(src, "functions.f"), os.path.join(src, "quat.f")]
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, files))
        so = os.path.join(out, "lib.so")
        _sh(["gfortran", "-shared"] + objs + ["-o", so])
        self.lib = ctypes.CDLL(so)

    def __call__(self, name, *args, fun=False):
        """ints, floats, strings and Fortran-ordered arrays -> one call."""
        a, hidden, keep = [], [], []
        for x in args:
            if isinstance(x, str):
                a.append(ctypes.c_char_p(x.encode()))
                hidden.append(ctypes.c_size_t(len(x)))
            elif isinstance(x, np.ndarray):
                assert x.flags.f_contiguous and x.dtype in (np.float64, np.int32), name
                a.append(ctypes.c_void_p(x.ctypes.data))
            elif isinstance(x, (bool, int, np.integer)):
                keep.append(ctypes.c_int(int(x)))
                a.append(ctypes.byref(keep[-1]))
            else:
                keep.append(ctypes.c_double(float(x)))
                a.append(ctypes.byref(keep[-1]))
        f = getattr(self.lib, name.lower() + "_")
        f.restype = ctypes.c_double if fun else None
        return f(*(a + hidden))


def cxx(files, code):
    """Compiles C++ sources of the tree with a small extern "C" wrapper."""
    src = os.path.join(os.getcwd(), "source")
    w = os.path.join(_tmp, "w.cc")
    open(w, "w").write(code)
    so = os.path.join(_tmp, "cxx.so")
    _sh(["g++", "-std=c++11", "-O1", "-fPIC", "-shared", "-I" + src]
        + [os.path.join(src, f) for f in files] + [w, "-o", so])
    return ctypes.CDLL(so)


def F(shape, v=0.0):
    return np.full(shape, float(v), order="F")


def I(shape, v=0):
    return np.full(shape, int(v), order="F", dtype=np.int32)


def rnd(rng, shape, lo=0.0, hi=1.0):
    return np.asfortranarray(rng.uniform(lo, hi, shape))


def quats(rng, shape):
    q = rng.normal(size=tuple(shape) + (4,))
    return np.asfortranarray(q / np.sqrt((q * q).sum(-1, keepdims=True)))


_bad = []


def expect(got, want, what, tol=1e-9):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    err = np.abs(got - want)
    lim = tol * (1 + np.abs(want))
    if not np.all(err <= lim):
        i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err - lim)), err.shape) if err.shape else ()
        print("MISMATCH %s at %s: got %r want %r" % (what, tuple(i), float(got[i] if err.shape else got), float(np.broadcast_to(want, err.shape)[i] if err.shape else want)))
        _bad.append(what)


def true(c, what):
    if not c:
        print("FAILED", what)
        _bad.append(what)


def done():
    print("demo: %s" % ("property broken" if _bad else "ok"))
    sys.exit(1 if _bad else 0)
