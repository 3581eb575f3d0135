"""Runs AMPE's Python pre/post-processing scripts of /repo/utils in this
process, with a stand-in for netCDF4 that keeps the written dataset."""
import contextlib, io, os, random, sys, types
import numpy as np
from . import build

_code = {}


def _compiled(name):
    if name not in _code:
        p = os.path.join(build.REPO, "utils", name)
        with open(p) as fh:
            _code[name] = compile(fh.read(), p, "exec")
    return _code[name]


class Var:
    def __init__(self, name, dtype, dims, shape):
        self.name, self.dims = name, dims
        self.a = np.full(shape, np.nan, np.float32 if dtype == "f" else np.float64)

    def __setitem__(self, k, v):
        self.a[k] = v

    def __getitem__(self, k):
        return self.a[k]


class Dataset:
    last = None

    def __init__(self, name, mode="r", **kw):
        self.filename, self.mode, self.closed = name, mode, False
        self.dimensions, self.variables = {}, {}
        Dataset.last = self

    def createDimension(self, n, size):
        self.dimensions[n] = size

    def createVariable(self, n, dtype, dims):
        v = Var(n, dtype, dims, tuple(self.dimensions[d] for d in dims))
        self.variables[n] = v
        return v

    def close(self):
        self.closed = True


def quatmod():
    m = types.ModuleType("quat")
    exec(_compiled("quat.py"), m.__dict__)
    return m


class ScriptError(Exception):
    pass


def run(script, args):
    """-> (dataset or None, stdout)"""
    nc = types.ModuleType("netCDF4")
    nc.Dataset = Dataset
    save = {k: sys.modules.get(k) for k in ("netCDF4", "quat")}
    argv, state = sys.argv, random.getstate()
    out = io.StringIO()
    Dataset.last = None
    try:
        sys.modules["netCDF4"] = nc
        sys.modules["quat"] = quatmod()
        sys.argv = [script] + [str(a) for a in args]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            exec(_compiled(script), {"__name__": "__main__", "__file__": script})
    except SystemExit as e:
        if e.code:
            raise ScriptError("exit %r: %s" % (e.code, out.getvalue()[-300:]))
    except Exception as e:
        raise ScriptError("%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv = argv
        random.setstate(state)
        for k, v in save.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return Dataset.last, out.getvalue()
