"""Runs the whole of AMPE (drv/sim.cc) on a generated input: one child process
per run, the state and its right-hand side observed at every step."""
import ctypes, os, pickle, select, shutil, signal, tempfile, time
import numpy as np
from scipy.io import netcdf_file
from . import drv


class SimError(Exception):
    pass


def netcdf(path, fields):
    """fields: name -> array[z, y, x]"""
    shape = next(iter(fields.values())).shape
    f = netcdf_file(path, "w")
    for n, s in zip("zyx", shape):
        f.createDimension(n, s)
    for k, a in fields.items():
        v = f.createVariable(k, "d", ("z", "y", "x"))
        v[:] = a
    f.close()


def text(d, ind=""):
    """dict -> SAMRAI input text; an int stays an int, a float is a double"""
    o = []
    for k, v in d.items():
        if isinstance(v, dict):
            o.append("%s%s {\n%s%s}" % (ind, k, text(v, ind + "  "), ind))
            continue
        vs = v if isinstance(v, (list, tuple)) else [v]
        o.append("%s%s = %s" % (ind, k, ", ".join(_val(x) for x in vs)))
    return "\n".join(o) + "\n"


def _val(x):
    if isinstance(x, (bool, np.bool_)):
        return "TRUE" if x else "FALSE"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        s = repr(float(x))
        return s if "." in s or "e" in s or "n" in s else s + "."
    return '"%s"' % x


class World:
    """the fields of a running simulation, seen from the child"""

    def __init__(self, L, dim):
        self.L, self.dim = L, dim

    def attach(self):
        self.L.so.sm_attach()

    def id(self, name, ctx="CURRENT"):
        return self.L.so.sm_id(name.encode(), ctx.encode())

    def names(self):
        self.L.so.sm_name.restype = ctypes.c_char_p
        return [self.L.so.sm_name(i).decode() for i in range(self.L.so.sm_nids())]

    def boxes(self, l=0):
        r = []
        for p in range(self.L.so.sm_patches(l)):
            lo, hi = (ctypes.c_int * 3)(), (ctypes.c_int * 3)()
            self.L.so.sm_box(l, p, lo, hi)
            r.append((tuple(lo[:self.dim]), tuple(hi[:self.dim])))
        return r

    def levels(self):
        return self.L.so.sm_levels()

    def raw(self, id, l, p, part=0):
        lo, hi, dep = (ctypes.c_int * 3)(), (ctypes.c_int * 3)(), ctypes.c_int()
        a = self.L.so.vd_part(id, l, p, part, lo, hi, ctypes.byref(dep))
        if not a:
            raise SimError("no data for id %d" % id)
        n = [hi[i] - lo[i] + 1 for i in range(self.dim)]
        tot = int(np.prod(n)) * dep.value
        buf = (ctypes.c_double * tot).from_address(a)
        return np.frombuffer(buf, dtype=float).reshape(n + [dep.value], order="F"), tuple(lo[:self.dim])

    def field(self, id, l=0):
        """cell data of a whole level: array[x, y(, z), depth], NaN where there
        is no patch"""
        bx = self.boxes(l)
        lo = np.min([b[0] for b in bx], axis=0)
        hi = np.max([b[1] for b in bx], axis=0)
        out = None
        for p, (a, b) in enumerate(bx):
            x, xl = self.raw(id, l, p)
            if out is None:
                out = np.full([hi[i] - lo[i] + 1 for i in range(self.dim)] + [x.shape[-1]], np.nan)
            s = tuple(slice(a[i] - lo[i], b[i] - lo[i] + 1) for i in range(self.dim))
            t = tuple(slice(a[i] - xl[i], b[i] - xl[i] + 1) for i in range(self.dim))
            out[s] = x[t]
        return out

    def setfield(self, id, v, l=0):
        bx = self.boxes(l)
        lo = np.min([b[0] for b in bx], axis=0)
        for p, (a, b) in enumerate(bx):
            x, xl = self.raw(id, l, p)
            s = tuple(slice(a[i] - lo[i], b[i] - lo[i] + 1) for i in range(self.dim))
            t = tuple(slice(a[i] - xl[i], b[i] - xl[i] + 1) for i in range(self.dim))
            x[t] = v[s]

    def side(self, id, d, l=0):
        """side data normal to d of a whole level"""
        bx = self.boxes(l)
        lo = np.min([b[0] for b in bx], axis=0)
        hi = np.max([b[1] for b in bx], axis=0)
        out = None
        for p, (a, b) in enumerate(bx):
            x, xl = self.raw(id, l, p, d)
            if out is None:
                out = np.full([hi[i] - lo[i] + 1 + (i == d) for i in range(self.dim)] + [x.shape[-1]], np.nan)
            s = tuple(slice(a[i] - lo[i], b[i] - lo[i] + 1 + (i == d)) for i in range(self.dim))
            t = tuple(slice(a[i] - xl[i], b[i] - xl[i] + 1 + (i == d)) for i in range(self.dim))
            out[s] = x[t]
        return out


class Result:
    pass


def run(dim, inp, fields=None, cuts=(), fixed=0., final=("phase", "concentration", "quat", "temperature"),
        restart=None, keep=None, observe=None, maxstates=8, t4p=None, files=None, limit=60., after=None, extra=(), perturb=None, fine=None, replace=None):
    """One simulation.  inp: dict of the input file; fields: initial fields
    written to the netCDF file the input names; keep: directory for the
    restart files; restart: (directory, number) to start from.
    observe(world, t, h, y ids, ydot ids) -> anything picklable, per step."""
    L = drv.lib("sim", dim)
    r, w = os.pipe()
    tmp = tempfile.mkdtemp(prefix="sim", dir=os.environ.get("VF_SCRATCH", "/tmp"))
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            out = _child(L, dim, inp, fields, cuts, fixed, final, restart, keep, observe, maxstates, t4p, files,
                         tmp, after, extra, perturb, fine, replace)
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh, protocol=4)
            rc = 0
        except BaseException as e:
            import traceback
            try:
                with os.fdopen(w, "wb") as fh:
                    pickle.dump({"error": "python: " + traceback.format_exc()}, fh)
            except Exception:
                pass
        finally:
            os._exit(rc)
    os.close(w)
    buf, end = b"", time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise SimError("no answer after %g s" % limit)
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
        _, st = os.waitpid(pid, 0)
    finally:
        os.close(r)
        shutil.rmtree(tmp, ignore_errors=True)
    if os.WIFSIGNALED(st):
        raise SimError("killed by signal %d" % os.WTERMSIG(st))
    if not buf:
        raise SimError("the program stopped of itself with exit code %d" % os.WEXITSTATUS(st))
    d = pickle.loads(buf)
    if d.get("error"):
        raise SimError(d["error"])
    res = Result()
    res.__dict__.update(d)
    return res


_cb = ctypes.CFUNCTYPE(None, ctypes.c_double, ctypes.c_double, ctypes.c_int,
                       ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int))


def _child(L, dim, inp, fields, cuts, fixed, final, restart, keep, observe, maxstates, t4p, files, tmp, after, extra, perturb, fine, replace):
    so = L.so
    ctypes.CDLL(None).mallopt(-6, 0xA7 if perturb is None else perturb)   # M_PERTURB: what is never set is not zero
    so.vd_reset()
    if t4p is not None:
        so.vd_t4p(drv.carg(np.asarray(t4p, dtype=float)))
    os.chdir(tmp)
    inp = dict(inp)
    if fields:
        netcdf(os.path.join(tmp, "init.nc"), fields)
        inp["InitialConditions"] = dict(inp.get("InitialConditions", {}), filename="init.nc")
    if keep:
        os.makedirs(keep, exist_ok=True)
        inp["Restart"] = dict(inp.get("Restart", {}), dirname=keep)
    for k, v in (files or {}).items():
        so.sm_input(k.encode(), text(v).encode() if isinstance(v, dict) else v.encode())
    so.sm_input(b"run.input", text(inp).encode())
    for d in range(dim):
        c = list(cuts[d]) if d < len(cuts) else []
        so.sm_cuts(ctypes.c_int(d), ctypes.c_int(len(c)), (ctypes.c_int * max(1, len(c)))(*c))
        f = list((fine or {}).get("cuts", [[]] * dim)[d])
        so.sm_fine(ctypes.c_int((fine or {}).get("block", 2)), ctypes.c_int(d), ctypes.c_int(len(f)),
                   (ctypes.c_int * max(1, len(f)))(*f))
    so.sm_fixed(ctypes.c_double(fixed))
    W = World(L, dim)
    states, err = [], []

    def seen(t, h, n, y, f):
        try:
            W.attach()
            if len(states) >= maxstates:
                return
            Y, F = [y[i] for i in range(n)], [f[i] for i in range(n)]
            if observe:
                states.append(observe(W, t, h, Y, F))
            else:
                states.append((t, h, [W.field(i) for i in Y], [W.field(i) for i in F],
                               {k: W.field(W.id(*k.split("|"))) for k in extra}))
        except Exception as e:
            import traceback
            err.append(traceback.format_exc())
    cb = _cb(seen)
    so.sm_hook(cb)
    nend = [0]

    def ended(t, h, n, y, f):
        try:
            W.attach()
            replace(W, nend[0], t, h, [y[i] for i in range(n)])
            nend[0] += 1
        except Exception as e:
            import traceback
            err.append(traceback.format_exc())
    ce = _cb(ended)
    if replace:
        so.sm_end(ce)
    so.sm_capture(1)
    a, n = (restart if restart else ("", -1))
    rc = so.sm_init(b"run.input", a.encode(), ctypes.c_int(n))
    out = {"rc": rc, "msg": L.error(), "states": states, "stage": "init"}
    if rc == 0:
        out["init"] = {k: W.field(W.id(k)) for k in final if W.id(k) >= 0}
        rc = so.sm_run()
        out.update(rc=rc, msg=L.error(), stage="run")
    so.sm_output.restype = ctypes.c_char_p
    out["out"] = so.sm_output().decode(errors="replace")
    if rc == 0:
        W.attach()
        out["final"] = {k: W.field(W.id(k)) for k in final if W.id(k) >= 0}
        out["boxes"] = [W.boxes(l) for l in range(W.levels())]
        out["guards"] = so.vd_guards()
        if after:
            out["after"] = after(W)
    if err:
        out["error"] = err[0]
    return out
