"""Python side of the drivers in /verif/drv: a patch hierarchy of random shape
held by the test doubles, with numpy views of every array."""
import ctypes
import numpy as np
from . import registry, sambuild
from .core import Region, expand

I, D = ctypes.c_int, ctypes.c_double
_libs = {}


def prepare(name, *specs, dims=(2, 3)):
    """registers the driver build for these specs"""
    def build_it():
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda d: sambuild.driver(name, d), dims))
    build_it.__name__ = "driver_" + name
    for s in specs:
        registry.PREPARE.setdefault(s, []).append(build_it)


class Lib:
    def __init__(self, name, dim):
        self.so = ctypes.CDLL(sambuild.driver(name, dim), mode=ctypes.RTLD_LOCAL | 2)
        self.so.vd_error.restype = ctypes.c_char_p
        self.so.vd_part.restype = ctypes.c_void_p
        self.dim = dim

    def error(self):
        return self.so.vd_error().decode(errors="replace")


def lib(name, dim):
    if (name, dim) not in _libs:
        _libs[name, dim] = Lib(name, dim)
    return _libs[name, dim]


def carg(a):
    if isinstance(a, (bool, np.bool_)):
        return I(int(a))
    if isinstance(a, (int, np.integer)):
        return I(int(a))
    if isinstance(a, (float, np.floating)):
        return D(float(a))
    if isinstance(a, str):
        return ctypes.c_char_p(a.encode())
    if isinstance(a, Var):
        return I(a.id)
    if a is None:
        return I(-1)
    if isinstance(a, np.ndarray):
        assert a.flags.c_contiguous or a.flags.f_contiguous
        return ctypes.c_void_p(a.ctypes.data)
    if isinstance(a, (list, tuple)):
        t = I if all(isinstance(x, (int, np.integer)) for x in a) else D
        return (t * max(1, len(a)))(*a)
    return a


def db(d, ind=""):
    """dict -> text of a SAMRAI input database"""
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out.append("%s%s {\n%s%s}" % (ind, k, db(v, ind + "  "), ind))
            continue
        if not isinstance(v, (list, tuple, np.ndarray)):
            v = [v]
        r = []
        for x in v:
            if isinstance(x, (bool, np.bool_)):
                r.append("TRUE" if x else "FALSE")
            elif isinstance(x, str):
                r.append('"%s"' % x)
            elif isinstance(x, (int, np.integer)):
                r.append(str(int(x)))
            else:
                s = repr(float(x))
                r.append(s if ("." in s or "e" in s or "n" in s) else s + ".")
        out.append("%s%s = %s" % (ind, k, ", ".join(r)))
    return "\n".join(out) + "\n"


class View:
    """one array of one patch; view(R, shift, comp) reads a region"""

    def __init__(self, name, region, data, depth):
        self.name, self.region, self.data, self.depth = name, region, data, depth

    def sl(self, R, shift=None):
        lo, hi = list(R.lo), list(R.hi)
        if shift is not None:
            for d, k in (shift.items() if isinstance(shift, dict) else enumerate(shift)):
                lo[d] += k
                hi[d] += k
        for d in range(R.dim):
            if lo[d] < self.region.lo[d] or hi[d] > self.region.hi[d]:
                raise AssertionError("oracle reads %s outside its array: %s..%s of %s"
                                     % (self.name, lo, hi, self.region))
        return tuple(slice(l - L, h - L + 1) for l, h, L in zip(lo, hi, self.region.lo))

    def __call__(self, R, shift=None, comp=None):
        a = self.data[self.sl(R, shift)]
        if comp is None:
            return a[..., 0] if self.depth == 1 else a
        return a[..., comp]


class Var:
    def __init__(self, sc, name, id, kind, isint, depth, ng):
        self.sc, self.name, self.id, self.kind, self.isint = sc, name, id, kind, isint
        self.depth, self.ng = depth, ng
        self._views = {}

    def at(self, p=0, l=0, part=0):
        k = (l, p, part)
        if k not in self._views:
            n = self.sc.dim
            lo, hi, dep = (I * n)(), (I * n)(), I()
            ptr = self.sc.lib.so.vd_part(self.id, l, p, part, lo, hi, ctypes.byref(dep))
            assert ptr, "no data for %s" % self.name
            R = Region(list(lo), list(hi))
            shape = R.shape + (dep.value,)
            cnt = int(np.prod(shape))
            t = I if self.isint else D
            a = np.ctypeslib.as_array(ctypes.cast(ptr, ctypes.POINTER(t)), (cnt,))
            self._views[k] = View(self.name, R, a.reshape(shape, order="F"), dep.value)
        return self._views[k]

    def all(self):
        for l, p, box in self.sc.patches():
            for part in range(self.sc.dim if self.kind == "side" else 1):
                yield l, p, part, box

    def fill(self, kind="real", need=0, values=None):
        """same function of space on every patch of a level; only the `need`
        innermost ghost layers get values, the rest keeps its NaN"""
        g = self.sc.g
        for l in range(len(self.sc.levels)):
            pattern = g.src.pick(6) if values is None else 0
            seed = g.src.integer(0, 2 ** 31 - 1) if values is None else 0
            dom = self.sc.domain(l).grow(need)
            for part in range(self.sc.dim if self.kind == "side" else 1):
                R = dom.side(part) if self.kind == "side" else dom
                if values is None:
                    k = kind
                    if isinstance(k, tuple):
                        v = expand(pattern, seed + part, "inner", R.shape + (self.depth,), self.sc.dim, R)
                        v = k[0] + (k[1] - k[0]) * v
                    else:
                        v = expand(pattern, seed + part, k, R.shape + (self.depth,), self.sc.dim, R)
                else:
                    v = values(R, l, part) if callable(values) else values
                    v = np.asarray(v, float)
                    if v.ndim == self.sc.dim:
                        v = v[..., None]
                    v = np.broadcast_to(v, R.shape + (self.depth,))
                src = View(self.name, R, v, self.depth)
                for p, box in enumerate(self.sc.levels[l]):
                    t = box.grow(need)
                    if self.kind == "side":
                        t = t.side(part)
                    w = self.at(p, l, part)
                    w.data[w.sl(t)] = v[src.sl(t)]
        return self

    def set(self, a, p=0, l=0, part=0):
        self.at(p, l, part).data[...] = a


class Scene:
    """random geometry + variables of one case"""

    def __init__(self, g, name, minsize=2, maxsize=None, maxpatch=2, levels=1, periodic=None,
                 lo=None, even=False, ratio=None, dx=None, dom=None,
                 maybe_fine=False):
        self.g, self.dim = g, g.dim
        self.lib = lib(name, g.dim)
        self.so = self.lib.so
        self.so.vd_reset()
        n = self.dim
        m = maxsize or (7 if n == 2 else 4)
        if dom is None:
            dlo, dhi = [], []
            for d in range(n):
                k = g.int(minsize, m)
                if even:
                    k = max(minsize, k - k % 2)
                l0 = g.int(-4, 6) if lo is None else lo
                dlo.append(l0)
                dhi.append(l0 + k - 1)
            dom = Region(dlo, dhi)
        self.dom = dom
        g._box = dom
        self.dx0 = g.dx() if dx is None else np.asarray(dx, float)
        self.xlo = np.array([g.real(-1.0, 2.0) for _ in range(n)])
        self.xup = self.xlo + self.dx0 * np.array(dom.shape)
        self.per = [bool(g.bool()) for _ in range(n)] if periodic is None else list(periodic)
        self.so.vd_geom(carg(list(dom.lo)), carg(list(dom.hi)), carg([float(x) for x in self.xlo]),
                        carg([float(x) for x in self.xup]), carg([int(x) for x in self.per]))
        self.ratio = [np.ones(n, int)]
        boxes = self.cut(dom, maxpatch)
        self.levels = [boxes]
        self._level(0, boxes)
        for l in range(1, levels):
            r = np.array([ratio or 2] * n)
            self.ratio.append(r)
            self.levels.append(None)
        self.vars = []
        if maybe_fine and g.int(0, 2) == 2:
            self.refine(maxpatch)

    def refine(self, maxpatch=2):
        """a finer level over a random part of the domain"""
        g, l = self.g, len(self.levels)
        lo, hi = [], []
        for d in range(self.dim):
            a = g.int(self.dom.lo[d], self.dom.hi[d])
            b = min(self.dom.hi[d], a + g.int(0, 2))
            lo.append(2 * a)
            hi.append(2 * b + 1)
        self.ratio.append(np.array([2] * self.dim))
        self.levels.append(None)
        self.set_level(l, self.cut(Region(lo, hi), maxpatch))

    def touches(self, box, d, side, l=0):
        """box lies at a physical (not periodic) boundary of the domain"""
        D = self.domain(l)
        return (not self.per[d]) and (box.lo[d] == D.lo[d] if side == 0 else box.hi[d] == D.hi[d])

    def _level(self, l, boxes):
        flat = []
        for b in boxes:
            flat += list(b.lo) + list(b.hi)
        self.so.vd_level(l, carg([int(x) for x in self.ratio[l]]), len(boxes), carg([int(x) for x in flat]))

    def set_level(self, l, boxes):
        """finer level, boxes in its own index space"""
        self.levels[l] = boxes
        self._level(l, boxes)

    def cut(self, dom, maxpatch):
        """domain cut into at most maxpatch slabs"""
        g = self.g
        k = g.int(1, maxpatch) if maxpatch > 1 else 1
        boxes = [dom]
        for _ in range(k - 1):
            i = g.int(0, len(boxes) - 1)
            b = boxes[i]
            dd = [d for d in range(self.dim) if b.shape[d] >= 2]
            if not dd:
                break
            d = g.pick(dd)
            c = g.int(b.lo[d], b.hi[d] - 1)
            h1, l2 = list(b.hi), list(b.lo)
            h1[d], l2[d] = c, c + 1
            boxes[i:i + 1] = [Region(b.lo, h1), Region(l2, b.hi)]
        return boxes

    def domain(self, l=0):
        lo, hi = np.array(self.dom.lo), np.array(self.dom.hi)
        for k in range(1, l + 1):
            lo = lo * self.ratio[k]
            hi = (hi + 1) * self.ratio[k] - 1
        return Region([int(x) for x in lo], [int(x) for x in hi])

    def dx(self, l=0):
        v = self.dx0.copy()
        for k in range(1, l + 1):
            v = v / self.ratio[k]
        return v

    def patches(self):
        for l, bs in enumerate(self.levels):
            for p, b in enumerate(bs):
                yield l, p, b

    def centers(self, R, l=0):
        """coordinates of the cell centres of R"""
        d0 = self.domain(l)
        dx = self.dx(l)
        x0 = [self.xlo[d] + (R.lo[d] - d0.lo[d]) * dx[d] for d in range(self.dim)]
        return R.centers(dx, x0)

    def var(self, name, fill=None, need=0, depth=1, kind="cell", ng=None, isint=False, extra=2, values=None):
        if ng is None:
            ng = self.g.int(need, need + extra)
        id = self.so.vd_var(ctypes.c_char_p(name.encode()), 0 if kind == "cell" else 1, int(isint), depth,
                            carg([ng] * self.dim))
        v = Var(self, name, id, kind, isint, depth, ng)
        self.vars.append(v)
        if isint or fill is not None or values is not None:
            if isint:
                for l, p, part, box in v.all():
                    v.at(p, l, part).data[...] = 0
            else:
                v.fill(fill, need, values)
        return v

    # -- calls
    def mark(self):
        """the draws so far, for the case that the call crashes"""
        if self.g.oncase:
            self.g.oncase(self.g)

    def new(self, fn, *args):
        """constructs an object, returns its handle"""
        f = getattr(self.so, fn)
        f.restype = I
        self.mark()
        h = f(*[carg(a) for a in args])
        self.g.check(h >= 0, fn + ":construct", lambda: "%s failed: %s" % (fn, self.lib.error()))
        self.g.calls += 1
        return h

    def call(self, fn, *args, outs=(), expect_error=False, interior_only=True, key=None):
        """calls a driver function; everything but `outs` must stay bitwise
        unchanged, and outside the interiors so must `outs`"""
        key = key or fn
        g = self.g
        snap = {}
        for v in self.vars:
            for l, p, part, box in v.all():
                snap[v.id, l, p, part] = v.at(p, l, part).data.copy(order="F")
        f = getattr(self.so, fn)
        f.restype = I
        self.mark()
        rc = f(*[carg(a) for a in args])
        g.calls += 1
        if expect_error:
            return rc
        g.check(rc == 0, key + ":error", lambda: "%s failed: %s" % (fn, self.lib.error()))
        g.check(self.so.vd_guards() == 0, key + ":guards", "%s wrote outside an array" % fn)
        outs = set(o.id for o in outs)
        for v in self.vars:
            for l, p, part, box in v.all():
                w = v.at(p, l, part)
                a, b = w.data, snap[v.id, l, p, part]
                u = np.uint32 if v.isint else np.uint64
                if v.id in outs:
                    if not interior_only:
                        continue
                    R = box.side(part) if v.kind == "side" else box
                    m = np.ones(a.shape, bool)
                    m[w.sl(R)] = False
                    same = (a.view(u)[m] == b.view(u)[m]).all()
                else:
                    same = (a.view(u) == b.view(u)).all()
                g.check(same, key + ":frame",
                        lambda: "%s changed %s%s" % (fn, v.name, " outside the patch" if v.id in outs else ""))
        self.snap = snap
        return rc

    def before(self, v, p=0, l=0, part=0):
        w = v.at(p, l, part)
        return View(v.name, w.region, self.snap[v.id, l, p, part], w.depth)

    def dbl(self, fn, *args):
        f = getattr(self.so, fn)
        f.restype = D
        self.mark()
        self.g.calls += 1
        return f(*[carg(a) for a in args])

    def errcheck(self, key):
        self.g.check(not self.lib.error(), key, self.lib.error())
