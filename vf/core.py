"""Case generation, guarded arrays, kernel calls and comparison.

A *spec* is a function spec(g) that draws one case from the generator `g`,
calls real AMPE code through ctypes and compares against an oracle.  All random
choices are drawn through `g.src`, so a case is exactly its list of draws (the
"trace"), which is what a replay file holds."""
import ctypes, itertools, math
import numpy as np


class Fail(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Discard(Exception):
    """Case outside the domain of the property (kept rare, counted)."""


# ---------------------------------------------------------------- sources

class HypSrc:
    """Draws through a Hypothesis data object and records the trace."""

    def __init__(self, data, st):
        self.data, self.st, self.trace = data, st, []

    def integer(self, lo, hi):
        v = self.data.draw(self.st.integers(lo, hi))
        self.trace.append(v)
        return v

    def real(self, lo, hi):
        v = self.data.draw(self.st.floats(lo, hi, allow_nan=False, allow_infinity=False))
        self.trace.append(v)
        return v

    def pick(self, n):
        v = self.data.draw(self.st.integers(0, n - 1))
        self.trace.append(v)
        return v


class ReplaySrc:
    """Replays a trace; values are clamped into range so that any trace is a
    valid case (which is what lets a crashing trace be minimised)."""

    def __init__(self, trace):
        self.src, self.pos, self.trace = list(trace), 0, []

    def _next(self, default):
        if self.pos < len(self.src):
            v = self.src[self.pos]
            self.pos += 1
            return v
        return default

    def integer(self, lo, hi):
        v = int(min(max(self._next(lo), lo), hi))
        self.trace.append(v)
        return v

    def real(self, lo, hi):
        v = float(min(max(self._next(lo), lo), hi))
        self.trace.append(v)
        return v

    def pick(self, n):
        return self.integer(0, n - 1)


# ---------------------------------------------------------------- regions

class Region:
    """Inclusive index box."""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = tuple(lo), tuple(hi)

    @property
    def shape(self):
        return tuple(h - l + 1 for l, h in zip(self.lo, self.hi))

    @property
    def dim(self):
        return len(self.lo)

    def side(self, d):
        hi = list(self.hi)
        hi[d] += 1
        return Region(self.lo, hi)

    def grow(self, n):
        if isinstance(n, int):
            n = [n] * self.dim
        return Region([l - k for l, k in zip(self.lo, n)], [h + k for h, k in zip(self.hi, n)])

    def shift(self, s):
        return Region([l + k for l, k in zip(self.lo, s)], [h + k for h, k in zip(self.hi, s)])

    def centers(self, dx, xlo):
        """coordinates of cell centres, arrays broadcastable to shape"""
        out = []
        for d in range(self.dim):
            x = xlo[d] + (np.arange(self.shape[d]) + 0.5) * dx[d]
            sh = [1] * self.dim
            sh[d] = -1
            out.append(x.reshape(sh))
        return out

    def index(self, d):
        sh = [1] * self.dim
        sh[d] = -1
        return (np.arange(self.shape[d]) + self.lo[d]).reshape(sh) + np.zeros(self.shape, int)

    def __repr__(self):
        return "[%s..%s]" % (list(self.lo), list(self.hi))


GUARD = 96
_POISON = np.array([0x7ff8dead0000beef], dtype=np.uint64).view(np.float64)[0]
_IPOISON = -1987654321


class Field:
    """A Fortran array over an index region (ghosts included) between guard
    words.  `data` has shape region + comps."""

    def __init__(self, name, region, comps=(), dtype=np.float64, side=None, ng=0):
        self.name, self.region, self.comps = name, region, tuple(comps)
        self.dtype, self.side, self.ng = dtype, side, ng
        self.shape = region.shape + self.comps
        n = int(np.prod(self.shape))
        self.buf = np.empty(n + 2 * GUARD, dtype)
        self.buf[:] = _POISON if dtype == np.float64 else _IPOISON
        self.data = self.buf[GUARD:GUARD + n].reshape(self.shape, order="F")
        self.n = n
        self.role = "in"
        self.valid = None   # region of initialised values (inputs)
        self.read = self.data

    def ptr(self):
        return ctypes.c_void_p(self.buf.ctypes.data + GUARD * self.buf.itemsize)

    def guards_ok(self):
        g = np.concatenate([self.buf[:GUARD], self.buf[GUARD + self.n:]])
        if self.dtype == np.float64:
            return bool((g.view(np.uint64) == np.uint64(0x7ff8dead0000beef)).all())
        return bool((g == _IPOISON).all())

    def sl(self, R, shift=None):
        lo, hi = list(R.lo), list(R.hi)
        if shift is not None:
            if isinstance(shift, dict):
                for d, k in shift.items():
                    lo[d] += k
                    hi[d] += k
            else:
                for d, k in enumerate(shift):
                    lo[d] += k
                    hi[d] += k
        for d in range(R.dim):
            if lo[d] < self.region.lo[d] or hi[d] > self.region.hi[d]:
                raise AssertionError("oracle reads %s outside its array: %s..%s of %s"
                                     % (self.name, lo, hi, self.region))
        return tuple(slice(l - L, h - L + 1) for l, h, L in zip(lo, hi, self.region.lo))

    def __call__(self, R, shift=None, comp=None):
        a = self.read[self.sl(R, shift)]
        if comp is not None:
            if not isinstance(comp, tuple):
                comp = (comp,)
            a = a[(Ellipsis,) + comp]
        return a

    def clone(self, region=None, shift=None):
        """same field restricted to `region` (or translated by `shift`)"""
        R = region or self.region
        f = Field(self.name, R.shift(shift) if shift else R, self.comps, self.dtype,
                  self.side, self.ng)
        f.data[...] = self.read[self.sl(R)]
        f.role = self.role
        return f


# ---------------------------------------------------------------- generator

class Markers:
    pass


class _BOX:
    """lo0,hi0,lo1,hi1,..."""


class _LOHI:
    """lo0,lo1,..,hi0,hi1,.."""


BOX, LOHI = _BOX(), _LOHI()


class NG:
    """ghost width of a field, once"""

    def __init__(self, f):
        self.f = f


class NGS:
    """ghost width of a field once per dimension (FAC kernels)"""

    def __init__(self, f):
        self.f = f


class LH:
    """index extents of a field's (cell) box: lo0,hi0,lo1,hi1"""

    def __init__(self, f):
        self.f = f


class LLHH:
    def __init__(self, f):
        self.f = f


class SLH:
    """index extents of one side-centred array itself"""

    def __init__(self, f):
        self.f = f


class Hidden(str):
    """character*(*) argument: its length is appended to the argument list"""


SPECIAL = {
    "real": [0.0, 1.0, -1.0, 0.5],
    "phase": [0.0, 1.0, 0.5, 1e-3, 0.999, 0.0, 1.0],
    "wide": [0.0, 1.0, 0.5, -0.05, 1.05, 1.0, 0.0],
    "pos": [1.0, 0.5, 2.0],
    "conc": [0.0, 1.0, 0.5, 0.01],
    "temp": [1000.0, 300.0, 1500.0],
}


def expand(pattern, seed, kind, shape, dim, region):
    """Deterministically turns (pattern, seed) into field values."""
    rng = np.random.RandomState(seed % (2 ** 32))
    lohi = {"real": (-1.5, 1.5), "phase": (0.0, 1.0), "wide": (-0.08, 1.08),
            "pos": (0.2, 3.0), "conc": (0.0, 1.0), "temp": (300.0, 1800.0),
            "inner": (0.05, 0.95)}[kind]
    lo, hi = lohi
    if pattern == 0:     # smooth wave, never constant across neighbours
        a = np.zeros(shape)
        for c in np.ndindex(*shape[dim:]):
            ph = rng.uniform(0, 6.28, 3)
            k = rng.uniform(0.2, 1.3, dim)
            x = sum(k[d] * region.index(d) for d in range(dim))
            a[(Ellipsis,) + c] = 0.5 * (lo + hi) + 0.45 * (hi - lo) * np.sin(x + ph[0])
        return a
    if pattern == 1:     # random
        return rng.uniform(lo, hi, shape)
    if pattern == 2:     # mixture of special and random values
        sp = np.array(SPECIAL.get(kind, [0.5 * (lo + hi), lo + 0.1 * (hi - lo)]))
        a = rng.uniform(lo, hi, shape)
        m = rng.rand(*shape) < 0.6
        a[m] = sp[rng.randint(0, len(sp), int(m.sum()))]
        return a
    if pattern == 3:     # linear
        a = np.zeros(shape)
        for c in np.ndindex(*shape[dim:]):
            k = rng.uniform(-1, 1, dim)
            x = sum(k[d] * (region.index(d) - region.lo[d]) for d in range(dim))
            m = max(np.abs(x).max(), 1e-9)
            a[(Ellipsis,) + c] = 0.5 * (lo + hi) + 0.4 * (hi - lo) * x / m
        return a
    if pattern == 4:     # constant + spike
        a = np.zeros(shape)
        for c in np.ndindex(*shape[dim:]):
            a[(Ellipsis,) + c] = rng.uniform(lo, hi)
        flat = a.reshape(-1)
        flat[rng.randint(0, len(flat), max(1, len(flat) // 9))] = rng.uniform(lo, hi)
        return flat.reshape(shape)
    # constant
    a = np.zeros(shape)
    for c in np.ndindex(*shape[dim:]):
        a[(Ellipsis,) + c] = rng.uniform(lo, hi)
    return a


class Gen:
    """One case: draws, fields, calls."""

    def __init__(self, src, dim, libs, variant="opt", mode="ref", known=(), oncase=None):
        self.src, self.dim, self.libs = src, dim, libs
        self.variant = variant
        self.mode = mode          # ref | mem | tile
        self.known = known
        self.hits = []            # known findings met
        self.labels = {}
        self.nontrivial = False
        self.calls = 0
        self.compared = 0
        self.fields = []
        self.summary = []
        self.oncase = oncase
        self._box = None

    # -- scalar draws
    def int(self, lo, hi):
        return self.src.integer(lo, hi)

    def real(self, lo, hi, special=()):
        """a real in [lo,hi]; `special` values are drawn one time in four"""
        if special and self.src.pick(4) == 3:
            return float(special[self.src.pick(len(special))])
        v = self.src.real(lo, hi)
        return float(v)

    def pos(self, lo=0.1, hi=3.0):
        return self.src.real(lo, hi)

    def pick(self, seq):
        return seq[self.src.pick(len(seq))]

    def bool(self):
        return self.src.pick(2) == 1

    def rng(self):
        return np.random.RandomState(self.src.integer(0, 2 ** 31 - 1))

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    # -- geometry
    def box(self, minsize=1, maxsize=None, nonneg=False, even=False):
        m = maxsize or (6 if self.dim == 2 else 4)
        lo, hi = [], []
        for d in range(self.dim):
            n = self.src.integer(minsize, m)
            l = self.src.integer(0 if nonneg else -7, 9)
            lo.append(l)
            hi.append(l + n - 1)
        self._box = Region(lo, hi)
        return self._box

    def dx(self):
        """grid spacings, different in every direction most of the time"""
        return np.array([self.src.real(0.05, 2.5) for _ in range(self.dim)])

    # -- fields
    def _vals(self, f, kind, valid):
        if callable(kind):
            v = kind(self, f, valid)
        elif isinstance(kind, tuple):
            pattern = self.src.pick(6)
            seed = self.src.integer(0, 2 ** 31 - 1)
            v = expand(pattern, seed, "inner", valid.shape + f.comps, self.dim, valid)
            v = kind[0] + (kind[1] - kind[0]) * v
        else:
            pattern = self.src.pick(6)
            seed = self.src.integer(0, 2 ** 31 - 1)
            v = expand(pattern, seed, kind, valid.shape + f.comps, self.dim, valid)
        f.data[f.sl(valid)] = v
        f.valid = valid

    def cell(self, name, need=0, comps=(), kind="real", ng=None, role="in", box=None,
             corners=True, maxg=None):
        """cell-centred array; ghost layers beyond `need` hold NaN."""
        b = box or self._box
        if ng is None:
            ng = self.src.integer(need, maxg if maxg is not None else need + 2)
        f = Field(name, b.grow(ng), comps, side=None, ng=ng)
        f.base = b
        f.role = role
        if role == "out":
            pass
        else:
            self._vals(f, kind, b.grow(need))
        self.fields.append(f)
        return f

    def icell(self, name, ng=0, comps=(), role="in", box=None, lo=0, hi=3):
        b = box or self._box
        f = Field(name, b.grow(ng), comps, dtype=np.int32, ng=ng)
        f.base = b
        f.role = role
        if role != "out":
            seed = self.src.integer(0, 2 ** 31 - 1)
            f.data[...] = np.random.RandomState(seed).randint(lo, hi + 1, f.shape)
        self.fields.append(f)
        return f

    def side(self, name, need=0, comps=(), kind="real", ng=None, role="in", box=None,
             dtype=np.float64, maxg=None):
        """side-centred array: list of one field per direction"""
        b = box or self._box
        if ng is None:
            ng = self.src.integer(need, maxg if maxg is not None else need + 2)
        out = []
        for d in range(self.dim):
            f = Field("%s%d" % (name, d), b.grow(ng).side(d), comps, side=d, ng=ng, dtype=dtype)
            f.base = b
            f.role = role
            if role != "out":
                self._vals(f, kind, b.grow(need).side(d))
            out.append(f)
            self.fields.append(f)
        return out

    def out(self, name, comps=(), ng=None, **kw):
        return self.cell(name, 0, comps, role="out", ng=ng, **kw)

    def outside(self, name, comps=(), ng=None, **kw):
        return self.side(name, 0, comps, role="out", ng=ng, **kw)

    # -- verdicts
    def fail(self, key, msg):
        if key in self.known:
            self.hits.append(key)
            return
        raise Fail(key, msg)

    def check(self, cond, key, msg=""):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def close(self, got, exp, tol, key, what=""):
        got, exp = np.asarray(got, float), np.asarray(exp, float)
        self.compared += int(exp.size)
        bad = ~(np.abs(got - exp) <= np.asarray(tol) + 1e-290)  # not below the subnormal range
        if bad.any():
            i = np.argwhere(np.atleast_1d(bad))[0]
            gi = np.atleast_1d(got)[tuple(i)]
            ei = np.broadcast_to(np.atleast_1d(exp), np.atleast_1d(bad).shape)[tuple(i)]
            self.fail(key, "%s at %s: got %.17g expected %.17g" % (what, i.tolist(), gi, ei))
            return False
        if exp.size and np.abs(exp).max() > 0:
            self.nontrivial = True
        return True

    # -- calling
    def flat_args(self, args, box):
        out, keep, tail = [], [], []

        def i32(v):
            c = ctypes.c_int(int(v))
            keep.append(c)
            out.append(ctypes.byref(c))

        for a in args:
            if a is BOX:
                for d in range(self.dim):
                    i32(box.lo[d])
                    i32(box.hi[d])
            elif a is LOHI:
                for v in box.lo + box.hi:
                    i32(v)
            elif isinstance(a, Region):
                for d in range(self.dim):
                    i32(a.lo[d])
                    i32(a.hi[d])
            elif isinstance(a, NG):
                i32((a.f[0] if isinstance(a.f, list) else a.f).ng)
            elif isinstance(a, NGS):
                for d in range(self.dim):
                    i32((a.f[0] if isinstance(a.f, list) else a.f).ng)
            elif isinstance(a, SLH):
                for d in range(self.dim):
                    i32(a.f.region.lo[d])
                    i32(a.f.region.hi[d])
            elif isinstance(a, (LH, LLHH)):
                f = a.f[0] if isinstance(a.f, list) else a.f
                lo, hi = list(f.region.lo), list(f.region.hi)
                if f.side is not None:
                    hi[f.side] -= 1
                if isinstance(a, LH):
                    for d in range(self.dim):
                        i32(lo[d])
                        i32(hi[d])
                else:
                    for v in lo + hi:
                        i32(v)
            elif isinstance(a, Field):
                out.append(a.ptr())
                keep.append(a)
            elif isinstance(a, list) and a and isinstance(a[0], Field):
                for f in a:
                    out.append(f.ptr())
                    keep.append(f)
            elif isinstance(a, str):
                out.append(ctypes.c_char_p(a.encode()))
                if isinstance(a, Hidden):
                    tail.append(ctypes.c_size_t(len(a)))
            elif isinstance(a, (bool, int, np.integer)):
                i32(a)
            elif isinstance(a, (float, np.floating)):
                c = ctypes.c_double(float(a))
                keep.append(c)
                out.append(ctypes.byref(c))
            elif isinstance(a, np.ndarray):
                keep.append(a)
                out.append(a.ctypes.data_as(ctypes.c_void_p))
            else:
                raise AssertionError("bad argument %r" % (a,))
        return out + tail, keep

    def raw(self, name, args, box=None):
        """just the call"""
        fn = getattr(self.libs(self.dim, self.variant), name.lower() + "_")
        fl, keep = self.flat_args(args, box or self._box)
        if self.oncase:
            self.oncase(self)
        fn.restype = None
        fn(*fl)
        self.calls += 1

    def fun(self, name, *args, restype=ctypes.c_double):
        """Fortran function taking scalars by reference"""
        fn = getattr(self.libs(self.dim, self.variant), name.lower() + "_")
        fn.restype = restype
        fl, hidden, keep = [], [], []
        for a in args:
            if isinstance(a, str):
                fl.append(ctypes.c_char_p(a.encode()))
                hidden.append(ctypes.c_size_t(len(a)))
            elif isinstance(a, (int, np.integer)):
                fl.append(ctypes.byref(ctypes.c_int(int(a))))
            elif isinstance(a, np.ndarray):
                keep.append(a)
                fl.append(a.ctypes.data_as(ctypes.c_void_p))
            else:
                fl.append(ctypes.byref(ctypes.c_double(float(a))))
        if self.calls == 0 and self.oncase:
            self.oncase(self)
        self.calls += 1
        return fn(*fl, *hidden)

    def fields_of(self, args):
        fs = []
        for a in args:
            if isinstance(a, Field) and a not in fs:
                fs.append(a)
            elif isinstance(a, list):
                for f in a:
                    if isinstance(f, Field) and f not in fs:
                        fs.append(f)
        return fs

    def call(self, name, args, ref, key=None, box=None, tile=True, reltol=1e-12, sums=()):
        """Calls kernel `name`; `ref(E)` states what every array must hold
        afterwards.  `sums` are 1-element accumulators (ndarray arguments) that
        add up over patches."""
        key = key or name
        fs = self.fields_of(args)
        raws = [a for a in args if isinstance(a, np.ndarray)]
        for f in fs:
            f.read = f.data.copy(order="F")
        raw0 = [r.copy() for r in raws]
        # oracle first, on the pre-call values
        E = Expect(self, fs, raws)
        ref(E)
        tols = None
        if self.mode == "ref":
            tols = E.tolerances(ref, reltol)
        self.raw(name, args, box)
        for f in fs:
            if not f.guards_ok():
                self.fail(key + ":oob", "writes outside array %s" % f.name)
        E.compare(key, tols, raws, raw0, self.mode)
        if self.mode == "tile" and tile:
            self.tile_check(name, args, key, box or self._box, E, raws, raw0, sums)
        for f in fs:
            f.before = f.read
            f.read = f.data
        return E

    def tile_check(self, name, args, key, box, E, raws, raw0, sums):
        """The same patch cut in two (and each piece translated) must give
        the same values: results do not depend on the domain decomposition."""
        d = self.src.pick(self.dim)
        n = box.shape[d]
        cut = self.src.integer(0, n - 1)      # first piece has cut+1 cells (n: whole box)
        tr = [self.src.integer(-5, 5) * 2 for _ in range(self.dim)]
        pieces = []
        lo, hi = list(box.lo), list(box.hi)
        hi[d] = box.lo[d] + cut
        pieces.append(Region(lo, hi))
        if cut < n - 1:
            lo2, hi2 = list(box.lo), list(box.hi)
            lo2[d] = box.lo[d] + cut + 1
            pieces.append(Region(lo2, hi2))
            self.nontrivial = True
        elif any(tr):
            self.nontrivial = True
        acc = [np.zeros_like(r) for r in raws]
        for P in pieces:
            sub = {}
            for f in self.fields_of(args):
                R = P.grow(f.ng)
                if f.side is not None:
                    R = R.side(f.side)
                sub[id(f)] = f.clone(R, tr)
            rsub = {id(r): z.copy() for r, z in zip(raws, raw0)}

            def m(a):
                if isinstance(a, Field):
                    return sub[id(a)]
                if isinstance(a, list):
                    return [m(x) for x in a]
                if isinstance(a, (NG, NGS, LH, LLHH, SLH)):
                    return type(a)(m(a.f))
                if isinstance(a, np.ndarray):
                    return rsub[id(a)]
                return a

            Pt = P.shift(tr)
            self.raw(name, [m(a) for a in args], Pt)
            for f in self.fields_of(args):
                g = sub[id(f)]
                self.check(g.guards_ok(), key + ":tile-oob", "%s on %s" % (f.name, Pt))
                w = E.mask.get(id(f))
                if w is None:
                    continue
                R = P if f.side is None else P.side(f.side)
                a = g.data[g.sl(R.shift(tr))]
                bfull = f.data[f.sl(R)]
                msk = w[f.sl(R)]
                if f.dtype == np.float64:
                    sc = np.abs(bfull[msk]).max() if msk.any() else 0.0
                    if not np.isfinite(sc):
                        sc = 1.0
                    bad = msk & ~(np.abs(a - bfull) <= 1e-9 * sc + E.tile_tol.get(id(f), 0.0))
                else:
                    bad = msk & (a != bfull)
                self.compared += int(msk.sum())
                if bad.any():
                    i = tuple(np.argwhere(bad)[0])
                    self.fail(key + ":tile", "%s depends on the patch: cut %s of %s, at %s: %.17g vs %.17g"
                              % (f.name, P, box, list(i), a[i], bfull[i]))
            for k, r in enumerate(raws):
                acc[k] = acc[k] + (rsub[id(r)] - raw0[k])
        for k, r in enumerate(raws):
            if any(r is s for s in sums):
                tot = r - raw0[k]
                sc = np.abs(tot).max() + np.abs(raw0[k]).max() + E.sum_scale
                bad = ~(np.abs(acc[k] - tot) <= 1e-9 * sc)
                if bad.any():
                    self.fail(key + ":tile-sum", "total over pieces %s differs from whole %s"
                              % (acc[k].tolist(), tot.tolist()))


class Expect:
    def __init__(self, g, fs, raws):
        self.g, self.fs, self.raws = g, fs, raws
        self.val, self.mask, self.care = {}, {}, {}
        self.rawexp = {}
        self.rawtol = {}
        self.tile_tol = {}
        self.sum_scale = 0.0
        self.slack = {}

    def put(self, f, R, a, comp=None, care=None):
        """after the call field f holds `a` on region R"""
        if id(f) not in self.val:
            self.val[id(f)] = np.array(f.read, order="F")
            self.mask[id(f)] = np.zeros(f.shape, bool)
            self.care[id(f)] = np.ones(f.shape, bool)
        s = f.sl(R)
        if comp is not None:
            if not isinstance(comp, tuple):
                comp = (comp,)
            s = s + comp
        elif len(f.comps):
            s = s + (Ellipsis,)
        self.val[id(f)][s] = a
        self.mask[id(f)][s] = True
        if care is not None:
            self.care[id(f)][s] = care

    def add(self, f, R, a, comp=None):
        self.put(f, R, self.cur(f, R, comp) + a, comp)

    def cur(self, f, R, comp=None):
        """value so far (for accumulating references)"""
        s = f.sl(R)
        if comp is not None:
            if not isinstance(comp, tuple):
                comp = (comp,)
            s = s + comp
        if id(f) in self.val:
            return self.val[id(f)][s].copy()
        return f.read[s].copy()

    def scalar(self, r, v, scale=0.0):
        """raw array argument r holds v after the call"""
        self.rawexp[id(r)] = np.array(v, float).reshape(r.shape)
        self.rawtol[id(r)] = scale

    def tolerances(self, ref, reltol):
        """Forward error estimate: how much the oracle itself moves when its
        inputs move by 1e-12 relative."""
        g = self.g
        rs = np.random.RandomState(12345)
        amount = {k: np.zeros_like(v, dtype=float) for k, v in self.val.items()}
        ramount = {k: np.zeros_like(v) for k, v in self.rawexp.items()}
        save = [f.read for f in self.fs]
        for rep in range(3):
            noise = [rs.uniform(-1, 1, f.shape) * 1e-12 if f.dtype == np.float64 else None
                     for f in self.fs]
            one, rone = {}, {}
            for sgn in (1.0, -1.0):
                for f, s, nz in zip(self.fs, save, noise):
                    if nz is not None:
                        f.read = s * (1.0 + sgn * nz)
                E2 = Expect(g, self.fs, self.raws)
                ref(E2)
                for k, v in E2.val.items():
                    dlt = np.abs(v - self.val[k])
                    dlt[~np.isfinite(dlt)] = 0.0
                    one[k] = dlt if k not in one else np.minimum(one[k], dlt)
                for k, v in E2.rawexp.items():
                    dlt = np.abs(v - self.rawexp[k])
                    rone[k] = dlt if k not in rone else np.minimum(rone[k], dlt)
            for k in one:
                amount[k] = np.maximum(amount[k], one[k])
            for k in rone:
                ramount[k] = np.maximum(ramount[k], rone[k])
        for f, s in zip(self.fs, save):
            f.read = s
        t = {}
        for k, v in self.val.items():
            m = self.mask[k] & self.care[k]
            vv = np.abs(v[m]) if m.any() else np.zeros(1)
            vv = vv[np.isfinite(vv)]
            sc = vv.max() if vv.size else 0.0
            t[k] = 100.0 * amount[k] + reltol * sc + self.slack.get(k, 0.0) + 1e-300
        for k, v in self.rawexp.items():
            t[("raw", k)] = 100.0 * ramount[k] + 1e-11 * (np.abs(v) + self.rawtol[k]) + 1e-300
        return t

    def compare(self, key, tols, raws, raw0, mode):
        g = self.g
        if mode == "mem":
            g.nontrivial = g.nontrivial or int(np.prod(g._box.shape)) > 1
        for f in self.fs:
            w = self.mask.get(id(f))
            got = f.data
            # untouched elsewhere, bit for bit
            if f.dtype == np.float64:
                same = got.view(np.uint64) == f.read.view(np.uint64)
            else:
                same = got == f.read
            bad = ~same if w is None else (~same & ~w)
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                g.fail(key + ":stray-write", "%s modified at %s, outside its output region"
                       % (f.name, list(i)))
            if w is None:
                continue
            exp = self.val[id(f)]
            m = w & self.care[id(f)]
            if mode == "mem":
                # ghost layers the kernel has no business reading hold NaN
                if f.dtype == np.float64:
                    bad = m & np.isfinite(exp) & ~np.isfinite(got)
                    g.compared += int(m.sum())
                    if bad.any():
                        i = tuple(np.argwhere(bad)[0])
                        g.fail(key + ":poison", "%s at index %s (box %s) is %r: a value outside the stencil was read"
                               % (f.name, [int(x) for x in i], g._box, got[i]))
            if mode != "ref":
                continue
            if f.dtype == np.float64:
                with np.errstate(invalid="ignore"):
                    ok = (np.abs(got - exp) <= tols[id(f)]) | (got == exp)
            else:
                ok = got == exp
            bad = m & ~ok
            g.compared += int(m.sum())
            if bad.any():
                i = tuple(np.argwhere(bad)[0])
                g.fail(key, "%s at index %s (box %s): got %.17g, expected %.17g (tolerance %.3g)"
                       % (f.name, [int(x) for x in i], g._box, got[i], exp[i],
                          tols[id(f)][i] if f.dtype == np.float64 else 0))
            if m.any():
                e = exp[m]
                if f.dtype != np.float64 or np.ptp(e) > 0 or (e.size == 1 and e[0] != 0):
                    g.nontrivial = True
        for r, z in zip(raws, raw0):
            if id(r) in self.rawexp:
                if mode == "ref":
                    t = tols[("raw", id(r))]
                    e = self.rawexp[id(r)]
                    g.compared += int(e.size)
                    bad = ~(np.abs(r - e) <= t)
                    if bad.any():
                        i = tuple(np.argwhere(bad)[0])
                        g.fail(key + ":sum", "accumulator at %s: got %.17g expected %.17g"
                               % (list(i), r[i], e[i]))
                    elif np.abs(e).max() > 0:
                        g.nontrivial = True
            else:
                # bitwise unchanged
                if not (r.tobytes() == z.tobytes()):
                    g.fail(key + ":stray-write", "modified an input argument array")
