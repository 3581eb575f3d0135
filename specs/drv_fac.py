"""C23, through AMPE's C++ classes: composite-grid elliptic operators and their
multigrid solver on hierarchies of one or two levels."""
import numpy as np
from vf import drv, ref as r
from vf.core import Region
from vf.drv import Scene, db
from vf.registry import spec


def scene(g, fine=None, name="fac", **kw):
    """one level, or two with ratio 2 and fine patches aligned with the coarse grid"""
    kw.setdefault("minsize", 2)
    sc = Scene(g, name, **kw)
    if fine is None:
        fine = g.int(0, 3) > 0
    if fine:
        lo, hi = [], []
        for d in range(sc.dim):
            a = g.int(sc.dom.lo[d], sc.dom.hi[d])
            lo.append(a)
            hi.append(min(sc.dom.hi[d], a + g.int(0, 3)))
        if g.int(0, 5) == 0:                # spans the domain in one direction
            d = g.int(0, sc.dim - 1)
            lo[d], hi[d] = sc.dom.lo[d], sc.dom.hi[d]
        F = Region(lo, hi)
        boxes = [Region([2 * x for x in b.lo], [2 * x + 1 for x in b.hi]) for b in sc.cut(F, 2)]
        sc.ratio.append(np.array([2] * sc.dim))
        sc.levels.append(None)
        sc.set_level(1, boxes)
        sc.fine = Region([2 * x for x in lo], [2 * x + 1 for x in hi])
        sc.covered = F
    else:
        sc.fine = sc.covered = None
    return sc


def robin(g, dim, plain=False):
    """a, b, g of the boundary condition a u + b du/dn = g at each location"""
    out = []
    for i in range(2 * dim):
        k = g.pick("vsr" if not plain else "vs")
        a, b = {"v": (1.0, 0.0), "s": (0.0, 1.0), "r": (g.real(0.1, 1.0), g.real(0.1, 1.0))}[k]
        out.append((a, b, g.real(-2, 2)))
    return out


def bcflat(bc):
    return [float(x) for t in bc for x in t]


class Composite:
    """reference operator C u + M div(D grad u) on the composite grid"""

    def __init__(self, sc, bc, M, C, D, ewing):
        self.sc, self.bc, self.M, self.C, self.D, self.ewing = sc, bc, M, C, D, ewing
        self.dim = sc.dim
        self.nl = len(sc.levels)

    def region(self, l):
        return self.sc.dom if l == 0 else self.sc.fine

    def dense(self, v, l, part=0, comp=0):
        """interior values of a variable on a level"""
        R = self.region(l)
        if v.kind == "side":
            R = R.side(part)
        a = np.full(R.shape, np.nan)
        for p, b in enumerate(self.sc.levels[l]):
            t = b.side(part) if v.kind == "side" else b
            a[tuple(slice(x - y, z - y + 1) for x, y, z in zip(t.lo, R.lo, t.hi))] = v.at(p, l, part)(t, comp=comp)
        return a

    def cells(self, x, l, comp=0):
        return x if np.isscalar(x) else self.dense(x, l, 0, comp)

    def coarse_fine(self, l, d, side):
        """level l's region ends here inside the domain, next to coarse cells"""
        if l == 0:
            return False
        R, Dm = self.region(l), self.sc.domain(l)
        at = R.lo[d] == Dm.lo[d] if side == 0 else R.hi[d] == Dm.hi[d]
        if not at:
            return True
        if not self.sc.per[d]:
            return False
        return R.lo[d] != Dm.lo[d] or R.hi[d] != Dm.hi[d]

    def ghost(self, u, l, d, side, hom):
        """the layer of values outside the region, one cell thick"""
        R, Dm, sc = self.region(l), self.sc.domain(l), self.sc
        first = np.take(u[l], [0 if side == 0 else -1], d)
        last = np.take(u[l], [-1 if side == 0 else 0], d)
        if self.coarse_fine(l, d, side):
            lo, hi = list(R.lo), list(R.hi)
            lo[d] = hi[d] = R.lo[d] - 1 if side == 0 else R.hi[d] + 1
            ix = []
            for e in range(self.dim):
                i = np.arange(lo[e], hi[e] + 1) // 2
                n = sc.dom.shape[e]
                i = (i - sc.dom.lo[e]) % n if sc.per[e] else i - sc.dom.lo[e]
                ix.append(i)
            return u[0][np.ix_(*ix)]
        if sc.per[d]:
            return last
        a, b, g = self.bc[2 * d + side]
        h = sc.dx(l)[d]
        return (h * (0.0 if hom else g) + first * (b - 0.5 * h * a)) / (b + 0.5 * h * a)

    def face(self, l, d, comp=0):
        return self.D if np.isscalar(self.D) else self.dense(self.D, l, d, comp)

    def padded(self, u, l, d, hom):
        """values with one ghost layer on both sides in a direction"""
        return np.concatenate([self.ghost(u, l, d, 0, hom), u[l], self.ghost(u, l, d, 1, hom)], d)

    def fluxes(self, u, hom, comp=0):
        """[level][direction], the composite ones: coarse faces along the fine
        level carry what the fine level sees"""
        F = []
        for l in range(self.nl):
            row = []
            for d in range(self.dim):
                x = self.padded(u, l, d, hom)
                D = self.face(l, d, comp)
                f = D * np.diff(x, axis=d) / self.sc.dx(l)[d]
                for side in (0, 1):
                    if self.ewing and self.coarse_fine(l, d, side):
                        at = 0 if side == 0 else -1
                        U = np.take(u[l], [at], d)
                        W = U
                        for e in range(self.dim):
                            if e != d:
                                s = W.shape
                                W = np.flip(W.reshape(s[:e] + (s[e] // 2, 2) + s[e + 1:]), e + 1).reshape(s)
                        Df = D if np.isscalar(D) else np.take(D, [at], d)
                        sg = 1.0 if side == 0 else -1.0
                        new = (2 * np.take(f, [at], d) + sg * Df * (W - U) / self.sc.dx(l)[d]) / 3
                        sl = [slice(None)] * self.dim
                        sl[d] = slice(0, 1) if side == 0 else slice(-1, None)
                        f[tuple(sl)] = new
                row.append(f)
            F.append(row)
        if self.nl > 1:
            Fi, Do, sc = self.sc.fine, self.sc.dom, self.sc
            for d in range(self.dim):
                for side in (0, 1):
                    f = np.take(F[1][d], [0 if side == 0 else -1], d)
                    for e in range(self.dim):
                        if e != d:
                            s = f.shape
                            f = f.reshape(s[:e] + (s[e] // 2, 2) + s[e + 1:]).mean(e + 1)
                    face = (Fi.lo[d] // 2 if side == 0 else (Fi.hi[d] + 1) // 2) - Do.lo[d]
                    n = Do.shape[d]
                    where = {face}
                    if sc.per[d] and face in (0, n):
                        where = {0, n}
                    for k in where:
                        sl = [slice(a // 2 - o, (b + 1) // 2 - o) for a, b, o in zip(Fi.lo, Fi.hi, Do.lo)]
                        sl[d] = slice(k, k + 1)
                        F[0][d][tuple(sl)] = f
        return F

    def apply(self, v, hom=False, comp=0, values=None):
        """(operator, size of its terms) on each level"""
        u = [self.dense(v, l, 0, comp) for l in range(self.nl)] if values is None else values
        F = self.fluxes(u, hom, comp)
        out, size = [], []
        for l in range(self.nl):
            dx = self.sc.dx(l)
            d = sum(np.diff(F[l][e], axis=e) / dx[e] for e in range(self.dim))
            M, C = self.cells(self.M, l), self.cells(self.C, l)
            out.append(M * d + C * u[l])
            big = max(np.abs(F[k][e]).max() / self.sc.dx(l)[e] for k in range(self.nl) for e in range(self.dim))
            size.append(np.abs(M).max() * big + np.abs(C).max() * np.abs(u[l]).max() + 1e-300)
        return out, size

    def valid(self, l):
        """cells of the level that no finer cell covers"""
        w = np.ones(self.region(l).shape, bool)
        if l == 0 and self.nl > 1:
            w[tuple(slice(a - o, b - o + 1) for a, b, o in
                    zip(self.sc.covered.lo, self.sc.covered.hi, self.sc.dom.lo))] = False
        return w


def ops(g, sc, kind="e", depth=1, bc=None, cf=None, solver=0, u=None, f=None, **opt):
    cf = cf or g.pick(["Ewing", "CONSTANT_REFINE"])
    opt.setdefault("coarse_solver_choice", "redblack")
    text = db(dict(cf_discretization=cf, **opt))
    h = sc.new("fd_new", ord(kind), depth, text, solver, bcflat(bc))
    sc.call("fd_init", h, u, f, outs=sc.vars, interior_only=False)
    return h, cf == "Ewing"


def compare(g, sc, K, v, exp, size, key, what, comp=0, tol=1e-10, ewing=False):
    t = 3e-7 if ewing else tol              # Ewing's weights are single precision
    for l in range(K.nl):
        w = K.valid(l)
        if not w.any():
            continue
        g.close(K.dense(v, l, 0, comp)[w], exp[l][w], t * max(size), key, "%s, level %d of %d" % (what, l, K.nl))
    if K.nl > 1:
        g.label("two levels")


def unknowns(g, sc, depth=1, solver=False):
    u = sc.var("u", "real", need=0, ng=g.int(1, 2), depth=depth)
    f = sc.var("f", "real", need=0, ng=0 if solver else g.int(0, 1), depth=depth)
    res = sc.var("res", "real", need=0, ng=g.int(0, 1), depth=depth)
    return u, f, res


def mobility(g, sc):
    """positive field with one ghost layer: periodic images, or the nearest cell"""
    rs = g.rng()

    def values(R, l, part):
        B = R.grow(-1)
        v = 0.1 + 1.9 * rs.rand(*B.shape)
        for d in range(sc.dim):
            w = [(int(k == d), int(k == d)) for k in range(sc.dim)]
            v = np.pad(v, w, mode="wrap" if sc.per[d] else "edge")
        return v
    return sc.var("m", values=values, need=1, ng=1)


def faces(g, sc, name, a, b):
    """field on the faces, the same on both ends of a periodic direction"""
    rs = g.rng()

    def values(R, l, part):
        v = a + (b - a) * rs.rand(*R.shape)
        if sc.per[part]:
            v = np.moveaxis(v, part, 0)
            v[-1] = v[0]
            v = np.moveaxis(v, 0, part)
        return v
    return sc.var(name, values=values, kind="side", ng=0)


def coefficients(g, sc, solver=False):
    """M, C, D; each constant or a field"""
    pos = (0.1, 2.0)
    M = g.pos(0.1, 2) if g.bool() else mobility(g, sc) if solver else sc.var("m", pos, ng=g.int(0, 1))
    k = g.int(0, 2)
    C = 0.0 if k == 0 else g.pos(0.1, 2) if k == 1 else sc.var("c", pos, ng=0)
    D = -g.pos(0.1, 2) if g.bool() else faces(g, sc, "d", -2.0, -0.1) if solver \
        else sc.var("d", (-2.0, -0.1), kind="side", ng=g.int(0, 1))
    return M, C, D


def setcoefs(sc, h, M, C, D):
    i = lambda x: -1 if np.isscalar(x) else x.id
    v = lambda x: float(x) if np.isscalar(x) else 0.0
    sc.call("fd_m", h, i(M), v(M))
    sc.call("fd_coef", h, 0, i(D), v(D), i(C), v(C))
    sc.call("fd_final", h)


@spec("C23", generic=False, kernels=["drv"])
def fac_operator(g):
    """residual and right-hand side of C u + M div(D grad u) on the composite grid"""
    sc = scene(g)
    bc = robin(g, sc.dim)
    u, f, res = unknowns(g, sc)
    M, C, D = coefficients(g, sc)
    h, ew = ops(g, sc, bc=bc, u=u, f=f)
    setcoefs(sc, h, M, C, D)
    K = Composite(sc, bc, M, C, D, ew)
    hom = bool(g.bool())
    sc.call("fd_residual", h, res, u, f, int(hom), outs=[res, u], interior_only=False, key="fac:residual")
    e, s = K.apply(u, hom)
    b = [K.dense(f, l) for l in range(K.nl)]
    compare(g, sc, K, res, [y - x for x, y in zip(e, b)], [t + np.abs(y).max() for t, y in zip(s, b)],
            "fac:residual", "residual", ewing=ew)
    e, s = K.apply(u, False)
    sc.call("fd_rhs", h, u, res, outs=[res, u], interior_only=False, key="fac:rhs")
    compare(g, sc, K, res, [-x for x in e], s, "fac:rhs", "minus the operator", ewing=ew)


WELLS = ["single", "double"]


@spec("C23", generic=False, kernels=["drv"])
def fac_coefficients(g):
    """the operators of the phase, eta, temperature and composition blocks"""
    sc = scene(g)
    bc = robin(g, sc.dim)
    kind = g.pick("pnxtc")
    depth = g.int(1, 2) if kind == "c" else 1
    u, f, res = unknowns(g, sc, depth)
    h, ew = ops(g, sc, kind, depth, bc, u=u, f=f)
    wk, it = g.pick("sd"), g.pick("lph")
    eps, gam, W = g.pos(0.1, 2), g.pos(0.01, 1), g.pos(0.1, 3)
    wname = {"s": "single", "d": "double"}[wk]
    if kind in "pnx":
        m = sc.var("mob", (0.1, 2.0), ng=g.int(0, 1))
        phi = sc.var("phi", "wide", ng=g.int(0, 2))
    if kind == "p":
        sc.call("fd_phase", h, phi, m, eps, gam, W, wname)
    elif kind == "x":
        sc.call("fd_phase", h, phi, m, eps, gam, W, wname)
    elif kind == "n":
        eta = sc.var("eta", "wide", ng=phi.ng)
        sc.call("fd_eta", h, phi, eta, m, eps, gam, ord(it), W, wname)
    elif kind == "t":
        tm, tc, td = g.pos(0.1, 2), g.pick([0.0, g.pos(0.1, 2)]), -g.pos(0.1, 2)
        sc.call("fd_temp", h, tm, tc, td)
    else:
        Ds = [sc.var("D%d" % k, (0.1, 2.0), kind="side", ng=g.int(0, 1)) for k in range(depth)]
        sc.call("fd_conc", h, gam, [d.id for d in Ds], depth, eps)
    sc.call("fd_final", h)
    if kind == "x" and g.bool():
        sc.call("fd_block", h, u, res, outs=[res, u], interior_only=False, key="fac:blocks")
    else:
        sc.call("fd_rhs", h, u, res, outs=[res, u], interior_only=False, key="fac:blocks")
    for k in range(depth):
        K = Composite(sc, bc, None, None, None, ew)
        if kind in "pnx":
            P = [K.dense(phi, l) for l in range(K.nl)]
            mm = [K.dense(m, l) for l in range(K.nl)]
            K.D = -gam * eps * eps
            K.M = 0
            K.cells = lambda x, l, comp=0: x[l]
            K.M = mm
            if kind == "p":
                K.C = [1 + gam * a * W * r.d2well(p, wk) for a, p in zip(mm, P)]
            elif kind == "x":
                K.C = [gam * a * W * r.d2well(p, wk) for a, p in zip(mm, P)]
            else:
                K.C = [1 + gam * a * W * r.interp(p, it) * r.d2well(K.dense(eta, l), wk)
                       for l, (a, p) in enumerate(zip(mm, P))]
        elif kind == "t":
            K.M, K.C, K.D = tm, tc, td
        else:
            K.M, K.C = eps, 1.0
            K.D = Ds[k]
            dense = K.dense
            K.dense = lambda v, l, part=0, comp=0: -gam * dense(v, l, part, 0) if v in Ds else dense(v, l, part, comp)
        e, s = K.apply(u, False, comp=k)
        compare(g, sc, K, res, [-x for x in e], s, "fac:" + {"p": "phase", "n": "eta", "x": "phase-temperature",
                "t": "temperature", "c": "composition"}[kind], "minus the operator of component %d" % k, comp=k, ewing=ew)


def rbgs(K, u, b, phases, l=0):
    """one colour of a Gauss-Seidel sweep on one level, homogeneous conditions"""
    sc = K.sc
    dx = sc.dx(l)
    e, s = K.apply(None, True, values=u)
    M, C = K.cells(K.M, l), K.cells(K.C, l)
    diag = np.zeros(u[l].shape) + C
    for d in range(K.dim):
        D = K.D if np.isscalar(K.D) else K.dense(K.D, l, d)
        if np.isscalar(D):
            diag = diag - M * 2 * D / dx[d] ** 2
        else:
            n = D.shape[d]
            diag = diag - M * (np.take(D, range(1, n), d) + np.take(D, range(0, n - 1), d)) / dx[d] ** 2
    w = np.zeros(u[l].shape, bool)
    R = K.region(l)
    for b_, colour in zip(sc.levels[l], phases):       # each patch has its own checkerboard
        ix = np.meshgrid(*[np.arange(n) for n in b_.shape], indexing="ij")
        w[tuple(slice(x - o, z - o + 1) for x, z, o in zip(b_.lo, b_.hi, R.lo))] = (sum(ix) + colour) % 2 == 0
    new = u[l] + (b - e[l]) / diag
    return [np.where(w, new, u[l])]


@spec("C23", generic=False, kernels=["drv"])
def fac_relaxation(g):
    """red-black sweeps on the coarsest level are Gauss-Seidel sweeps, each patch
    a checkerboard of its own, with values of the neighbours from before the colour; on any level an exact solution stays"""
    sc = scene(g)
    bc = robin(g, sc.dim)
    u, f, res = unknowns(g, sc)
    M, C, D = coefficients(g, sc)
    h, ew = ops(g, sc, bc=bc, u=u, f=f)
    setcoefs(sc, h, M, C, D)
    K = Composite(sc, bc, M, C, D, ew)
    K.nl = 1
    x = [K.dense(u, 0)]
    b = K.dense(f, 0)
    n = g.int(1, 3)
    sc.call("fd_smooth", h, u, f, 0, n, outs=[u], interior_only=False, key="fac:smooth")
    got, best = K.dense(u, 0), None
    for first in np.ndindex(*[2] * len(sc.levels[0])):
        y, top = x, np.abs(x[0]).max()
        for i in range(2 * n):
            y = rbgs(K, y, b, [x_ + i for x_ in first])
            top = max(top, np.abs(y[0]).max())
        err = np.abs(got - y[0]).max()
        if best is None or err < best[0]:
            best = err, y[0], top
    g.close(got, best[1], 1e-10 * best[2], "fac:smooth", "%d sweeps on level 0" % n)
    # right-hand side for which the present values are exact
    K.nl = len(sc.levels)
    l = g.int(0, K.nl - 1)
    sc.call("fd_residual", h, res, u, f, 1, outs=[res, u], interior_only=False)
    if l < K.nl - 1:                # the level on its own, as the smoother sees it
        return
    for p, bx in enumerate(sc.levels[l]):
        w, q = f.at(p, l), res.at(p, l)
        w.data[w.sl(bx)] -= q.data[q.sl(bx)]
    y = K.dense(u, l)
    sc.call("fd_smooth", h, u, f, l, n, outs=[u], interior_only=False, key="fac:fixed")
    g.close(K.dense(u, l), y, 1e-9 * max(np.abs(K.dense(u, k)).max() for k in range(K.nl)), "fac:fixed", "an exact solution on level %d moves" % l)


@spec("C23", generic=False, kernels=["drv"])
def fac_transfer(g):
    """restriction takes means, prolongation adds the coarse correction, weights
    are the volumes of the uncovered cells"""
    sc = scene(g, fine=True)
    bc = robin(g, sc.dim)
    u, f, res = unknowns(g, sc)
    w = sc.var("w", "real")
    pm = g.pick(["CONSTANT_REFINE", "CONSTANT_REFINE", "LINEAR_REFINE"])
    h, ew = ops(g, sc, bc=bc, u=u, f=f, prolongation_method=pm)
    K = Composite(sc, bc, 1.0, 0.0, -1.0, ew)
    sl = tuple(slice(a - o, b - o + 1) for a, b, o in zip(sc.covered.lo, sc.covered.hi, sc.dom.lo))

    def mean(x):
        for e in range(sc.dim):
            s = x.shape
            x = x.reshape(s[:e] + (s[e] // 2, 2) + s[e + 1:]).mean(e + 1)
        return x

    for what, src, dst in (("r", f, res), ("s", u, u)):
        e = K.dense(dst, 0)
        e[sl] = mean(K.dense(src, 1))
        sc.call("fd_restrict", h, ord(what), src, dst, 0, outs=[dst], interior_only=False, key="fac:restrict")
        g.close(K.dense(dst, 0), e, 1e-12 * np.abs(K.dense(src, 1)).max(), "fac:restrict", "restriction")
    e = [K.dense(u, l) for l in (0, 1)]
    add = e[0][sl]
    if pm == "CONSTANT_REFINE":
        for d in range(sc.dim):
            add = np.repeat(add, 2, d)
        sc.call("fd_restrict", h, ord("p"), u, u, 1, outs=[u], interior_only=False, key="fac:prolong")
        g.close(K.dense(u, 1), e[1] + add, 1e-12 * (np.abs(e[0]).max() + np.abs(e[1]).max()), "fac:prolong", "prolongation")
        g.close(K.dense(u, 0), e[0], 0.0, "fac:prolong", "coarse values after the prolongation")
    sc.call("fd_weights", h, w, outs=[w], interior_only=False)
    for l in range(K.nl):
        g.close(K.dense(w, l), np.prod(sc.dx(l)) * K.valid(l), 1e-12 * np.prod(sc.dx(0)), "fac:weights", "weights of level %d" % l)


def solver_scene(g, **kw):
    """periodic directions have powers of two of cells, as the coarse solver asks"""
    per = [bool(g.bool()) for _ in range(g.dim)]
    lo = [g.int(-4, 4) for _ in range(g.dim)]
    n = [g.pick([2, 4, 8] if g.dim == 2 else [2, 4]) if p else g.int(2, 8 if g.dim == 2 else 4) for p in per]
    return scene(g, dom=Region(lo, [a + k - 1 for a, k in zip(lo, n)]), periodic=per, **kw)


@spec("C23", generic=False, kernels=["drv"])
def fac_coarse_solve(g):
    """the matrix given to the linear solver of the coarsest level is the operator:
    solving with it solves the equation, whatever the patches"""
    sc = solver_scene(g)
    bc = robin(g, sc.dim)
    u, f, res = unknowns(g, sc, solver=True)
    M, C, D = coefficients(g, sc, solver=True)
    if np.isscalar(C) and C == 0.0:
        C = 0.5
    h, ew = ops(g, sc, bc=bc, u=u, f=f, coarse_solver_choice="hypre")
    setcoefs(sc, h, M, C, D)
    K = Composite(sc, bc, M, C, D, ew)
    K.nl = 1
    b = K.dense(f, 0)
    sc.call("fd_residual", h, res, u, f, 1, outs=[res, u], interior_only=False)       # as in a cycle
    sc.call("fd_coarsest", h, u, f, 1e-12, 100, outs=[u], interior_only=False, key="fac:coarse-solve")
    e, s = K.apply(u, True)
    g.close(e[0], b, 1e-8 * (s[0] + np.abs(b).max()), "fac:coarse-solve", "operator applied to the solution")


@spec("C23", generic=False, kernels=["drv"], weight=0.2)
def fac_solution(g):
    """a solve that reports success has a small residual, recomputed independently"""
    sc = solver_scene(g)
    bc = robin(g, sc.dim)
    kind = g.pick("ptce")
    u, f, res = unknowns(g, sc, solver=True)
    M = g.pos(0.1, 2) if kind in "tc" else mobility(g, sc)
    C = g.pos(0.1, 2) if kind in "te" else 1.0
    D = -g.pos(0.1, 2) if kind in "tpe" else faces(g, sc, "d", 0.1, 2.0)
    tol = 10.0 ** -g.int(4, 9)
    h, ew = ops(g, sc, kind, 1, bc, u=u, f=f, solver=1, max_cycles=30, residual_tol=tol, num_pre_sweeps=2, num_post_sweeps=2,
                coarse_solver_choice=g.pick(["redblack", "hypre"]), coarse_solver_tolerance=1e-8,
                coarse_solver_max_iterations=40)
    K = Composite(sc, bc, M, C, D, ew)
    if kind == "t":
        sc.call("fd_temp", h, M, C, D)
    elif kind == "e":
        setcoefs(sc, h, M, C, D)
    elif kind == "p":
        phi = sc.var("phi", "phase", ng=0)
        eps, gam, W = g.pos(0.1, 2), g.pos(0.01, 0.2), g.pos(0.1, 1)
        sc.call("fd_phase", h, phi, M, eps, gam, W, "double")
        K.D = -gam * eps * eps
        K.M = [K.dense(M, l) for l in range(K.nl)]
        K.C = [1 + gam * a * W * r.d2well(K.dense(phi, l), "d") for l, a in enumerate(K.M)]
        if min(c.min() for c in K.C) < 0.1:
            return
        K.cells = lambda x, l, comp=0: x[l]
    else:
        gam = g.pos(0.01, 1)
        sc.call("fd_conc", h, gam, [D.id], 1, M)
        dense = K.dense
        K.dense = lambda v, l, part=0, comp=0: -gam * dense(v, l, part, 0) if v is D else dense(v, l, part, comp)
    conv, out = np.zeros(1, np.int32), np.zeros(2)
    e0, s0 = K.apply(u)
    sc.call("fd_solve", h, u, f, conv, out, outs=[u], interior_only=False, key="fac:solve")
    g.label("converged" if conv[0] else "not converged")
    g.label("cycles %d" % (10 * (int(out[0]) // 10)))
    if not conv[0]:
        return
    e, s = K.apply(u)
    g.nontrivial = g.nontrivial or max(np.abs(K.dense(f, l) - e0[l]).max() for l in range(K.nl)) > 1e-3
    for l in range(K.nl):
        w = K.valid(l)
        if w.any():
            q = (K.dense(f, l) - e[l])[w]
            lim = tol * np.sqrt(sum(K.region(k).shape[0] ** 0 * np.prod(K.region(k).shape) for k in range(K.nl)))
            lim = lim * max(1.0, max(np.abs(K.dense(f, k)).max() + s0[k] for k in range(K.nl)))
            g.close(q, 0 * q, lim + (3e-7 if ew and K.nl > 1 else 1e-12) * max(s), "fac:solve", "residual of the solution, level %d" % l)


drv.prepare("fac", "fac_operator", "fac_coefficients", "fac_relaxation", "fac_transfer", "fac_coarse_solve", "fac_solution")
