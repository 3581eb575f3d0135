"""C24, C25, C26 through AMPE's C++ classes: QuatSysSolver, QuatFACOps,
QuatLevelSolver, QuatFaceCoeff and DerivDiffusionCoeffForQuat on hierarchies of
one or two levels."""
import numpy as np
from vf import drv, quat as Q, ref as r
from vf.core import Region
from vf.drv import db
from vf.registry import spec
from .drv_fac import Composite, bcflat, scene, solver_scene
from .phase import iname
from .quatfac import avg_name, floor_name, norm_inv


class Lib:
    variant = "opt"

    def __init__(self, sc):
        self.dim, self.libs = sc.dim, lambda dim, variant: sc.so


class Orient(Composite):
    """fluxes fc grad(s q) of every component, s optionally the root of the mobility"""

    def __init__(self, sc, bc, fc, sm=None):
        super().__init__(sc, bc, None, None, None, False)
        self.fc, self.sm = fc, sm

    def face(self, l, d, comp=0):
        return self.fc[l][d]

    def layer(self, v, l, d, comp=0):
        """a variable with its ghost layers on both sides in a direction"""
        R = self.region(l)
        lo, hi = list(R.lo), list(R.hi)
        lo[d] -= 1
        hi[d] += 1
        R = Region(lo, hi)
        out = np.full(R.shape, np.nan)
        for p, b in enumerate(self.sc.levels[l]):
            lo, hi = list(b.lo), list(b.hi)
            lo[d] -= 1
            hi[d] += 1
            B = Region(lo, hi)
            out[tuple(slice(x - y, z - y + 1) for x, y, z in zip(B.lo, R.lo, B.hi))] = v.at(p, l)(B, comp=comp)
        return out

    def padded(self, u, l, d, hom):
        x = super().padded(u, l, d, hom)
        return x if self.sm is None else x * self.sm(self, l, d)

    def values(self, v, depth):
        return [[self.dense(v, l, 0, m) for l in range(self.nl)] for m in range(depth)]

    def div(self, F, l, rot=None, T=None, G=None):
        """divergence of F[m][l][d] over the components m; with rotations the
        upper-face flux is brought back to the frame of the cell"""
        out = 0
        for d in range(self.dim):
            f = np.stack([Fm[l][d] for Fm in F], -1)
            n = f.shape[d]
            a, b = np.take(f, range(1, n), d), np.take(f, range(n - 1), d)
            if rot is not None:
                k = np.take(self.dense(rot, l, d).astype(int), range(1, n), d)
                a = Q.rot(a, Q.inv(T[k]))
            out = out + (a - b) / self.sc.dx(l)[d]
        return out


def homogeneous(g, dim):
    """what the integrator sets up: fixed zero or no flux"""
    return [(1.0, 0.0, 0.0) if g.bool() else (0.0, 1.0, 0.0) for _ in range(2 * dim)]


def affine(g, dim, plain=False):
    """Robin conditions the level solver supports: a + b = 1"""
    out = []
    for i in range(2 * dim):
        a = g.pick([0.0, 1.0] if plain else [0.0, 1.0, g.real(0.1, 0.9)])
        out.append((a, 1 - a, g.real(-2, 2)))
    return out


def wrapped(sc, rs, depth, gen):
    """cell field with one ghost layer: periodic images, or the nearest cell"""
    def values(R, l, part):
        B = R.grow(-1)
        v = gen(B.shape + (depth,))
        for d in range(sc.dim):
            w = [(int(k == d), int(k == d)) for k in range(sc.dim)] + [(0, 0)]
            v = np.pad(v, w, mode="wrap" if sc.per[d] else "edge")
        return v
    return values


def orientation(g, sc, depth, name="q", ng=None):
    rs, amp, grains = g.rng(), g.pick([0.08, 0.7]), g.int(1, 3)
    base = np.array([Q.make(rs, depth, rs.randint(4)) for _ in range(grains)])

    def gen(shape):
        q = base[rs.randint(0, grains, shape[:-1])] + amp * rs.randn(*shape)
        return Q.normalise(q) if depth > 1 else q
    return sc.var(name, values=wrapped(sc, rs, depth, gen), need=1, ng=g.int(1, 2) if ng is None else ng, depth=depth)


def positive(g, sc, name, a=0.1, b=2.0, ng=None):
    rs = g.rng()
    return sc.var(name, values=wrapped(sc, rs, 1, lambda s: a + (b - a) * rs.rand(*s)), need=1,
                  ng=g.int(1, 2) if ng is None else ng)


def gradients(g, sc, depth, name="gradq", ng=0):
    """side field, all components of the gradient, same on both ends of a period"""
    rs, amp = g.rng(), g.pick([0.3, 3.0])

    def values(R, l, part):
        v = amp * rs.uniform(-1, 1, R.shape + (depth * sc.dim,))
        if sc.per[part]:
            v = np.moveaxis(v, part, 0)
            v[-1] = v[0]
            v = np.moveaxis(v, 0, part)
        return v
    return sc.var(name, values=values, kind="side", ng=ng, depth=depth * sc.dim)


class Setup:
    """parameters of the orientation energy and the fields it depends on"""

    def __init__(self, g, sc, qng=None):
        self.g, self.sc = g, sc
        self.depth = g.pick([4, 4, 2, 1])
        self.eps, self.H = g.real(0.05, 2), g.real(0.02, 1)
        self.floor = g.real(1e-2, 0.8)
        self.ft, self.fn = floor_name(g)
        self.at, self.an = avg_name(g)
        (self.t1, self.n1), (self.t2, self.n2) = iname(g), iname(g)
        self.phi = positive(g, sc, "phi", 0.05, 0.95)
        self.T = positive(g, sc, "temp", 0.5, 2.0)
        self.gq = gradients(g, sc, self.depth, ng=g.pick([0, 0, 1]))
        self.q = orientation(g, sc, self.depth, ng=qng)

    def new(self, bc, **opt):
        s = self
        s.cf = opt.pop("cf", "CONSTANT_REFINE")
        text = db(dict(cf_discretization=s.cf, **opt))
        s.h = s.sc.new("qf_new", s.depth, s.eps, s.floor, s.fn, s.H, s.n1, s.n2, s.an, text, bcflat(bc))
        return s.h

    def faces(self, K, l, d):
        """minus (misorientation term / |grad q| + eps^2 h(phi)) at the faces"""
        s = self
        P, T = K.layer(s.phi, l, d), K.layer(s.T, l, d)
        n = P.shape[d]
        lo, hi = range(n - 1), range(1, n)
        ph = r.avg(np.take(P, lo, d), np.take(P, hi, d), s.at)
        Tf = 0.5 * (np.take(T, lo, d) + np.take(T, hi, d))
        g2 = sum(K.dense(s.gq, l, d, k) ** 2 for k in range(s.depth * s.sc.dim))
        return -norm_inv(g2, s.floor, s.ft) * 2 * s.H * Tf * r.interp(ph, s.t1) - s.eps ** 2 * r.interp(ph, s.t2)

    def table(self, K):
        return [[self.faces(K, l, d) for d in range(K.dim)] for l in range(K.nl)]


def rotation(g, sc, depth):
    rs, n = g.rng(), {4: 48, 2: 4, 1: 9}[depth]
    few = g.bool()
    v = sc.var("rot", kind="side", isint=True, ng=g.int(0, 2))
    for l, p, part, box in v.all():
        a = v.at(p, l, part).data
        k = rs.randint(1, n + 1, a.shape)
        a[...] = np.where(rs.rand(*a.shape) < 0.6, 1, k) if few else k
    return v


def same_on_shared_faces(sc, v):
    """integer face data agrees between the patches that share a face"""
    for l in range(len(sc.levels)):
        for part in range(sc.dim):
            seen = {}
            for p, b in enumerate(sc.levels[l]):
                w = v.at(p, l, part)
                R = b.side(part)
                a = w.data[w.sl(R)]
                for i in np.ndindex(*R.shape):
                    k = tuple(x + y for x, y in zip(i, R.lo))
                    a[i] = seen.setdefault(k, a[i].copy())


def check(g, K, v, exp, size, key, what, tol=1e-10):
    """exp[l][..., m] against a variable on the cells no finer one covers"""
    for l in range(K.nl):
        w = K.valid(l)
        if w.any():
            for m in range(exp[l].shape[-1]):
                g.close(K.dense(v, l, 0, m)[w], exp[l][..., m][w], tol * size, key,
                        "%s, component %d, level %d of %d" % (what, m, l, K.nl))
    if K.nl > 1:
        g.label("two levels")


@spec("C24", generic=False, kernels=["drv"])
def qclass_faces(g):
    """face diffusion coefficients of every level"""
    sc = scene(g, name="qfac")
    s = Setup(g, sc)
    h = s.new(homogeneous(g, sc.dim))
    fc = sc.var("fc", kind="side", ng=g.int(0, 2))
    sc.call("qf_faces", h, s.phi, s.T, s.gq, fc, outs=[fc], interior_only=False, key="qfac:faces")
    K = Orient(sc, None, None)
    for l in range(K.nl):
        for d in range(sc.dim):
            e = s.faces(K, l, d)
            g.close(K.dense(fc, l, d), e, (1e-7 if s.ft == "t" else 1e-11) * np.abs(e).max(), "qfac:faces", "level %d" % l)


@spec("C24", generic=False, kernels=["drv"], weight=1.5)
def qclass_rhs(g):
    """time derivative of the orientation on the composite grid: minus
    M (div flux + 2 q lambda), tangent to the unit sphere"""
    sc = scene(g, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    bc = homogeneous(g, sc.dim)
    h = s.new(bc)
    M = sc.var("mob", (0.1, 2.0), ng=g.int(0, 2))
    rhs = sc.var("rhs", "real", depth=n, ng=g.int(0, 1))
    symm = sc.dim == 2 and n > 1 and g.bool()
    rot = rotation(g, sc, n) if symm else None
    if symm:
        same_on_shared_faces(sc, rot)
        g.label("symmetry")
    use = g.bool()
    gf = gradients(g, sc, n, "gradf") if use else s.gq
    sc.call("qf_init", h, s.q, rhs, outs=sc.vars, interior_only=False)
    K = Orient(sc, bc, None)
    K.fc = s.table(K)
    u = K.values(s.q, n)
    if use:
        # fluxes from the given gradients
        Z = Orient(sc, bc, K.fc)
        F = []
        for m in range(n):
            Z.padded = lambda v, l, d, hom: np.insert(
                np.cumsum(K.dense(gf, l, d, m + n * d) * sc.dx(l)[d], d), 0, 0.0, d)
            F.append(Z.fluxes(u[m], False, m))
        g.label("from gradients")
    else:
        F = [K.fluxes(u[m], False, m) for m in range(n)]
    T = Q.table(Lib(sc), n) if symm else None
    exp, size = [], 1e-300
    for l in range(K.nl):
        q = np.stack([u[m][l] for m in range(n)], -1)
        dv = K.div(F, l, rot, T)
        if n > 1:
            dv = dv - q * ((q * dv).sum(-1) / (q ** 2).sum(-1))[..., None]
        mm = K.dense(M, l)[..., None]
        exp.append(-mm * dv)
        size = max(size, max(np.abs(F[m][k][d]).max() / sc.dx(k)[d] for m in range(n) for k in range(K.nl)
                             for d in range(sc.dim)) * np.abs(mm).max())
    t = 1e-7 if s.ft == "t" else 1e-10
    for again in range(g.int(1, 2)):
        sc.call("qf_rhs", h, s.phi, s.T, gf, s.gq, rot.id if symm else -1, M, s.q, rhs, int(use),
                outs=[rhs, s.q], interior_only=False, key="qfac:rhs")
        check(g, K, rhs, exp, size, "qfac:rhs", "right-hand side", t)
    if n > 1:
        for l in range(K.nl):
            w = K.valid(l)
            if w.any():
                z = sum(K.dense(rhs, l, 0, m) * u[m][l] for m in range(n))[w]
                g.close(z, 0 * z, 1e-10 * size, "qfac:tangent", "time derivative along q, level %d" % l)


@spec("C24", generic=False, kernels=["drv"], weight=1.5)
def qclass_residual(g):
    """residual of q + gamma sqrt(M) div(fc grad(sqrt(M) q)) = f on the composite grid"""
    sc = solver_scene(g, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    bc = affine(g, sc.dim)
    h = s.new(bc)
    M = positive(g, sc, "mob")
    f = sc.var("f", "real", depth=n, ng=g.int(0, 1))
    res = sc.var("res", "real", depth=n, ng=g.int(0, 1))
    u = orientation(g, sc, n, "u")
    gam = g.real(0, 1, (0.0,))
    sc.call("qf_init", h, u, f, outs=sc.vars, interior_only=False)
    sc.call("qf_coef", h, gam, M, -1, s.phi, s.T, -1, s.gq, s.q)
    K = Orient(sc, bc, None, lambda K, l, d: np.sqrt(K.layer(M, l, d)))
    K.fc = s.table(K)
    hom = g.bool()
    sc.call("qf_residual", h, res, u, f, int(hom), outs=[res, u], interior_only=False, key="qfac:residual")
    U = K.values(u, n)
    F = [K.fluxes(U[m], bool(hom), m) for m in range(n)]
    exp, size = [], 1.0
    for l in range(K.nl):
        dv = K.div(F, l)
        q = np.stack([U[m][l] for m in range(n)], -1)
        b = np.stack([K.dense(f, l, 0, m) for m in range(n)], -1)
        sm = np.sqrt(K.dense(M, l))[..., None]
        exp.append(b - q - gam * sm * dv)
        size = max([size, np.abs(b).max(), np.abs(q).max()] + [gam * 2 * np.abs(F[m][k][d]).max() / sc.dx(k)[d]
                   for m in range(n) for k in range(K.nl) for d in range(sc.dim)])
    check(g, K, res, exp, size, "qfac:residual", "residual", 1e-7 if s.ft == "t" else 1e-10)


@spec("C26", generic=False, kernels=["drv"], weight=1.2)
def qclass_block(g):
    """the block coupling orientation to phase is the derivative of the
    orientation equation: minus dM div(fc grad q) - M div(dfc grad q)"""
    sc = solver_scene(g, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    bc = homogeneous(g, sc.dim)
    h = s.new(bc)
    M, dM = positive(g, sc, "mob"), sc.var("dmob", "real", ng=0)
    dphi = positive(g, sc, "dphi", -1.0, 1.0)
    rs = g.rng()

    def values(R, l, part):
        return rs.uniform(-2, 2, R.shape + (2,))
    dc = sc.var("dfc", values=values, kind="side", ng=0, depth=2)
    out = sc.var("out", "real", depth=n, ng=g.int(0, 1))
    f = sc.var("f", "real", depth=n, ng=0)
    gam = g.pos(0.01, 1)
    sc.call("qf_init", h, s.q, f, outs=sc.vars, interior_only=False)
    sc.call("qf_coef", h, gam, M, dM, s.phi, s.T, dc, s.gq, s.q)
    sc.call("qf_block", h, dphi, out, outs=[out], interior_only=False, key="qfac:block")
    K, L = Orient(sc, bc, None), Orient(sc, bc, None)
    K.fc = s.table(K)
    L.fc = []
    for l in range(K.nl):
        row = []
        for d in range(sc.dim):
            p = K.layer(dphi, l, d)
            k = p.shape[d]
            row.append(-K.dense(dc, l, d, 0) * np.take(p, range(k - 1), d) - K.dense(dc, l, d, 1) * np.take(p, range(1, k), d))
        L.fc.append(row)
    U = K.values(s.q, n)
    F, G = ([X.fluxes(U[m], False, m) for m in range(n)] for X in (K, L))
    exp, size = [], 1e-300
    for l in range(K.nl):
        exp.append(-K.dense(dM, l)[..., None] * K.dense(dphi, l)[..., None] * K.div(F, l)
                   - K.dense(M, l)[..., None] * L.div(G, l))
        size = max([size] + [2 * max(np.abs(X[m][k][d]).max() for X in (F, G)) / sc.dx(k)[d]
                   for m in range(n) for k in range(K.nl) for d in range(sc.dim)])
    check(g, K, out, exp, size, "qfac:block", "derivative", 1e-7 if s.ft == "t" else 1e-10)


@spec("C26", generic=False, kernels=["drv"])
def qclass_derivative(g):
    """derivative of the face diffusion with respect to the phase on either side;
    coarse faces along finer cells carry their mean"""
    sc = scene(g, name="qfac")
    s = Setup(g, sc)
    s.gq = gradients(g, sc, s.depth, "gq0", ng=0)
    out = sc.var("deriv", kind="side", ng=0, depth=2)
    sc.call("qf_deriv", s.depth, s.floor, s.fn, s.H, s.n1, s.an, s.T, s.phi, s.gq, out, outs=[out], interior_only=False,
            key="qfac:deriv")
    K = Orient(sc, None, None)
    for d in range(sc.dim):
        E = []
        for l in range(K.nl):
            P, T = K.layer(s.phi, l, d), K.layer(s.T, l, d)
            k = P.shape[d]
            lo, hi = np.take(P, range(k - 1), d), np.take(P, range(1, k), d)
            a = r.avg(lo, hi, s.at)
            Tf = 0.5 * (np.take(T, range(k - 1), d) + np.take(T, range(1, k), d))
            g2 = sum(K.dense(s.gq, l, d, c) ** 2 for c in range(s.depth * sc.dim))
            f = 2 * s.H * Tf * r.dinterp(a, s.t1) * norm_inv(g2, s.floor, s.ft)
            E.append([f * r.davg(lo, a, s.at), f * r.davg(hi, a, s.at)])
        for c in (0, 1):
            size = max(np.abs(e[c]).max() for e in E)
            for l in range(K.nl):
                e = E[l][c]
                if l == 0 and K.nl > 1:
                    Fi, Do = sc.fine, sc.dom
                    m = E[1][c]
                    for k in range(sc.dim):
                        if k != d:
                            z = m.shape
                            m = m.reshape(z[:k] + (z[k] // 2, 2) + z[k + 1:]).mean(k + 1)
                    m = np.take(m, range(0, m.shape[d], 2), d)
                    at = [slice(a // 2 - o, (b + 1) // 2 - o) for a, b, o in zip(Fi.lo, Fi.hi, Do.lo)]
                    at[d] = slice(at[d].start, at[d].stop + 1)
                    got = K.dense(out, 0, d, c)[tuple(at)]
                    g.close(got, m, (1e-7 if s.ft == "t" else 1e-10) * size, "qfac:deriv", "covered coarse faces")
                    w = np.ones(e.shape, bool)
                    w[tuple(at)] = False
                    if sc.per[d]:           # the other end of a period is left free
                        w = w & np.roll(w, 1, d) & np.roll(w, -1, d)
                    g.close(K.dense(out, 0, d, c)[w], e[w], (1e-7 if s.ft == "t" else 1e-10) * size, "qfac:deriv", "coarse faces")
                else:
                    g.close(K.dense(out, l, d, c), e, (1e-7 if s.ft == "t" else 1e-10) * size, "qfac:deriv", "level %d" % l)


@spec("C24", generic=False, kernels=["drv"])
def qclass_constraint(g):
    """the correction puts q on the unit sphere and leaves the error its tangent
    part on every level; scaling by the root of the mobility is undone exactly"""
    sc = scene(g, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    rs = g.rng()
    s.h = s.new(homogeneous(g, sc.dim))
    q = sc.var("qq", values=lambda R, l, p: (lambda x: x + np.where(np.abs(x).sum(-1, keepdims=True) < .1, 1., 0.))(
        rs.uniform(-1, 1, R.shape + (n,))), depth=n, ng=g.int(0, 1))
    corr, err = (sc.var(k, "real", depth=n, ng=g.int(0, 1)) for k in ("corr", "err"))
    f = sc.var("f", "real", depth=n, ng=0)
    M = positive(g, sc, "mob")
    sc.call("qf_init", s.h, s.q, f, outs=sc.vars, interior_only=False)
    K = Orient(sc, None, None)
    qv, e = ([np.stack(x, -1) for x in zip(*K.values(v, n))] for v in (q, err))
    sc.call("qf_project", s.h, q, corr, err, outs=[corr, err], key="qfac:project")
    for l in range(K.nl):
        u = qv[l] / np.sqrt((qv[l] ** 2).sum(-1, keepdims=True))
        t = e[l] - u * (u * e[l]).sum(-1, keepdims=True)
        for m in range(n):
            g.close(K.dense(corr, l, 0, m), (u - qv[l])[..., m], 1e-11, "qfac:project", "correction, level %d" % l)
            g.close(K.dense(err, l, 0, m), t[..., m], 1e-11 * (1 + np.abs(e[l]).max()), "qfac:project", "error, level %d" % l)
    gam = g.pos(0.01, 1)
    sc.call("qf_coef", s.h, gam, M, -1, s.phi, s.T, -1, s.gq, s.q)
    v = sc.var("v", "real", depth=n, ng=0)
    x = [np.stack(z, -1) for z in zip(*K.values(v, n))]
    for k in (g.bool(),):
        for dv in (int(k), 1 - int(k)):
            sc.call("qf_scale", s.h, v, dv, outs=[v], key="qfac:scale")
            if dv == int(k):
                for l in range(K.nl):
                    sm = np.sqrt(K.dense(M, l))
                    for m in range(n):
                        y = x[l][..., m] / sm if dv else x[l][..., m] * sm
                        g.close(K.dense(v, l, 0, m), y, 1e-13 * (1 + np.abs(y).max()), "qfac:scale", "level %d" % l)
    for l in range(K.nl):
        for m in range(n):
            g.close(K.dense(v, l, 0, m), x[l][..., m], 1e-13 * (1 + np.abs(x[l]).max()), "qfac:scale", "there and back")


@spec("C24", generic=False, kernels=["drv"], weight=0.6)
def qclass_transfer(g):
    """restriction takes means, prolongation adds the coarse correction"""
    sc = scene(g, fine=True, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    h = s.new(affine(g, sc.dim), prolongation_method="CONSTANT_REFINE")
    u = orientation(g, sc, n, "u")
    f, res = (sc.var(k, "real", depth=n, ng=g.int(0, 1)) for k in ("f", "res"))
    sc.call("qf_init", h, u, f, outs=sc.vars, interior_only=False)
    K = Orient(sc, None, None)
    sl = tuple(slice(a - o, b - o + 1) for a, b, o in zip(sc.covered.lo, sc.covered.hi, sc.dom.lo))

    def mean(x):
        for e in range(sc.dim):
            z = x.shape
            x = x.reshape(z[:e] + (z[e] // 2, 2) + z[e + 1:]).mean(e + 1)
        return x

    for what, src, dst in (("r", f, res), ("s", u, u)):
        E = []
        for m in range(n):
            e = K.dense(dst, 0, 0, m)
            e[sl] = mean(K.dense(src, 1, 0, m))
            E.append(e)
        sc.call("qf_restrict", h, ord(what), src, dst, 0, outs=[dst], interior_only=False, key="qfac:restrict")
        for m in range(n):
            g.close(K.dense(dst, 0, 0, m), E[m], 1e-12 * np.abs(E[m]).max(), "qfac:restrict", "restriction")
    old = [[K.dense(u, l, 0, m) for m in range(n)] for l in (0, 1)]
    sc.call("qf_restrict", h, ord("p"), u, u, 1, outs=[u], interior_only=False, key="qfac:prolong")
    for m in range(n):
        a = old[0][m][sl]
        for d in range(sc.dim):
            a = np.repeat(a, 2, d)
        g.close(K.dense(u, 1, 0, m), old[1][m] + a, 1e-12 * 10, "qfac:prolong", "prolongation")
        g.close(K.dense(u, 0, 0, m), old[0][m], 0.0, "qfac:prolong", "coarse values after the prolongation")


def face_field(g, sc, a, b):
    rs = g.rng()

    def values(R, l, part):
        v = a + (b - a) * rs.rand(*R.shape)
        if sc.per[part]:
            v = np.moveaxis(v, part, 0)
            v[-1] = v[0]
            v = np.moveaxis(v, 0, part)
        return v
    return sc.var("fc", values=values, kind="side", ng=0)


@spec("C25", generic=False, kernels=["drv"])
def qclass_level(g):
    """the matrix the level solver assembles is the operator of that level with
    its boundary conditions: solving with it solves the equation of every component"""
    sc = solver_scene(g, name="qfac")
    n = g.pick([4, 2, 1])
    bc = affine(g, sc.dim)
    M = positive(g, sc, "sm", 0.3, 1.5)
    fc = face_field(g, sc, -2.0, -0.1)
    u = sc.var("u", "real", depth=n, ng=g.int(0, 2))
    b = sc.var("b", "real", depth=n, ng=g.int(0, 1))
    l = g.int(0, len(sc.levels) - 1)
    gam = g.real(0, 1, (0.0,))
    h = sc.new("qf_level", n, db(dict(solver_id=g.int(0, 1))), bcflat(bc), l, gam, M, fc)
    hom = g.bool() or l > 0
    if l > 0:
        g.label("refined level")
    K = Orient(sc, bc, None, lambda K, l, d: K.layer(M, l, d))
    K.nl = 2 if len(sc.levels) > 1 else 1
    K.fc = [[K.dense(fc, k, d) for d in range(sc.dim)] for k in range(K.nl)]
    conv = np.zeros(1, np.int32)
    sc.call("qf_lsolve", h, b, u, 1e-13, 100, int(hom), conv, outs=[u], key="qfac:level")
    U = K.values(u, n)
    for m in range(n):
        if l == 1:
            U[m][0] = 0 * U[m][0]
        # this level alone
        x = [U[m][0]] if l == 0 else U[m]
        K.nl = 1
        F = []
        for d in range(sc.dim):
            f = K.fc[l][d] * np.diff(K.padded(x, l, d, bool(hom)), axis=d) / sc.dx(l)[d]
            F.append(f)
        dv = sum(np.diff(F[d], axis=d) / sc.dx(l)[d] for d in range(sc.dim))
        e = U[m][l] + gam * K.dense(M, l) * dv
        y = K.dense(b, l, 0, m)
        size = np.abs(y).max() + np.abs(U[m][l]).max() + gam * 1.5 * max(np.abs(F[d]).max() / sc.dx(l)[d] for d in range(sc.dim))
        g.close(e, y, 1e-8 * size, "qfac:level", "operator of level %d applied to the solution" % l)


@spec("C25", generic=False, kernels=["drv"], weight=0.2)
def qclass_solution(g):
    """a solve that reports success satisfies the orientation equation on the
    composite grid: q + gamma M div(fc grad q) = f, recomputed independently"""
    sc = solver_scene(g, name="qfac")
    s = Setup(g, sc)
    n = s.depth
    bc = homogeneous(g, sc.dim)
    h = s.new(bc, levelsolver_tolerance=1e-10, levelsolver_max_iterations=50)
    M = positive(g, sc, "mob")
    f = sc.var("f", "real", depth=n, ng=0)
    u = sc.var("u", "real", depth=n, ng=1)
    gam = g.pos(0.001, 0.3)
    sc.call("qf_init", h, u, f, outs=sc.vars, interior_only=False)
    sc.call("qf_coef", h, gam, M, -1, s.phi, s.T, -1, s.gq, s.q)
    K = Orient(sc, bc, None)
    K.fc = s.table(K)
    b = K.values(f, n)
    tol = 10.0 ** -g.int(3, 9)
    conv = np.zeros(1, np.int32)
    sc.call("qf_solve", h, u, f, tol, 30, conv, outs=[u, f], interior_only=False, key="qfac:solve")
    g.label("converged" if conv[0] else "not converged")
    if not conv[0]:
        return
    g.nontrivial = g.nontrivial or max(np.abs(U - b[m][l]).max() for m in range(n)
                                       for l, U in enumerate(K.values(u, n)[m])) > 1e-3
    # the boundary values of the symmetrised unknown are those of q: M is even there
    U = K.values(u, n)
    N = sum(np.prod(K.region(l).shape) for l in range(K.nl)) * n
    F = []
    S = Orient(sc, bc, K.fc, lambda K, l, d: np.sqrt(K.layer(M, l, d)))
    V = [[U[m][l] / np.sqrt(K.dense(M, l)) for l in range(K.nl)] for m in range(n)]
    F = [S.fluxes(V[m], True, m) for m in range(n)]
    for m in range(n):
        for l in range(K.nl):
            w = K.valid(l)
            if not w.any():
                continue
            sm = np.sqrt(K.dense(M, l))
            dv = sum(np.diff(F[m][l][d], axis=d) / sc.dx(l)[d] for d in range(sc.dim))
            e = (U[m][l] + gam * sm ** 2 * dv - b[m][l]) / sm
            size = np.abs(b[m][l]).max() + np.abs(U[m][l]).max() + gam * 2 * max(
                np.abs(F[m][k][d]).max() / sc.dx(k)[d] for k in range(K.nl) for d in range(sc.dim))
            g.close(e[w], 0 * e[w], tol * np.sqrt(N) + (1e-7 if s.ft == "t" else 1e-10) * size, "qfac:solve",
                    "residual of the solution, level %d" % l)


drv.prepare("qfac", "qclass_faces", "qclass_rhs", "qclass_residual", "qclass_block", "qclass_derivative",
            "qclass_constraint", "qclass_transfer", "qclass_level", "qclass_solution")
