"""Orientation equation on composite grids: operators, constraint, level
solver, symmetry correction, diffusion derivative, smoothing."""
import numpy as np
from vf import quat as Q
from vf import ref as r
from vf.core import BOX, NG, NGS, LH, SLH, Hidden, Region
from vf.registry import spec
from .phase import div, iname, side_mean


def sfx(g):
    return "%dd" % g.dim


def slh(F):
    out = []
    for f in F:
        out += [f, SLH(f)]
    return out


def lh(f):
    return [f, LH(f)]


def norm_inv(g2, floor, t):
    """regularised reciprocal of the gradient norm"""
    if t == "m":
        return np.where(g2 > floor ** 2, 1 / np.sqrt(np.maximum(g2, 1e-300)), 1 / floor)
    if t == "t":
        x = np.sqrt(np.maximum(g2, 1e-300))
        z = x / floor
        return np.where(z > 1e-4, np.tanh(z) / x, (1 - z * z / 3) / floor)
    return 1 / np.sqrt(g2 + floor ** 2)


def floor_name(g):
    t = g.pick(["m", "t", "s"])
    return t, g.pick([t, {"m": "max", "t": "tanh", "s": "sqrt"}[t]])


def avg_name(g):
    t = g.pick(["a", "h"])
    return t, g.pick([t, {"a": "arithmetic", "h": "harmonic"}[t]])


def depth_of(g, one=True):
    return g.pick([4, 2, 1] if one else [4, 2])


def vec(f, R, depth, sh=None):
    return np.stack([f(R, sh, m) for m in range(depth)], -1)


def facediv(F, R, dx, m):
    return sum((F[d](R, {d: 1}, m) - F[d](R, None, m)) / dx[d] for d in range(len(F)))


def rotdiv(F, R, dx, depth, rot, T):
    """divergence of a flux whose upper faces live in the neighbour's frame"""
    out = 0
    for d in range(len(F)):
        up = vec(F[d], R, depth, {d: 1})
        up = Q.rot(up, Q.inv(T[rot[d](R, {d: 1})]))
        out = out + (up - vec(F[d], R, depth)) / dx[d]
    return out


def rotations(g, depth):
    n = {4: 48, 2: 4, 1: 9}[depth]
    ng = g.int(0, 2)
    rot = g.outside("iqrot", ng=ng, dtype=np.int32)
    rs = g.rng()
    few = g.bool()
    for f in rot:
        f.role = "in"
        k = rs.randint(1, n + 1, f.shape)
        if few:
            k = np.where(rs.rand(*f.shape) < 0.6, 1, k)
        f.data[...] = k
    return rot


# ------------------------------------------------------------------ C24

@spec("C24", weight=1.5)
def orientation_face_coefficient(g):
    """minus (misorientation term / |grad q| + eps^2 h(phi)) at every face"""
    b = g.box()
    dim = g.dim
    depth = depth_of(g)
    eps, mis = g.real(0, 2, (0.0,)), g.real(0, 2, (0.0,))
    phi = g.cell("phi", need=1, kind="phase")
    T = g.cell("temp", need=1, kind="temp")
    gq = g.side("gradq", comps=(depth, dim), kind=g.pick(["real", (-0.3, 0.3)]))
    fc = g.outside("fc")
    floor = g.real(1e-2, 0.8)
    ft, fn = floor_name(g)
    at, an = avg_name(g)
    (t1, n1), (t2, n2) = iname(g), iname(g)

    def ref(E):
        for d in range(dim):
            R = b.side(d)
            ph = r.avg(phi(R, {d: -1}), phi(R), at)
            Tf = 0.5 * (T(R, {d: -1}) + T(R))
            g2 = sum(gq[d](R, None, (m, n)) ** 2 for m in range(depth) for n in range(dim))
            E.slack[id(fc[d])] = 1e-7 if ft == "t" else 0.0
            E.put(fc[d], R, -norm_inv(g2, floor, ft) * mis * Tf * r.interp(ph, t1) - eps ** 2 * r.interp(ph, t2))

    g.call("compute_face_coef" + sfx(g),
           [BOX, depth, eps, phi, NG(phi), T, NG(T), mis, gq, NG(gq), fc, NG(fc), float(floor),
            Hidden(fn), n1, n2, Hidden(an)], ref, reltol=1e-11)


@spec("C24")
def orientation_phase_derivative(g):
    """the linearised operator: minus the two one-sided derivatives of the face
    diffusion times the change of phase in the two cells"""
    b = g.box()
    dp = g.side("dprime", comps=(2,))
    phi = g.cell("phi", need=1)
    fc = g.outside("fc")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(fc[d], R, -dp[d](R, None, 0) * phi(R, {d: -1}) - dp[d](R, None, 1) * phi(R))

    g.call("compute_dquatdphi_face_coef" + sfx(g), [BOX, depth_of(g)] + slh(dp) + lh(phi) + slh(fc), ref)


@spec("C24", weight=1.5)
def orientation_flux(g):
    """plain, from given gradients, and symmetrised by the mobility"""
    b = g.box()
    dim = g.dim
    dx = g.dx()
    depth = depth_of(g)
    fc = g.side("fc")
    F = g.outside("flux", comps=(depth,))
    k = g.int(0, 2)
    if k == 1:
        gr = g.side("gradq", comps=(depth,), ng=0)

        def ref(E):
            for d in range(dim):
                for m in range(depth):
                    E.put(F[d], b.side(d), fc[d](b.side(d)) * gr[d](b.side(d), None, m), m)

        g.call("compute_flux%s_from_gradq" % sfx(g), [BOX, depth] + slh(fc) + gr + slh(F), ref)
        return
    q = g.cell("q", need=1, comps=(depth,), kind=Q.field(depth))
    sm = g.cell("sqrt_m", need=1, kind="pos") if k == 2 else None

    def ref(E):
        for d in range(dim):
            R = b.side(d)
            for m in range(depth):
                hi, lo = q(R, None, m), q(R, {d: -1}, m)
                if sm is not None:
                    hi, lo = hi * sm(R), lo * sm(R, {d: -1})
                E.put(F[d], R, fc[d](R) * (hi - lo) / dx[d], m)

    if k == 2:
        g.call("compute_sym_flux" + sfx(g), [BOX, depth] + slh(fc) + lh(sm) + lh(q) + [dx] + slh(F), ref)
    else:
        g.call("compute_flux" + sfx(g), [BOX, depth] + slh(fc) + lh(q) + [dx] + slh(F), ref)


@spec("C24", weight=1.3)
def orientation_residual(g):
    """rhs - q - gamma sqrt(M) div flux; with symmetry each upper-face flux is
    first brought back to the frame of the cell"""
    b = g.box()
    dx = g.dx()
    sym = g.dim == 2 and g.bool()
    depth = depth_of(g, not sym)
    sm = g.cell("sqrt_m", need=0, kind="pos")
    F = g.side("flux", comps=(depth,))
    q = g.cell("q", comps=(depth,), kind=Q.field(depth))
    ga = g.real(0, 2, (0.0,))
    rhs = g.cell("rhs", comps=(depth,))
    res = g.out("residual", comps=(depth,))
    args = [BOX, depth] + lh(sm) + slh(F) + lh(q) + [dx, ga] + lh(rhs) + lh(res)
    if sym:
        rot = rotations(g, depth)
        T = Q.table(g, depth)
        g.call("compute_q_residual2d_symm", args + [rot, NG(rot)],
               lambda E: E.put(res, b, vec(rhs, b, depth) - vec(q, b, depth)
                               - (ga * sm(b))[..., None] * rotdiv(F, b, dx, depth, rot, T)))
    else:
        def ref(E):
            for m in range(depth):
                E.put(res, b, rhs(b, None, m) - q(b, None, m) - ga * sm(b) * facediv(F, b, dx, m), m)

        g.call("compute_q_residual" + sfx(g), args, ref)


@spec("C24", weight=1.5)
def orientation_operator(g):
    """time derivative of the orientation: minus M (div flux + 2 q lambda);
    the multiplier makes it tangent to the unit sphere"""
    b = g.box()
    dim = g.dim
    dx = g.dx()
    proj = g.bool()
    sym = dim == 2 and proj and g.bool()
    depth = depth_of(g, not sym)
    M = g.cell("mobility", kind="pos")
    F = g.side("flux", comps=(depth,))
    rhs = g.cell("rhs", comps=(depth,), role="inout")
    if not proj:
        def ref(E):
            for m in range(depth):
                E.add(rhs, b, -M(b) * facediv(F, b, dx, m), m)

        g.call("add_quat_op" + sfx(g), [BOX, depth] + lh(M) + slh(F) + [dx] + lh(rhs), ref)
        return
    q = g.cell("q", comps=(depth,), kind=Q.field(depth))
    qv = vec(q, b, depth)
    lam = g.out("lambda")
    rot = rotations(g, depth) if sym else None
    T = Q.table(g, depth) if sym else None

    def D():
        if sym:
            return rotdiv(F, b, dx, depth, rot, T)
        return np.stack([facediv(F, b, dx, m) for m in range(depth)], -1)

    def ref1(E):
        qv = vec(q, b, depth)
        E.put(lam, b, -0.5 * (qv * D()).sum(-1) / (qv ** 2).sum(-1))

    tail = [rot, NG(rot)] if sym else []
    s = "2d_symm" if sym else sfx(g)
    g.call("compute_lambda_flux" + s, [BOX, depth] + slh(F) + lh(q) + [dx] + lh(lam) + tail, ref1, reltol=1e-11)
    for f in [lam]:
        f.read = f.data

    def ref2(E):
        for m in range(depth):
            E.add(rhs, b, -M(b) * (D()[..., m] + 2 * q(b, None, m) * lam(b)), m)

    old = vec(rhs, b, depth)
    g.call("add_quat_proj_op" + s, [BOX, depth] + lh(M) + slh(F) + lh(q) + lh(lam) + [dx] + lh(rhs) + tail, ref2,
           reltol=1e-11)
    if g.mode == "ref":
        ch = vec(rhs, b, depth) - old
        sc = 1e-9 * (np.abs(D()).max() * M(b).max() + np.abs(old).max() + 1)
        g.close((ch * qv).sum(-1), 0.0, sc, "projection:tangent", "update along q")


@spec("C24")
def constraint_projection(g):
    """the correction puts q on the unit sphere; the error keeps its tangent part"""
    b = g.box()
    depth = depth_of(g)

    def fill(g, f, valid):
        q = Q.field(depth)(g, f, valid)
        sc = g.rng().uniform(0.5, 1.7, valid.shape)[..., None]
        q = np.where(np.abs(q).sum(-1, keepdims=True) < 1e-3, 1.0, q)
        return q * sc

    q = g.cell("q", comps=(depth,), kind=fill)
    corr = g.out("corr", comps=(depth,))
    err = g.cell("err", comps=(depth,), role="inout")

    def ref(E):
        qv = vec(q, b, depth)
        n = qv / np.sqrt((qv ** 2).sum(-1, keepdims=True))
        E.slack[id(corr)] = E.slack[id(err)] = 1e-14
        e = vec(err, b, depth)
        E.put(corr, b, n - qv)
        E.put(err, b, e - n * (n * e).sum(-1, keepdims=True))

    g.call("project" + sfx(g), [BOX, depth] + lh(q) + lh(corr) + lh(err), ref, reltol=1e-11)
    if g.mode == "ref":
        p = vec(q, b, depth) + vec(corr, b, depth)
        g.close((p ** 2).sum(-1), 1.0, 1e-11, "project:unit", "|q+corr|^2")
        g.close((p * vec(err, b, depth)).sum(-1), 0.0, 1e-11 * (1 + np.abs(err(b)).max()) * 4, "project:tangent", "")


@spec("C24", weight=0.6)
def mobility_scaling(g):
    """square root, multiplication and division by it are inverse of each other"""
    b = g.box()
    n = g.pick([1, 2, 3, 4])
    v = g.cell("var", role="inout", comps=(n,))
    m = g.cell("m", role="inout", kind="pos")
    m0 = m(b).copy()
    v0 = vec(v, b, n)
    nm = sfx(g)
    g.call("take_square_root" + nm, [BOX] + lh(m), lambda E: E.put(m, b, np.sqrt(m(b))))
    order = g.bool()

    def mult():
        g.call("multicomponent_multiply" + nm, [BOX] + lh(m) + lh(v) + [n],
               lambda E: E.put(v, b, vec(v, b, n) * m(b)[..., None]))

    def divi():
        g.call("multicomponent_divide" + nm, [BOX] + lh(m) + lh(v) + [n],
               lambda E: E.put(v, b, vec(v, b, n) / m(b)[..., None]))

    for f in ((mult, divi) if order else (divi, mult)):
        f()
    if g.mode == "ref":
        g.close(m(b) ** 2, m0, 1e-14 * m0, "take_square_root:square")
        g.close(vec(v, b, n), v0, 1e-14 * (1 + np.abs(v0)), "multicomponent:inverse")


@spec("C24", weight=1.3, generic="mem")
def orientation_coarse_fine_flux(g):
    """Ewing correction of every component at one coarse-fine boundary"""
    dim = g.dim
    rr = [g.int(2, 3) for _ in range(dim)] if g.bool() else [2] * dim
    n_ = [g.int(1, 3 if dim == 2 else 2) for _ in range(dim)]
    lo = [r_ * g.int(-2, 3) for r_ in rr]
    b = Region(lo, [l + r_ * n - 1 for l, r_, n in zip(lo, rr, n_)])
    g._box = b
    dx = g.dx()
    nc = g.int(1, 4)
    F = g.side("flux", comps=(nc,), role="inout")
    D = g.side("dc", comps=(nc,), kind="pos")
    u = g.cell("soln", comps=(nc,))
    d, up = g.int(0, dim - 1), g.int(0, 1)
    blo, bhi = list(b.lo), list(b.hi)
    for e in range(dim):
        if e == d:
            blo[e] = bhi[e] = (b.hi[e] + 1 if up else b.lo[e] - 1)
        else:
            a = g.int(-1, n_[e] - 1)
            z = g.int(a + 1, n_[e] + 1)
            blo[e], bhi[e] = b.lo[e] + a * rr[e], b.lo[e] + z * rr[e] - 1

    def ref(E):
        lo, hi = list(b.lo), list(b.hi)
        for e in range(dim):
            if e != d:
                lo[e], hi[e] = max(blo[e], b.lo[e]), min(bhi[e], b.hi[e])
            else:
                lo[e] = hi[e] = b.hi[e] if up else b.lo[e]
        if any(l > h for l, h in zip(lo, hi)):
            return
        C = Region(lo, hi)
        for m in range(nc):
            s = u(C, None, m)
            o = s
            for e in range(dim):     # diametrically opposite fine cell
                if e == d:
                    continue
                sh = list(o.shape)
                o = o.reshape(sh[:e] + [sh[e] // rr[e], rr[e]] + sh[e + 1:])
                o = np.flip(o, e + 1).reshape(sh)
            fsh = {d: 1} if up else None
            Fv, Dv = F[d](C, fsh, m), D[d](C, fsh, m)
            sg = -1.0 if up else 1.0
            v = (2 * Fv + sg * Dv * (o - s) / dx[d]) / (1 + rr[d])
            Rf = C.shift([1 if (e == d and up) else 0 for e in range(dim)])
            E.put(F[d], Rf, v, m)

    g.call("fixflux" + sfx(g),
           [F, NGS(F), nc, D, NGS(D), nc, u, NGS(u), nc, BOX, nc, 2 * d + up,
            np.array(rr, np.int32), np.array(blo, np.int32), np.array(bhi, np.int32), dx], ref, tile=False,
           reltol=1e-6)


# ------------------------------------------------------------------ C25

def faces(b, d, up):
    """region of the boundary faces (and of the cells inside and outside)"""
    lo, hi = list(b.lo), list(b.hi)
    lo[d] = hi[d] = (b.hi[d] + 1 if up else b.lo[d])
    F = Region(lo, hi)
    I = F.shift([-1 if (e == d and up) else 0 for e in range(b.dim)])
    O = F.shift([-1 if (e == d and not up) else 0 for e in range(b.dim)])
    return F, I, O


def stencil(vals, b, full):
    """hypre's value array as [entry] -> array over the cells"""
    n = (2 * b.dim if full else b.dim) + 1
    return [vals[k::n].reshape(b.shape, order="F") for k in range(n)]


@spec("C25", weight=2)
def level_matrix(g):
    """the assembled matrix is the operator 1 + gamma sqrt(M) div fc grad sqrt(M),
    boundary values eliminated with the Robin condition"""
    b = g.box()
    dim = g.dim
    dx = g.dx()
    ga = g.real(0, 2, (0.0,))
    sm = g.cell("sqrt_m", need=1, kind="pos")
    fc = g.side("fc", kind=(-3.0, -0.1))
    off = g.outside("offdiag", ng=0)
    diag = g.out("diag", ng=0)
    q = g.cell("q", need=1, comps=(1,))
    rhs = g.cell("rhs", comps=(1,), ng=0)
    nm = sfx(g)
    sides = [(d, up) for d in range(dim) for up in (0, 1)]
    sides = [s for s in sides if g.pick([True, True, False])]

    def ref(E):
        for d in range(dim):
            R = b.side(d)
            E.put(off[d], R, fc[d](R) / dx[d] ** 2)
        E.put(diag, b, -sum((fc[d](b) + fc[d](b, {d: 1})) / dx[d] ** 2 for d in range(dim)))

    g.call("set_j_ij" + nm, [BOX] + slh(fc) + [dx] + lh(diag) + slh(off), ref)
    rhs0 = rhs(b, None, 0).copy()
    for d, up in sides:
        F, I, O = faces(b, d, up)
        # the mobility is extended evenly across a boundary
        sm.data[sm.sl(O)] = sm.data[sm.sl(I)]
        # part of the side may belong to another boundary box
        lo, hi = list(O.lo), list(O.hi)
        for e in range(dim):
            if e != d and g.pick([False, False, True]):
                lo[e] = g.int(lo[e], hi[e])
                hi[e] = g.int(lo[e], hi[e])
        TO = Region(lo, hi)
        TF = TO.shift([int(e == d and not up) for e in range(dim)])
        TI = TO.shift([(-1 if up else 1) if e == d else 0 for e in range(dim)])
        sb = Region([l - (g.int(0, 1) if e != d else 0) for e, l in enumerate(TF.lo)],
                    [h + (g.int(0, 1) if e != d else 0) for e, h in enumerate(TF.hi)])
        k = g.int(0, 2)
        a = g.cell("acoef", ng=0, box=sb, kind=[(0.0, 1.0), (0.0, 1e-300), (1.0, 1.0)][k])
        bc = g.cell("bcoef", ng=0, box=sb, kind="pos")
        bc.data[...] = 1 - a.data
        gc = g.cell("gcoef", ng=0, box=sb)
        au = g.cell("auk0", ng=0, box=F, role="out")
        h = dx[d]
        g.label("boundary")

        def den():
            return 1 - a(TF) * (1 - 0.5 * h)

        def ref2(E):
            k1 = (1 - a(TF) * (1 + 0.5 * h)) / den()
            E.put(diag, TI, diag(TI) + k1 * off[d](TF))
            E.put(au, TF, h / den() * off[d](TF) * sm(TO) * ga * sm(TI))
            E.put(off[d], TF, 0.0)

        loc = 2 * d + up
        pb = [np.array([v], np.int32) for e in range(dim) for v in (b.lo[e], b.hi[e])]
        g.call("adjust_bdry" + nm, [ga, sm, LH(sm), diag] + off + pb + [a, bc, LH(a), au, LH(au),
               np.array(TO.lo, np.int32), np.array(TO.hi, np.int32), loc, dx], ref2, tile=False)

        def ref3(E):
            E.put(rhs, TI, rhs(TI, None, 0) - au(TF) * gc(TF), 0)

        g.call("adjust_qrhs" + nm, lh(rhs) + lh(au) + lh(gc) + [
               np.array(TO.lo, np.int32), np.array(TO.hi, np.int32), loc], ref3, tile=False)
        # the ghost value the elimination stands for
        k1 = (1 - a(TF) * (1 + 0.5 * h)) / den()
        q.data[q.sl(TO) + (0,)] = k1 * q(TI, None, 0) + h / den() * gc(TF)
    if g.variant == "chk":
        return      # values(1) in the kernel: an assumed-size array in Fortran 77 style
    full = g.bool()
    n = int(np.prod(b.shape)) * ((2 * dim if full else dim) + 1)
    vals = np.full(n + 8, 7.0)     # the tail must stay as it is

    def ref4(E):
        e = np.full(n + 8, 7.0)
        v = [1 + ga * sm(b) ** 2 * diag(b)]
        for d in range(dim):
            v.append(ga * sm(b) * off[d](b) * sm(b, {d: -1}))
            if full:
                v.append(ga * sm(b) * off[d](b, {d: 1}) * sm(b, {d: 1}))
        for k, x in enumerate(v):
            e[:n][k::len(v)] = x.reshape(-1, order="F")
        E.scalar(vals, e, np.abs(e).max())

    g.call(("set_stencil" if full else "set_symmetric_stencil") + nm,
           [BOX, ga] + lh(sm) + lh(diag) + slh(off) + [vals], ref4, tile=False)
    if g.mode != "ref" or not full:
        return
    S = stencil(vals[:n], b, full)
    Aq = S[0] * q(b, None, 0)
    for d in range(dim):
        Aq = Aq + S[1 + 2 * d] * q(b, {d: -1}, 0) + S[2 + 2 * d] * q(b, {d: 1}, 0)
    fl = [sm(b) * q(b, None, 0) for _ in range(1)][0]
    op = q(b, None, 0) * 1.0
    sc = np.abs(op).max()
    for d in range(dim):
        w, e = sm(b, {d: -1}) * q(b, {d: -1}, 0), sm(b, {d: 1}) * q(b, {d: 1}, 0)
        t = ga * sm(b) * (fc[d](b, {d: 1}) * (e - fl) - fc[d](b) * (fl - w)) / dx[d] ** 2
        sc += np.abs(ga * sm(b) * (np.abs(fc[d](b, {d: 1})) + np.abs(fc[d](b))) * (np.abs(e) + np.abs(w) + np.abs(fl)) / dx[d] ** 2).max()
        op = op + t
    g.close(Aq - rhs(b, None, 0), op - rhs0, 1e-10 * (sc + np.abs(rhs0).max()), "level_matrix:operator",
            "matrix times q minus right-hand side")
    g.nontrivial = True


@spec("C25", weight=0.4)
def level_copy(g):
    b = g.box()
    s, t = g.cell("src"), g.out("dst")
    g.call("copy" + sfx(g), [BOX] + lh(s) + lh(t), lambda E: E.put(t, b, s(b)))


# ------------------------------------------------------------------ C26

@spec("C26", weight=1.3)
def symmetry_correction(g):
    """what is added turns the divergence of the plain differences into that of
    the symmetry-aware ones, tangentially to the unit sphere"""
    b = g.box()
    dim = g.dim
    dx = g.dx()
    depth = depth_of(g)
    nd = g.int(0, 2)
    ns = g.side("nonsymm", ng=nd, comps=(depth,))
    sy = g.side("symm", ng=nd, comps=(depth,))
    rhs = g.cell("rhs", comps=(depth,), role="inout")
    q = g.cell("q", comps=(depth,), kind=Q.field(depth))
    fc = g.side("fc")
    M = g.cell("mobility", kind="pos")
    rot = rotations(g, depth)
    T = Q.table(g, depth)

    def ref(E):
        t = 0
        for d in range(dim):
            up = vec(sy[d], b, depth, {d: 1})
            if depth > 1:
                up = Q.rot(up, Q.inv(T[rot[d](b, {d: 1})]))
            t = t + (fc[d](b, {d: 1})[..., None] * (vec(ns[d], b, depth, {d: 1}) - up)
                     - fc[d](b)[..., None] * (vec(ns[d], b, depth) - vec(sy[d], b, depth))) / dx[d] ** 2
        if depth > 1:
            qv = vec(q, b, depth)
            t = t - qv * ((qv * t).sum(-1) / (qv ** 2).sum(-1))[..., None]
        E.add(rhs, b, M(b)[..., None] * t)

    old = rhs(b).copy()
    g.call("correctrhsquatforsymmetry",
           [BOX, depth, dx, ns, sy, NG(sy), rhs, NG(rhs), q, NG(q), fc, NG(fc), M, NG(M), rot, NG(rot)], ref,
           reltol=1e-11)
    if g.mode == "ref" and depth > 1:
        ch = (rhs(b) - old)
        g.close((ch * vec(q, b, depth)).sum(-1), 0.0, 1e-9 * (np.abs(ch).max() + np.abs(old).max() + 1)
                * (1 + M(b).max() / dx.min() ** 2), "correction:tangent", "")


@spec("C26", weight=1.2)
def diffusion_derivative(g):
    """derivative of the orientation diffusion at a face with respect to the
    phase in either cell"""
    b = g.box()
    dim = g.dim
    depth = depth_of(g)
    mis = g.real(0, 2, (0.0,))
    T = g.cell("temp", need=1, kind="temp")
    phi = g.cell("phi", need=1, kind=g.pick(["phase", "inner"]))
    gq = g.side("gradq", comps=(depth, dim), kind=g.pick(["real", (-0.3, 0.3)]))
    df = g.outside("diff", comps=(2,))
    floor = g.real(1e-2, 0.8)
    ft, fn = floor_name(g)
    at, an = avg_name(g)
    it, itn = iname(g)

    def ref(E):
        for d in range(dim):
            R = b.side(d)
            lo, hi = phi(R, {d: -1}), phi(R)
            off = (lo < 1e-16) | (hi < 1e-16)
            a = r.avg(lo, hi, at)
            g2 = sum(gq[d](R, None, (m, n)) ** 2 for m in range(depth) for n in range(dim))
            f = mis * 0.5 * (T(R, {d: -1}) + T(R)) * r.dinterp(a, it) * norm_inv(g2, floor, ft)
            for k, x in enumerate((lo, hi)):
                E.put(df[d], R, np.where(off, 0.0, f * r.davg(x, a, at)), k)

    g.call("quatdiffusionderiv",
           [BOX, mis, T, NG(T), phi, NG(phi), depth, gq, NG(gq), df, NG(df), float(floor),
            Hidden(fn), itn, Hidden(an)], ref, reltol=1e-7 if ft == "t" else 1e-11)


@spec("C26", generic=False, weight=1.2)
def diffusion_linearisation(g):
    """the derivative is that of the face coefficient the operator uses"""
    b = g.box(maxsize=4)
    dim = g.dim
    depth = depth_of(g)
    mis = g.pos(0.2, 2)
    phi = g.cell("phi", need=1, kind=(0.1, 0.9))
    T = g.cell("temp", need=1, kind=(0.5, 2.0))
    gq = g.side("gradq", comps=(depth, dim))
    floor = g.real(1e-2, 0.8)
    ft, fn = floor_name(g)
    at, an = avg_name(g)
    it, itn = iname(g)
    fc = [g.outside("fc%d" % k) for k in range(3)]
    df = g.outside("diff", comps=(2,))
    w = g.rng().uniform(-1, 1, phi.shape)
    h = 1e-5
    base = phi.data.copy()
    ign = lambda F: (lambda E: [E.put(f, b.side(d), 0, care=False) for d, f in enumerate(F)])
    for k, s in enumerate((-1, 1)):
        phi.data[...] = base + s * h * w
        g.call("compute_face_coef" + sfx(g),
               [BOX, depth, 0.0, phi, NG(phi), T, NG(T), mis, gq, NG(gq), fc[k], NG(fc[k]), float(floor),
                Hidden(fn), itn, itn, Hidden(an)], ign(fc[k]), tile=False)
    phi.data[...] = base
    g.call("quatdiffusionderiv",
           [BOX, mis, T, NG(T), phi, NG(phi), depth, gq, NG(gq), df, NG(df), float(floor),
            Hidden(fn), itn, Hidden(an)], ign(df), tile=False)
    dphi = phi.clone()
    dphi.data[...] = w
    g.call("compute_dquatdphi_face_coef" + sfx(g), [BOX, depth] + slh(df) + lh(dphi) + slh(fc[2]), ign(fc[2]),
           tile=False)
    for d in range(dim):
        R = b.side(d)
        num = (fc[1][d](R) - fc[0][d](R)) / (2 * h)
        got = fc[2][d](R)
        g.close(got, num, 2e-5 * (np.abs(num).max() + np.abs(fc[0][d](R)).max() + 1e-9), "linearisation:face_coef",
                "%s %s" % (it, at))
    g.nontrivial = True


@spec("C26")
def orientation_smoothing(g):
    """below the phase threshold the orientation moves towards the mean of its
    neighbours, elsewhere it is left alone"""
    b = g.box()
    dim = g.dim
    depth = depth_of(g)
    q = g.cell("q", comps=(depth,), kind=Q.field(depth))
    out = g.cell("quat_out", comps=(depth,), role="inout")
    sd = g.side("diff", comps=(depth,))
    phi = g.cell("phi", kind="phase")
    th = g.real(0, 1, (0.0, 0.5, 1.0))

    def ref(E):
        w = 0.125 if dim == 2 else 1 / 6.0
        low = phi(b) < th
        for m in range(depth):
            v = q(b, None, m) + w * sum(sd[d](b, {d: 1}, m) - sd[d](b, None, m) for d in range(dim))
            E.put(out, b, np.where(low, v, out(b, None, m)), m)

    g.call("smoothquat", [BOX, depth, q, NG(q), out, NG(out), sd, NG(sd), phi, NG(phi), float(th)], ref)
