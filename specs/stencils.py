"""Differences, gradients, Laplacian, averaging of scalar fields; the
quaternion analogues with and without crystal symmetry."""
import numpy as np
from vf import quat as Q
from vf.core import BOX, LOHI, LLHH, LH, NG, Hidden
from vf.registry import spec


def wide(b, d):
    """faces normal to d, one extra layer in the transverse directions"""
    return b.grow([0 if k == d else 1 for k in range(b.dim)]).side(d)


@spec("C08")
def scalar_diffs(g):
    b = g.box()
    v = g.cell("v", need=1)
    D = g.outside("diff", ng=g.int(1, 3))

    def ref(E):
        for d in range(g.dim):
            R = wide(b, d)
            E.put(D[d], R, v(R) - v(R, {d: -1}))

    g.call("diffs", [BOX, v, NG(v), D, NG(D)], ref)


def side_grad(D, R, a, d, dx, iso=False):
    """component a of the gradient on faces normal to d, from face differences"""
    if a == d:
        if iso:
            t = [k for k in range(R.dim) if k != d][0]
            return (D[d](R, {t: -1}) + 10 * D[d](R) + D[d](R, {t: 1})) / (12 * dx[a])
        return D[d](R) / dx[a]
    s = 0
    for i in (0, -1):
        for k in (0, 1):
            sh = {d: i, a: k}
            s = s + D[a](R, sh)
    return 0.25 * s / dx[a]


@spec("C08")
def scalar_grad(g):
    b = g.box()
    dx = g.dx()
    D = g.side("diff", need=1)
    C = [g.out("grad%d" % d, ng=0) for d in range(g.dim)]
    ng = g.int(0, 2)
    C = []
    for d in range(g.dim):
        C.append(g.out("grad%d" % d, ng=ng))

    def ref(E):
        for d in range(g.dim):
            E.put(C[d], b, (D[d](b) + D[d](b, {d: 1})) / (2 * dx[d]))

    g.call("grad_cell", [BOX, D, NG(D), dx, C, NG(C[0])], ref)
    ngs = g.int(0, 2)
    S = [[None] * g.dim for _ in range(g.dim)]      # S[d][a]
    for a in range(g.dim):
        fs = g.outside("g%d_" % a, ng=ngs)
        for d in range(g.dim):
            S[d][a] = fs[d]

    def refs(E):
        for d in range(g.dim):
            R = b.side(d)
            for a in range(g.dim):
                E.put(S[d][a], R, side_grad(D, R, a, d, dx))

    g.call("grad_side", [BOX, D, NG(D), dx] + [S[d][a] for d in range(g.dim) for a in range(g.dim)]
           + [NG(S[0][0])], refs)
    if g.dim == 2:
        S2 = [[None] * 2 for _ in range(2)]
        for a in range(2):
            fs = g.outside("i%d_" % a, ng=ngs)
            for d in range(2):
                S2[d][a] = fs[d]

        def refi(E):
            for d in range(2):
                R = b.side(d)
                for a in range(2):
                    E.put(S2[d][a], R, side_grad(D, R, a, d, dx, iso=True))

        g.call("grad_side_isotropic", [BOX, D, LH(D), dx] + [S2[d][a] for d in range(2) for a in range(2)]
               + [LH(S2[0][0])], refi)


@spec("C08", generic=False)
def affine_exact(g):
    """gradients of an affine field are exact, its Laplacian vanishes; a
    quadratic field has a constant Laplacian"""
    b = g.box()
    dx = g.dx()
    k = [g.real(-2, 2) for _ in range(g.dim)]
    q = [g.real(-1, 1) for _ in range(g.dim)]

    def fill(quadr):
        def f_(g_, f, valid):
            x = valid.centers(dx, [l * h for l, h in zip(valid.lo, dx)])
            v = sum(c * y for c, y in zip(k, x))
            if quadr:
                v = v + sum(c * y * y for c, y in zip(q, x))
            return v + np.zeros(valid.shape)
        return f_

    v = g.cell("v", need=2, kind=fill(False))
    D = g.outside("diff", ng=2)
    noref = lambda E: [E.put(D[d], wide(b, d), 0, care=False) for d in range(g.dim)]
    g.call("diffs", [BOX, v, NG(v), D, NG(D)], noref)
    C = [g.out("grad%d" % d, ng=1) for d in range(g.dim)]
    g.call("grad_cell", [BOX, D, NG(D), dx, C, NG(C[0])], lambda E: [E.put(c, b, 0, care=False) for c in C])
    S = max(abs(x) for x in k) * 1e-9 + 1e-9 / dx.min()
    for d in range(g.dim):
        g.close(C[d](b), k[d], S, "affine:grad_cell", "direction %d" % d)
    names = ["grad_side"] + (["grad_side_isotropic"] if g.dim == 2 else [])
    for nm in names:
        T = [[None] * g.dim for _ in range(g.dim)]
        for a in range(g.dim):
            fs = g.outside("s%d" % a, ng=0)
            for d in range(g.dim):
                T[d][a] = fs[d]
        flat = [T[d][a] for d in range(g.dim) for a in range(g.dim)]
        last = NG(T[0][0]) if nm == "grad_side" else LH(T[0][0])
        g.call(nm, [BOX, D, NG(D) if nm == "grad_side" else LH(D), dx] + flat + [last],
               lambda E: [E.put(f, b.side(f.side), 0, care=False) for f in flat])
        for d in range(g.dim):
            for a in range(g.dim):
                g.close(T[d][a](b.side(d)), k[a], S, "affine:" + nm, "component %d on side %d" % (a, d))
    w = g.cell("w", need=1, kind=fill(True))
    L = g.out("lap", ng=0)
    co = g.real(-2, 2, (1.0,))
    g.call("laplacian", [BOX, dx, float(co), w, NG(w), L, NG(L)], lambda E: E.put(L, b, 0, care=False))
    big = np.abs(w(b.grow(0))).max() + 1
    g.close(L(b), co * 2 * sum(q), 1e-12 * big / dx.min() ** 2 * 10 + 1e-10, "quadratic:laplacian")


@spec("C08")
def laplacian(g):
    b = g.box()
    dx = g.dx()
    c = g.real(-2, 2, (0.0, 1.0))
    v = g.cell("field", need=1)
    r = g.out("rhs")

    def ref(E):
        E.put(r, b, c * sum((v(b, {d: -1}) - 2 * v(b) + v(b, {d: 1})) / dx[d] ** 2 for d in range(g.dim)))

    g.call("laplacian", [BOX, dx, float(c), v, NG(v), r, NG(r)], ref)


@spec("C08")
def side_to_cell(g):
    b = g.box()
    s = g.side("s", need=0)
    c = g.out("c")

    def ref(E):
        E.put(c, b, sum(s[d](b) + s[d](b, {d: 1}) for d in range(g.dim)) / (2 * g.dim))

    g.call("side2cell", [BOX, s, NG(s), c, NG(c)], ref)


@spec("C08")
def set_to_zero(g):
    b = g.box()
    a = g.cell("array", need=0, role="inout")

    def ref(E):
        E.put(a, b, 0.0)

    g.call("settozero", [LOHI, LLHH(a), a], ref)
    g.nontrivial = bool(np.prod(b.shape) > 1)


@spec("C08")
def interface_velocity(g):
    b = g.box()
    th = g.pos(1e-3, 2)
    gr = [g.cell("g%d" % d, ng=0, kind="real") for d in range(g.dim)]
    pd = g.cell("phidot", ng=0)
    v = g.out("vel", ng=0)

    def ref(E):
        E.put(v, b, pd(b) / np.sqrt(sum(x(b) ** 2 for x in gr) + th ** 2))

    g.call("velocity", [BOX, float(th), gr, pd, v], ref)


# ---------------------------------------------------------------- orientation

def depth_of(g):
    return g.pick([4, 1] if g.dim == 3 else [4, 2, 1])


@spec("C07", weight=0.7)
def rotation_index_field(g):
    """for every face, the symmetry operation that brings the lower neighbour
    nearest to the upper one"""
    b = g.box()
    depth = depth_of(g)
    q = g.cell("q", need=1, comps=(depth,), kind=Q.field(depth))
    T = Q.table(g, depth)
    n = len(T) - 1
    rs = g.rng()
    hint = g.src.pick(3)
    ng = g.int(1, 2)
    rot = []
    for d, f in enumerate(g.outside("rot", ng=ng, dtype=np.int32)):
        f.data[...] = 0 if hint == 0 else 1 if hint == 1 else rs.randint(-n - 1, n + 2, f.shape)
        rot.append(f)

    def ref(E):
        for d in range(g.dim):
            E.put(rot[d], wide(b, d), 0, care=False)

    g.call("quat_symm_rotation", [BOX, q, NG(q), depth, rot, NG(rot)], ref)
    if g.mode != "ref":
        return
    G = T[1:]
    for d in range(g.dim):
        R = wide(b, d)
        iq = rot[d].data[rot[d].sl(R)]
        g.check(bool(((iq >= 1) & (iq <= n)).all()), "rotation-index:range", repr(iq))
        q1, q2 = q(R), q(R, {d: -1})
        im = Q.rot(q2, T[iq])
        got = Q.dist(q1, im) if depth > 1 else np.abs(q1 - im)[..., 0]
        al = Q.rot(q2[..., None, :], G)
        ds = Q.dist(q1[..., None, :], al) if depth > 1 else np.abs(q1[..., None, :] - al)[..., 0]
        g.close(got, ds.min(-1), 1e-9, "rotation-index:nearest:depth%d" % depth, "side %d" % d)
        if (iq != 1).any():
            g.label("nontrivial rotation")


@spec("C07", weight=0.7)
def fundamental_zone(g):
    b = g.box()
    depth = depth_of(g)
    q = g.cell("q", need=0, comps=(depth,), kind=Q.field(depth), role="inout")
    g.call("quat_fundamental", [BOX, q, LH(q), depth], lambda E: E.put(q, b, 0, care=False))
    before, after = E_before(g, q, b), q.data[q.sl(b)].copy()
    if g.mode != "ref":
        return
    G = {4: Q.group4, 2: Q.group2, 1: Q.group1}[depth]()
    e = Q.ident(depth)
    al = Q.rot(before[..., None, :], G)
    near = np.abs(al - after[..., None, :]).max(-1).min(-1)
    g.close(near, 0.0 * near, 1e-11, "fundamental:equivalent")
    dd = (lambda x: Q.dist(x, e)) if depth > 1 else (lambda x: np.abs(x)[..., 0])
    g.close(dd(after), dd(al).min(-1), 1e-9, "fundamental:nearest:depth%d" % depth)
    # idempotent
    snap = after.copy()
    g.call("quat_fundamental", [BOX, q, LH(q), depth], lambda E: E.put(q, b, 0, care=False), tile=False)
    # angles more than one full turn away need several passes
    ok = np.abs(before[..., 0]) <= 2 * np.pi if depth == 1 else np.ones(b.shape, bool)
    g.close(np.where(ok, dd(q.data[q.sl(b)]), 0), np.where(ok, dd(snap), 0), 1e-9, "fundamental:idempotent")


def E_before(g, f, R):
    """values before the last call (Gen.call keeps them when asked)"""
    return f.before[f.sl(R)].copy()


def rot_field(g, depth, ng, roles="in"):
    """random, valid rotation indices on faces"""
    n = {4: 48, 2: 4, 1: 9}[depth]
    rs = g.rng()
    mode = g.src.pick(2)
    out = []
    for f in g.outside("iqrot", ng=ng, dtype=np.int32):
        f.data[...] = rs.randint(1, n + 1, f.shape)
        if mode == 0:
            f.data[rs.rand(*f.shape) < 0.6] = 1
        f.role = "in"
        out.append(f)
    return out


@spec("C09")
def quat_diffs(g):
    b = g.box()
    depth = depth_of(g)
    q = g.cell("q", need=1, comps=(depth,), kind=Q.field(depth))
    D = g.outside("diff", comps=(depth,), ng=g.int(1, 2))

    def ref(E):
        for d in range(g.dim):
            R = wide(b, d)
            E.put(D[d], R, q(R) - q(R, {d: -1}))

    g.call("quatdiffs", [BOX, depth, q, NG(q), D, NG(D)], ref)


@spec("C09")
def quat_diffs_symm(g):
    """difference after bringing the neighbour to the equivalent named by the
    rotation index"""
    b = g.box()
    depth = depth_of(g)
    q = g.cell("q", need=1, comps=(depth,), kind=Q.field(depth))
    D = g.outside("diff", comps=(depth,), ng=g.int(1, 2))
    rot = rot_field(g, depth, g.int(1, 2))
    T = Q.table(g, depth)

    def ref(E):
        for d in range(g.dim):
            R = wide(b, d)
            E.put(D[d], R, q(R) - Q.rot(q(R, {d: -1}), T[rot[d](R)]))

    g.call("quatdiffs_symm", [BOX, depth, q, NG(q), D, NG(D), rot, NG(rot)], ref)
    if g.dim == 2 and depth > 1:
        D2 = g.outside("diffn", comps=(depth,), ng=g.int(1, 2))

        def ref2(E):
            for d in range(g.dim):
                R = wide(b, d)
                E.put(D2[d], R, q(R) - Q.rot(q(R, {d: -1}), T[rot[d](R)]))

        g.call("quatdiffs_symm_new", [BOX, depth, q, NG(q), D2, NG(D2), rot, NG(rot)], ref2)


@spec("C09", dims=(2,))
def quat_average(g):
    b = g.box()
    depth = depth_of(g)
    q = g.cell("q", need=1, comps=(depth,))
    a = g.out("avg", comps=(depth,))

    def ref(E):
        E.put(a, b, 0.5 * q(b) + 0.125 * sum(q(b, {d: k}) for d in range(2) for k in (-1, 1)))

    g.call("quatavg", [BOX, depth, q, LH(q), a, LH(a)], ref)


def tens(g, name, comps, ng, role="out"):
    """S[d][a]: component a on faces normal to d"""
    S = [[None] * g.dim for _ in range(g.dim)]
    for a in range(g.dim):
        fs = g.outside("%s%d_" % (name, a), ng=ng, comps=comps)
        for d in range(g.dim):
            S[d][a] = fs[d]
    return S


def flat(S):
    return [f for row in S for f in row]


@spec("C09")
def quat_grad_cell(g):
    b = g.box()
    dx = g.dx()
    depth = depth_of(g)
    D = g.side("diff", need=0, comps=(depth,))
    ng = g.int(0, 2)
    C = [g.out("grad%d" % d, comps=(depth,), ng=ng) for d in range(g.dim)]

    def ref(E):
        for d in range(g.dim):
            E.put(C[d], b, (D[d](b) + D[d](b, {d: 1})) / (2 * dx[d]))

    g.call("quatgrad_cell", [BOX, depth, dx, D, NG(D), C, NG(C[0])], ref)
    rot = rot_field(g, depth, g.int(0, 2))
    T = Q.table(g, depth)
    C2 = [g.out("grads%d" % d, comps=(depth,), ng=ng) for d in range(g.dim)]

    def refs(E):
        for d in range(g.dim):
            up = D[d](b, {d: 1})
            if depth > 1:
                up = Q.rot(up, Q.inv(T[rot[d](b, {d: 1})]))
            E.put(C2[d], b, (D[d](b) + up) / (2 * dx[d]))

    g.call("quatgrad_cell_symm", [BOX, depth, dx, D, NG(D), C2, NG(C2[0]), rot, NG(rot)], refs)
    M = g.out("mod", ng=g.int(0, 2))
    for f in C:
        f.role = "in"

    def refm(E):
        E.put(M, b, np.sqrt(sum((f(b) ** 2).sum(-1) for f in C)))

    g.call("quatgrad_modulus", [BOX, depth, C, NG(C[0]), M, NG(M)], refm)


@spec("C09")
def quat_grad_side(g):
    b = g.box()
    dx = g.dx()
    depth = depth_of(g)
    D = g.side("diff", need=1, comps=(depth,))
    ng = g.int(0, 2)
    S = tens(g, "g", (depth,), ng)

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            for a in range(g.dim):
                E.put(S[d][a], R, side_grad(D, R, a, d, dx))

    g.call("quatgrad_side", [BOX, depth, dx, D, NG(D)] + flat(S) + [NG(S[0][0])], ref)
    if g.dim == 2:
        S2 = tens(g, "i", (depth,), ng)

        def refi(E):
            for d in range(2):
                R = b.side(d)
                for a in range(2):
                    E.put(S2[d][a], R, side_grad(D, R, a, d, dx, iso=True))

        g.call("quatgrad_side_isotropic", [BOX, depth, dx, D, NG(D)] + flat(S2) + [NG(S2[0][0])], refi)
    rot = rot_field(g, depth, g.int(1, 2))
    T = Q.table(g, depth)

    def turn(x, idx, inverse):
        if depth == 1:
            return x
        t = T[idx]
        return Q.rot(x, Q.inv(t) if inverse else t)

    def tangential(R, a, d):
        # the cell above the face
        loc = D[a](R) + turn(D[a](R, {a: 1}), rot[a](R, {a: 1}), True)
        # the cell below, brought to the frame of the upper one
        low = D[a](R, {d: -1}) + turn(D[a](R, {d: -1, a: 1}), rot[a](R, {d: -1, a: 1}), True)
        return 0.25 / dx[a] * (loc + turn(low, rot[d](R), False))

    S3 = tens(g, "s", (depth,), ng)

    def refs(E):
        for d in range(g.dim):
            R = b.side(d)
            for a in range(g.dim):
                E.put(S3[d][a], R, D[d](R) / dx[d] if a == d else tangential(R, a, d))

    g.call("quatgrad_side_symm", [BOX, depth, dx, D, NG(D)] + flat(S3) + [NG(S3[0][0]), rot, NG(rot)], refs)
    if g.dim == 2:
        S4 = tens(g, "t", (depth,), ng)

        def refis(E):
            for d in range(2):
                R = b.side(d)
                t = 1 - d
                for a in range(2):
                    if a == d:
                        v = 10 * D[d](R) + turn(D[d](R, {t: -1}), rot[t](R), False) \
                            + turn(D[d](R, {t: 1}), rot[t](R, {t: 1}), True)
                        E.put(S4[d][a], R, v / (12 * dx[d]))
                    else:
                        E.put(S4[d][a], R, tangential(R, a, d))

        g.call("quatgrad_side_symm_isotropic",
               [BOX, depth, dx, D, NG(D)] + flat(S4) + [NG(S4[0][0]), rot, NG(rot)], refis)


@spec("C09")
def quat_modulus_sides(g):
    b = g.box()
    depth = depth_of(g)
    G = g.side("grad", need=0, comps=(depth, g.dim))
    M = g.out("mod", ng=g.int(0, 2))

    def compact(E):
        s = 0
        for d in range(g.dim):
            n = lambda sh: (G[d](b, sh)[..., d] ** 2).sum(-1)
            s = s + n({}) + n({d: 1})
        E.put(M, b, np.sqrt(0.5 * s))

    g.call("quatgrad_modulus_from_sides_compact", [BOX, depth, G, NG(G), M, NG(M)], compact)
    if g.dim == 3:
        return
    M2 = g.out("mod2", ng=g.int(0, 2))

    def norms(f):
        out = []
        for d in range(2):
            for k in (0, 1):
                out.append(f((G[d](b, {d: k}) ** 2).sum((-1, -2))))
        return out

    g.call("quatgrad_modulus_from_sides", [BOX, depth, G, NG(G), M2, NG(M2)],
           lambda E: E.put(M2, b, 0.25 * sum(norms(np.sqrt))))
    M3 = g.out("mod3", ng=g.int(0, 2))
    ft = g.pick(["s", "m", "t", "sqrt", "max", "tanh"])
    fl = g.pos(1e-3, 1.0)
    beta = fl * fl if ft[0] == "s" else 0.0
    if beta == 0 and min(x.min() for x in norms(lambda y: y)) < 1e-20:
        return

    g.call("quatgrad_modulus_from_sides_harmonic", [BOX, depth, G, LH(G), M3, LH(M3), Hidden(ft), float(fl)],
           lambda E: E.put(M3, b, 4.0 / sum(norms(lambda y: 1 / np.sqrt(y + beta)))))
