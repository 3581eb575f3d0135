"""Quaternion algebra, rotation matrices, symmetry group."""
import ctypes
import numpy as np
from vf import quat as Q
from vf.registry import spec


def sub(g, name, *args):
    fn = getattr(g.libs(2, g.variant), name + "_")
    fn.restype = None
    fl, keep = [], []
    for a in args:
        if isinstance(a, np.ndarray):
            fl.append(a.ctypes.data_as(ctypes.c_void_p))
        elif isinstance(a, (int, np.integer)):
            fl.append(ctypes.byref(ctypes.c_int(int(a))))
        else:
            fl.append(ctypes.byref(ctypes.c_double(float(a))))
    g.calls += 1
    fn(*fl)


def vec(g, n):
    k = g.src.pick(4)
    rs = g.rng()
    if k == 0:
        return Q.make(rs, n, rs.randint(4))
    if k == 1:
        return rs.randint(-2, 3, n).astype(float)
    return rs.uniform(-2, 2, n)


@spec("C05", dims=(2,), generic=False, weight=3)
def quaternion_algebra(g):
    for n, sfx in ((4, "4"), (2, "2")):
        a, b, c = vec(g, n), vec(g, n), vec(g, n)
        mulr = Q.mul4 if n == 4 else Q.mul2
        S = np.sum(np.abs(a)) * np.sum(np.abs(b)) * max(1, np.sum(np.abs(c))) + 1

        def mul(x, y):
            out = np.full(n, np.nan)
            sub(g, "quatmult" + sfx, x, y, out)
            return out

        def conj(x):
            out = np.full(n, np.nan)
            sub(g, "quatconj" + ("" if n == 4 else "2"), x, out)
            return out

        def norm(x):
            m = np.full(1, np.nan)
            sub(g, "quatmagn" + sfx, x, m)
            return m[0]

        ab = mul(a, b)
        g.close(ab, mulr(a, b), 1e-14 * S, "quatmult" + sfx, "%r*%r" % (a, b))
        g.close(mul(ab, c), mul(a, mul(b, c)), 1e-13 * S, "quatmult%s:associative" % sfx)
        g.close(norm(ab), norm(a) * norm(b), 1e-13 * S, "quatmult%s:norm" % sfx)
        g.close(conj(ab), mul(conj(b), conj(a)), 1e-13 * S, "quatconj%s:anti" % sfx)
        g.close(conj(conj(a)), a, 0, "quatconj%s:involution" % sfx)
        aa = mul(a, conj(a))
        g.close(aa, Q.ident(n) * np.dot(a, a), 1e-13 * S, "quatconj%s:inverse" % sfx)
        g.close(mul(a, Q.ident(n)), a, 0, "quatmult%s:identity" % sfx)
        m = np.full(1, np.nan)
        sub(g, "quatmagsq" + sfx, a, m)
        g.close(m[0], np.dot(a, a), 1e-14 * S, "quatmagsq" + sfx)
        g.close(norm(a), np.sqrt(np.dot(a, a)), 1e-14 * S, "quatmagn" + sfx)
        sub(g, "quatmaginv" + sfx, a, m)
        L = np.linalg.norm(a)
        g.close(m[0], 0.0 if L < 1e-15 else 1 / L, 1e-13 / max(L, 1e-3), "quatmaginv" + sfx)
        u = a.copy()
        if g.bool():
            sub(g, "quatnorm" + sfx, u)
        else:
            sub(g, "quatnorm", u, n)
        g.close(u, Q.normalise(a), 1e-14, "quatnorm" + sfx)
        for nm, e in (("quatadd" if n == 4 else "quatadd2", a + b), ("quatsub" + sfx, a - b)):
            o = np.full(n, np.nan)
            sub(g, nm, a, b, o)
            g.close(o, e, 0, nm)
        x, y = a.copy(), b.copy()
        sub(g, "quatswap" if n == 4 else "quatswap2", x, y)
        g.check((x == b).all() and (y == a).all(), "quatswap", "%r %r" % (a, b))
        o = np.full(n, np.nan)
        sub(g, "quatcopy" + sfx, a, o)
        g.close(o, a, 0, "quatcopy" + sfx)
        o = np.full(n, np.nan)
        if n == 4:
            sub(g, "quatset", o, float(a[0]), float(a[1]), float(a[2]), float(a[3]))
        else:
            sub(g, "quatset2", o, float(a[0]), float(a[1]))
        g.close(o, Q.normalise(a), 1e-14, "quatset")
        # distance of the normalised quaternions
        sub(g, "quatdiffsq" + sfx, a, b, m)
        g.close(m[0], ((Q.normalise(a) - Q.normalise(b)) ** 2).sum(), 1e-13, "quatdiffsq" + sfx)
        G = Q.group4() if n == 4 else Q.group2()
        r = G[g.int(0, len(G) - 1)].copy()
        o = np.full(n, np.nan)
        sub(g, "quatrotatediffsq" + sfx, a, b, r, o, m)
        g.close(o, mulr(b, r), 1e-13 * S, "quatrotatediffsq%s:image" % sfx)
        g.close(m[0], ((Q.normalise(a) - Q.normalise(mulr(b, r))) ** 2).sum(), 1e-13, "quatrotatediffsq" + sfx)
    # angles
    d = g.real(0, 2, (0.0, 2.0))
    for nm, k in (("quatangl", 4.0), ("quatangl2", 2.0)):
        t = np.full(1, np.nan)
        sub(g, nm, d, t)
        g.close(t[0], k * np.arcsin(d / 2), 1e-13, nm)
    a1, a2, qr = g.real(-9, 9), g.real(-9, 9), g.real(-7, 7)
    m, o = np.full(1, np.nan), np.full(1, np.nan)
    sub(g, "quatdiffabs1", a1, a2, m)
    g.close(m[0], abs(a1 - a2), 1e-14, "quatdiffabs1")
    sub(g, "quatrotatediffabs1", a1, a2, qr, o, m)
    g.close(o[0], a2 + qr, 1e-14, "quatrotatediffabs1")
    g.close(m[0], abs(a2 + qr - a1), 1e-14, "quatrotatediffabs1")
    w = np.array([a1])
    sub(g, "quatnorm1", w)
    g.check(abs(w[0]) <= np.pi + 1e-12, "quatnorm1:range", "%r -> %r" % (a1, w[0]))
    k = (w[0] - a1) / (2 * np.pi)
    g.close(k, round(k), 1e-12, "quatnorm1:congruent", "%r -> %r" % (a1, w[0]))


def rotation(q):
    """matrix of v -> q v q*"""
    cols = []
    for e in np.eye(3):
        v = np.concatenate([[0.0], e])
        cols.append(Q.mul4(Q.mul4(q, v), Q.inv(q))[1:])
    return np.array(cols).T


@spec("C05", dims=(2,), generic=False, weight=2)
def rotation_matrices(g):
    q, p = vec(g, 4), vec(g, 4)
    S = 1 + np.dot(q, q) * (1 + np.dot(p, p))

    def mat(x):
        R = np.full((3, 3), np.nan, order="F")
        sub(g, "quatrotationmatrix", x, R)
        return R

    R = mat(q)
    g.close(R, rotation(q), 1e-13 * S, "quatrotationmatrix", repr(q))
    g.close(mat(Q.mul4(q, p)), R @ mat(p), 1e-12 * S * S, "quatrotationmatrix:homomorphism")
    g.close(R @ R.T, np.eye(3) * np.dot(q, q) ** 2, 1e-12 * S * S, "quatrotationmatrix:orthogonal")
    D = np.full((3, 3, 4), np.nan, order="F")
    sub(g, "derivquatrotationmatrixdq", q, D)
    for k in range(4):
        e = np.eye(4)[k]
        # R is quadratic in q: the symmetric difference is exact
        fd = (mat(q + e) - mat(q - e)) / 2
        for i in range(3):
            for j in range(3):
                g.close(D[i, j, k], fd[i, j], 1e-12 * S, "derivquatrotationmatrixdq(%d,%d,%d)" % (i + 1, j + 1, k + 1),
                        repr(q))
    c, b = vec(g, 2), vec(g, 2)

    def cm(x):
        M = np.full((3, 3), np.nan, order="F")
        sub(g, "complexrotationmatrix", x, M)
        return M

    g.close(cm(c), [[c[0], -c[1], 0], [c[1], c[0], 0], [0, 0, 1]], 0, "complexrotationmatrix")
    g.close(cm(Q.mul2(c, b)), cm(c) @ cm(b), 1e-12, "complexrotationmatrix:homomorphism")
    D = np.full((3, 3, 2), np.nan, order="F")
    sub(g, "derivcomplexrotationmatrixdq", c, D)
    for k in range(2):
        e = np.eye(2)[k]
        g.close(D[:, :, k], (cm(c + e) - cm(c - e)) / 2, 1e-13, "derivcomplexrotationmatrixdq")
    M = np.asfortranarray(g.rng().uniform(-1, 1, (3, 3)))
    ix = [g.int(1, 3) for _ in range(4)]
    v = g.fun("rotationtensorijkl", ix[0], ix[1], ix[2], ix[3], M)
    e = sum(M[ix[0] - 1, m] * M[ix[1] - 1, m] * M[ix[2] - 1, m] * M[ix[3] - 1, m] for m in range(3))
    g.close(v, e, 1e-14, "rotationtensorijkl")
    # Voigt numbering: bijection between symmetric index pairs and storage
    for n, nm in ((2, "2d"), (3, "3d")):
        V = n * (n + 1) // 2
        one = {}
        for i in range(1, n + 1):
            for j in range(1, n + 1):
                k = g.fun("single_index_stiffness" + nm, i, j, restype=ctypes.c_int)
                one.setdefault(k, set()).add(frozenset((i, j)))
                if i == j:
                    g.check(k == i, "single_index" + nm, "%d,%d -> %d" % (i, j, k))
        g.check(sorted(one) == list(range(1, V + 1)) and all(len(s) == 1 for s in one.values()), "single_index" + nm,
                repr(one))
        if n == 3:
            g.check(one[4] == {frozenset((2, 3))} and one[5] == {frozenset((1, 3))}, "single_index3d:voigt", repr(one))
        st, prev = {}, 0
        for i in range(1, V + 1):
            for j in range(i, V + 1):
                k = g.fun("storage_index_stiffness" + nm, i, j, restype=ctypes.c_int)
                k2 = g.fun("storage_index_stiffness" + nm, j, i, restype=ctypes.c_int)
                g.check(k == k2 and k == prev + 1, "storage_index" + nm, "(%d,%d) -> %d / %d" % (i, j, k, k2))
                prev = k
        g.check(prev == V * (V + 1) // 2, "storage_index" + nm, "last %d" % prev)


@spec("C05", dims=(2,), generic=False, weight=2)
def gradient_norm_inverse(g):
    """regularised 1/|grad q|: bounded, decreasing, close to 1/|grad q| when
    the gradient is not small"""
    floor = g.real(1e-3, 0.5)
    mx = 1.0 / floor
    t = g.pick(["max", "tanh", "sqrt", "m", "t", "s"])
    f = lambda x: g.fun("eval_grad_normi", x, t, floor ** 2, mx)
    x = g.pick([g.real(0, 5), floor ** 2 * g.real(0, 3), floor ** 2 * 0.01 * g.real(0.9, 1.1), 0.0])
    v = f(x)
    r = np.sqrt(x)
    if t[0] == "m":
        if abs(x - floor ** 2) > 1e-9 * floor ** 2:
            e = 1 / r if x > floor ** 2 else mx
            g.close(v, e, 1e-11 * mx, "eval_grad_normi:m", "x=%r floor=%r" % (x, floor))
    elif t[0] == "t":
        z = mx * r
        e = mx * (np.tanh(z) / z if z > 1e-4 else 1 - z * z / 3)
        g.close(v, e, 1e-7 * mx, "eval_grad_normi:t", "x=%r floor=%r" % (x, floor))
    else:
        g.close(v, 1 / np.sqrt(x + floor ** 2), 1e-11 * mx, "eval_grad_normi:s", "x=%r floor=%r" % (x, floor))
    g.check(0 < v <= mx * (1 + 1e-12), "eval_grad_normi:bound", "%r" % v)
    y = x + g.real(0, 1)
    g.check(f(y) <= v * (1 + 1e-7), "eval_grad_normi:monotone", "%r %r" % (x, y))


# ---------------------------------------------------------------- symmetry group

@spec("C06", dims=(2,), generic=False, weight=1)
def symmetry_group(g):
    depth = g.pick([4, 2, 1])
    T = Q.table(g, depth)[1:]
    ref = {4: Q.group4, 2: Q.group2, 1: Q.group1}[depth]()
    g.calls += len(T)
    # exactly the group, each element once
    hit = set()
    for r in ref:
        d = np.abs(T - r).max(1)
        k = int(np.argmin(d))
        g.check(d[k] < 1e-12, "group:missing", "depth %d element %r" % (depth, r))
        hit.add(k)
    g.check(len(hit) == len(T), "group:duplicate", "depth %d" % depth)
    g.close(T[0], Q.ident(depth), 1e-15, "group:identity")
    q = Q.draw(g, depth, unit=False)
    k = g.int(1, len(T))
    o, b = np.zeros(depth), np.zeros(depth)
    Q.symmrotate(g, q, k, o)
    g.close(o, Q.rot(q, T[k - 1]), 1e-12, "quatsymmrotate:depth%d" % depth, "iq %d q %r" % (k, q))
    Q.symmrotate(g, o, -k, b)
    g.close(b, q, 1e-12, "quatsymmrotate:inverse:depth%d" % depth, "iq %d q %r" % (k, q))
    if depth == 1:
        return
    # closure: applying two operations is applying one of the group
    k2 = g.int(1, len(T))
    Q.symmrotate(g, o, k2, b)
    d = np.abs(Q.rot(q, T) - b).max(1)
    g.check(d.min() < 1e-11, "group:closure", "%d then %d" % (k, k2))


@spec("C06", dims=(2,), generic=False, weight=6)
def nearest_equivalent(g):
    depth = g.pick([4, 2, 1])
    G = {4: Q.group4, 2: Q.group2, 1: Q.group1}[depth]()
    T = Q.table(g, depth)
    q1 = Q.draw(g, depth, unit=g.bool())
    how = g.src.pick(3)
    rs = g.rng()
    if how == 0:
        q2 = Q.draw(g, depth, unit=g.bool())
    else:       # an equivalent of something near q1
        near = q1 + (0.05 if how == 1 else 0.35) * rs.randn(depth)
        q2 = Q.rot(near, G[rs.randint(len(G))])
    if depth > 1 and (np.linalg.norm(q1) < 0.05 or np.linalg.norm(q2) < 0.05):
        g.label("degenerate")
        return
    n = len(G)
    hint = g.pick([0, 1, g.int(-n, n), n + 3, -n - 1])
    iq, out = Q.findsymm(g, q1, q2, hint)
    g.calls += 1
    g.check(1 <= iq <= n, "quatfindsymm:index", "hint %d -> iq %d" % (hint, iq))
    g.close(out, Q.rot(q2, T[iq]), 1e-12, "quatfindsymm:image:depth%d" % depth, "iq %d" % iq)
    d = Q.dist(q1, Q.rot(q2, G))
    if depth == 1:
        d = np.abs(q1 - (q2 + G))[:, 0]
    got = Q.dist(q1, out) if depth > 1 else abs(q1 - out)[0]
    # nearest of all equivalents; with a hint any equivalent inside the
    # fundamental half distance is the nearest one
    g.close(got, d.min(), 1e-9, "quatfindsymm:nearest:depth%d" % depth, "q1 %r q2 %r hint %d" % (q1, q2, hint))
    # rotating by the returned index reproduces it, the opposite index undoes it
    o, b = np.zeros(depth), np.zeros(depth)
    Q.symmrotate(g, q2, iq, o)
    g.close(o, out, 1e-12, "quatfindsymm:index-consistent", "iq %d" % iq)
    Q.symmrotate(g, out, -iq, b)
    g.close(b, q2, 1e-12, "quatfindsymm:undo", "iq %d" % iq)
    # the choice does not depend on which equivalent was handed in
    if depth > 1:
        q3 = Q.rot(q2, G[rs.randint(n)])
        iq3, out3 = Q.findsymm(g, q1, q3, 0)
        g.close(Q.dist(q1, out3), got, 1e-9, "quatfindsymm:invariant", "q1 %r q2 %r" % (q1, q2))
