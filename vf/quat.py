"""Quaternion / complex / angle orientation algebra and the cubic symmetry
group, written independently of the code under test."""
import itertools, ctypes
import numpy as np

SQ = np.sqrt(0.5)


def group4():
    """the 48 unit quaternions of the binary octahedral group"""
    out = []
    for i in range(4):
        for s in (1, -1):
            v = np.zeros(4)
            v[i] = s
            out.append(v)
    for i, j in itertools.combinations(range(4), 2):
        for s in (1, -1):
            for t in (1, -1):
                v = np.zeros(4)
                v[i], v[j] = s * SQ, t * SQ
                out.append(v)
    for s in itertools.product((0.5, -0.5), repeat=4):
        out.append(np.array(s))
    return np.array(out)


def group2():
    return np.array([[1.0, 0], [0, 1], [-1, 0], [0, -1]])


def group1():
    return np.pi * np.array([0, .5, -.5, 1, -1, 1.5, -1.5, 2, -2])[:, None]


def mul4(a, b):
    """quaternion product along the last axis"""
    a0, a1, a2, a3 = (a[..., i] for i in range(4))
    b0, b1, b2, b3 = (b[..., i] for i in range(4))
    return np.stack([a0 * b0 - a1 * b1 - a2 * b2 - a3 * b3,
                     a0 * b1 + a1 * b0 + a2 * b3 - a3 * b2,
                     a0 * b2 - a1 * b3 + a2 * b0 + a3 * b1,
                     a0 * b3 + a1 * b2 - a2 * b1 + a3 * b0], -1)


def mul2(a, b):
    return np.stack([a[..., 0] * b[..., 0] - a[..., 1] * b[..., 1],
                     a[..., 0] * b[..., 1] + a[..., 1] * b[..., 0]], -1)


def rot(q, g):
    """orientation q acted on by symmetry g (last axis = depth)"""
    n = np.shape(q)[-1]
    if n == 4:
        return mul4(q, g)
    if n == 2:
        return mul2(q, g)
    return q + g


def inv(g):
    n = np.shape(g)[-1]
    if n == 1:
        return -g
    s = -np.ones(n)
    s[0] = 1
    return g * s


def ident(n):
    v = np.zeros(n)
    if n > 1:
        v[0] = 1.0
    return v


def normalise(q):
    n = q.shape[-1]
    if n == 1:
        return q
    m = np.sqrt((q ** 2).sum(-1, keepdims=True))
    return np.where(m < 1e-15, 0.0, q / np.where(m < 1e-15, 1.0, m))


def dist(a, b):
    """distance used to decide which symmetric equivalent is nearest"""
    return np.sqrt(((normalise(a) - normalise(b)) ** 2).sum(-1))


def table(g, depth):
    """the symmetry operations as the code numbers them: index -> element,
    observed through the rotation entry point (index 0 unused)"""
    n = {4: 48, 2: 4, 1: 9}[depth]
    e = ident(depth)
    out = np.zeros((n + 1, depth))
    out[0] = e
    for k in range(1, n + 1):
        r = np.zeros(depth)
        symmrotate(g, e, k, r)
        out[k] = r
    return out


def symmrotate(g, q, iq, out):
    n = len(q)
    c = ctypes.c_int(iq)
    L = ctypes.c_int(n)
    q = np.ascontiguousarray(q, float)
    f = g.libs(g.dim, g.variant).quatsymmrotate_
    f.restype = None
    f(q.ctypes.data_as(ctypes.c_void_p), ctypes.byref(c), out.ctypes.data_as(ctypes.c_void_p), ctypes.byref(L))
    return c.value


def findsymm(g, q1, q2, iq):
    n = len(q1)
    c = ctypes.c_int(iq)
    L = ctypes.c_int(n)
    q1 = np.ascontiguousarray(q1, float)
    q2 = np.ascontiguousarray(q2, float)
    out = np.zeros(n)
    f = g.libs(g.dim, g.variant).quatfindsymm_
    f.restype = None
    f(q1.ctypes.data_as(ctypes.c_void_p), q2.ctypes.data_as(ctypes.c_void_p), ctypes.byref(c),
      out.ctypes.data_as(ctypes.c_void_p), ctypes.byref(L))
    return c.value, out


def draw(g, depth, unit=True):
    """one orientation: axis-aligned, symmetric images, generic"""
    rs = g.rng()
    k = g.src.pick(4)
    return make(rs, depth, k, unit)


def make(rs, depth, k, unit=True):
    if depth == 1:
        if k == 0:
            return np.array([rs.randint(-2, 3) * np.pi / 2 + 1e-3])
        return rs.uniform(-np.pi, np.pi, 1)
    G = group4() if depth == 4 else group2()
    if k == 0:
        q = G[rs.randint(len(G))].copy()
    elif k == 1:
        q = normalise(G[rs.randint(len(G))] + 0.05 * rs.randn(depth))
    else:
        q = normalise(rs.randn(depth))
    if not unit:
        q = q * rs.uniform(0.8, 1.2)
    return q


def field(depth, grains=True):
    """field filler: grains with small in-grain variations and random symmetric
    relabelling of each cell"""

    def fill(g, f, valid):
        mode = g.src.pick(4)
        rs = g.rng()
        shape = valid.shape
        N = int(np.prod(shape))
        G = {4: group4(), 2: group2(), 1: group1()}[depth]
        ng = 1 + rs.randint(3)
        base = np.array([make(rs, depth, rs.randint(4)) for _ in range(ng)])
        lab = rs.randint(0, ng, N)
        q = base[lab]
        if mode == 0:       # one orientation everywhere + noise
            q = np.repeat(base[:1], N, 0)
        if depth == 1:
            q = q + 0.1 * rs.randn(N, 1)
        else:
            q = normalise(q + (0.08 if mode != 3 else 0.7) * rs.randn(N, depth))
        if mode >= 2:
            q = rot(q, G[rs.randint(0, len(G), N)])
        return q.reshape(shape + (depth,))

    return fill
