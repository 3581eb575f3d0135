"""Temperature and heat kernels."""
import numpy as np
from vf.core import BOX, NG, Hidden
from vf.registry import spec


@spec("C13")
def heat_equation_rhs(g):
    b = g.box()
    dx = g.dx()
    k, lh = g.real(0, 3, (1.0,)), g.real(0, 5, (0.0,))
    T = g.cell("temp", need=1, kind="temp")
    cp = g.cell("cp", need=0, kind="pos")
    pr = g.cell("phi_rhs", need=0)
    rhs = g.out("rhs")
    wp = g.bool()

    def ref(E):
        v = k * sum((T(b, {d: -1}) - 2 * T(b) + T(b, {d: 1})) / dx[d] ** 2 for d in range(g.dim))
        if wp:
            v = v + lh / cp(b) * pr(b)
        E.put(rhs, b, v)

    g.call("computerhstemp",
           [BOX, dx, float(k), float(lh), T, NG(T), cp, NG(cp), int(wp), pr, NG(pr), rhs, NG(rhs)], ref)


@spec("C13")
def heat_source(g):
    b = g.box()
    c = g.cell("conc", need=0, kind="conc")
    cp = g.cell("cp", need=0, kind="pos")
    rhs = g.out("rhs")
    s = np.array([g.real(-3, 3), g.real(-3, 3)])

    def ref(E):
        E.put(rhs, b, (s[0] * c(b) + s[1] * (1 - c(b))) / cp(b))

    g.call("source_temperature", [BOX, c, NG(c), rhs, NG(rhs), cp, NG(cp), s, 2], ref)


@spec("C13")
def heat_capacity(g):
    """Neumann-Kopp: composition-weighted sum of the species' polynomials"""
    b = g.box()
    nc = g.int(1, 3)
    c = g.cell("conc", need=0, comps=(nc,), kind="conc")
    T = g.cell("temp", need=0, kind="temp")
    cp = g.out("cp")
    pw = [p for p in (0, 1, 2, -2, -1) if g.src.pick(3)] or [0]
    n = len(pw)
    co = g.rng().uniform(-2, 2, (nc + 1, n))

    def ref(E):
        pol = lambda m: sum(co[m, i] * T(b) ** float(p) for i, p in enumerate(pw))
        rest = 1 - sum(c(b, None, m) for m in range(nc))
        E.put(cp, b, sum(pol(m) * c(b, None, m) for m in range(nc)) + pol(nc) * rest)

    g.call("heat_capacity_nkr",
           [BOX, c, NG(c), nc, T, NG(T), cp, NG(cp), np.array(pw, np.int32), n, co.reshape(-1).copy(), co.size], ref)


def images(b, dx, xlo, c, ll):
    """squared distance to the nearest periodic image, per cell of region b"""
    s = 0
    for d, x in enumerate(b.centers(dx, xlo)):
        y = x - c[d]
        if ll[d] > 0:
            y = y - ll[d] * np.round(y / ll[d])
        s = s + y ** 2
    return s + np.zeros(b.shape)


def geometry(g):
    """a patch inside a domain, periodic in some directions"""
    b = g.box()
    dx = g.dx()
    L = np.array([dx[d] * (b.shape[d] + g.int(4, 12)) for d in range(g.dim)])
    xlo = np.array([dx[d] * g.int(0, 4) for d in range(g.dim)])
    c = np.array([g.real(0, 1) * L[d] for d in range(g.dim)])
    ll = np.array([L[d] if g.bool() else -1.0 for d in range(g.dim)])
    return b, dx, xlo, c, ll, L


@spec("C13", generic="mem")
def gaussian_temperature(g):
    b, dx, xlo, c, ll, L = geometry(g)
    sd = g.pos(0.1, 1.0) * L.max()
    t0, t1 = g.real(300, 1500), g.real(300, 1500)
    T = g.out("temp")
    R = b.grow(T.ng)
    x0 = xlo - T.ng * dx

    def ref(E):
        E.put(T, R, t0 + (t1 - t0) * np.exp(-images(R, dx, x0, c, ll) / (2 * sd ** 2)))

    g.call("initgaussian", [dx, xlo, BOX, T, NG(T), c, ll, float(sd), float(t0), float(t1)], ref, tile=False)
    g.check(bool((T(R) <= max(t0, t1) + 1e-9).all() and (T(R) >= min(t0, t1) - 1e-9).all()), "gaussian:bounds")


@spec("C13", generic="mem")
def gaussian_source(g):
    b, dx, xlo, c, ll, L = geometry(g)
    sd = g.pos(0.1, 1.0) * L.max()
    pk = g.real(-5, 5)
    cp = g.cell("cp", need=0, kind="pos")
    rhs = g.out("rhs")

    def ref(E):
        E.put(rhs, b, pk * np.exp(-images(b, dx, xlo, c, ll) / (2 * sd ** 2)) / cp(b))

    g.call("initgaussiansource", [dx, xlo, BOX, rhs, NG(rhs), cp, NG(cp), c, ll, float(sd), float(pk)], ref,
           tile=False)


@spec("C13", generic="mem")
def gradient_temperature(g):
    b = g.box()
    dx = g.dx()
    xlo = np.array([g.real(-3, 3) for _ in range(g.dim)])
    rp = np.array([g.real(-3, 3) for _ in range(g.dim)])
    gr = np.array([g.real(-5, 5, (0.0,)) for _ in range(g.dim)])
    t0 = g.real(300, 1500)
    T = g.out("temp")
    R = b.grow(T.ng)

    def ref(E):
        E.put(T, R, t0 + sum(gr[d] * (x - rp[d]) for d, x in enumerate(R.centers(dx, xlo - T.ng * dx))))

    g.call("initgradient", [dx, xlo, BOX, T, NG(T), rp, float(t0), gr], ref, tile=False)


@spec("C13")
def melting_line(g):
    b = g.box()
    T = g.out("temp")
    c = g.cell("conc", need=0, kind="conc")
    t0, c0, s = g.real(300, 1500), g.real(0, 1), g.real(-500, 500)

    def ref(E):
        E.put(T, b, t0 + s * (c(b) - c0))

    g.call("linearmeltingline", [BOX, T, NG(T), c, NG(c), float(t0), float(c0), float(s)], ref)
