"""Orientation mobility; energies."""
import numpy as np
from vf import quat as Q
from vf import ref as r
from vf.core import BOX, NG, Hidden
from vf.registry import spec
from .phase import aniso2, cubic3, iname, side_mean


# ------------------------------------------------------------------ C18

def mob(p, t, alt):
    """share of the liquid mobility left at phase p"""
    if t == "p":
        x = r.clip(p)
        return 1 - x ** 3 * (10 - 15 * x + 6 * x * x)
    if t == "e":
        x = r.clip(p)
        return 1 - np.expm1(-alt * x) * np.exp(-alt * (1 - x)) / np.expm1(-alt)
    x = np.clip(p, 1e-6, 1)
    return np.minimum(np.maximum(0, (1 - x) / x ** 2), alt)


@spec("C18")
def orientation_mobility(g):
    b = g.box()
    t = g.pick(["p", "e", "i"])
    tn = g.pick([t, {"p": "pbg", "e": "exponential", "i": "inverse"}[t], t.upper()])
    alt = {"p": 0.0, "e": g.real(0.5, 12, (1e3, 1e6)), "i": g.pos(0.5, 60)}[t]
    lo, hi = g.real(0, 1, (0.0,)), g.pos(1, 10)
    ngm = g.int(0, 2)
    phi = g.cell("phi", need=ngm, kind="wide")
    M = g.out("mobility", ng=ngm)

    def ref(E):
        R = b.grow(ngm)
        p = phi(R)
        q = 1 - np.exp(alt * (r.clip(p) - 1)) * np.expm1(-alt * r.clip(p)) / np.expm1(-alt) if t == "e" else mob(p, t, alt)
        E.put(M, R, lo + (hi - lo) * q)

    g.call("quatmobility", [BOX, phi, NG(phi), M, NG(M), float(hi), float(lo), Hidden(tn), float(alt)], ref)
    m = M(b.grow(ngm))
    if t != "i":
        g.check(bool(((m >= lo - 1e-12 * hi) & (m <= hi * (1 + 1e-12))).all()), "mobility:bounds",
                "mobility outside [%g,%g]" % (lo, hi))
    # derivative
    dM = g.out("dmobility")

    def ref2(E):
        p = phi(b)
        x = np.clip(p, 1e-6, 1) if t == "i" else r.clip(p)
        care = np.ones(b.shape, bool)
        if t == "p":
            d = -30 * x ** 2 * (1 - x) ** 2
        elif t == "e":
            d = -alt * np.exp(alt * (x - 1)) / -np.expm1(-alt)
            # beyond the pure phases the mobility is constant; its one-sided slope is used
        else:
            cap = (1 - x) / x ** 2
            d = np.where(cap < alt, (x - 2) / x ** 3, 0.0)
            care = np.abs(cap - alt) > 1e-9 * alt
        inside = (p >= 0) & (p <= 1)
        E.put(dM, b, (hi - lo) * d, care=care & inside)

    g.call("quatmobilityderiv",
           [BOX, phi, NG(phi), dM, NG(dM), float(hi), float(lo), Hidden(tn), float(alt)], ref2)


@spec("C18", generic=False)
def orientation_mobility_derivative(g):
    """the derivative kernel is the derivative of the mobility kernel, and the
    mobility does not increase as the material solidifies"""
    t = g.pick(["p", "e", "i"])
    alt = {"p": 0.0, "e": g.real(0.5, 12), "i": g.pos(0.5, 60)}[t]
    lo, hi = g.real(0, 1, (0.0,)), g.pos(1, 10)
    b = g.box()
    h = 1e-5
    phi = g.cell("phi", ng=0, kind=(2 * h, 1 - 2 * h))
    p0 = phi(b).copy()

    def m(p):
        phi.data[...] = p
        M = g.out("mobility", ng=0)
        g.raw("quatmobility", [BOX, phi, NG(phi), M, NG(M), float(hi), float(lo), Hidden(t), float(alt)])
        return M.data.copy()

    fd = (m(p0 + h) - m(p0 - h)) / (2 * h)
    phi.data[...] = p0
    d = g.out("d", ng=0)
    g.raw("quatmobilityderiv", [BOX, phi, NG(phi), d, NG(d), float(hi), float(lo), Hidden(t), float(alt)])
    near = np.zeros(b.shape, bool)
    if t == "i":
        c = lambda x: (1 - x) / x ** 2
        near = (c(p0 - 2 * h) >= alt) & (c(p0 + 2 * h) <= alt)
    big = np.abs(m(p0)).max() + np.abs(fd).max()
    g.close(np.where(near, 0, d.data), np.where(near, 0, fd), 1e-5 * big + 1e-4 * np.abs(fd), "mobility:derivative", t)
    g.check(bool((fd <= 1e-6 * big).all()), "mobility:monotone", "mobility increases with phase, type " + t)


# ------------------------------------------------------------------ C19

def zeros(g, name, **kw):
    return g.cell(name, ng=0, kind=lambda g_, f, v: np.zeros(v.shape + f.comps), **kw)


def interface_density(g, b, phi, n, dx, eps, nu, k, q, depth):
    """per cell, summed over the phases"""
    tot = np.zeros(b.shape)
    for p in range(n):
        if nu > 0:
            gr = [(phi(b, {d: 1}, p) - phi(b, {d: -1}, p)) / (2 * dx[d]) for d in range(g.dim)]
            n2 = sum(x * x for x in gr)
            if g.dim == 2:
                e, _ = aniso2(gr[0], gr[1], q(b, None, 0), eps, nu, k, depth)
                tot = tot + 0.5 * e ** 2 * n2
            else:
                gam, _, ok = cubic3(gr, q(b), eps, nu)
                tot = tot + 0.5 * gam ** 2 * n2
        else:
            lap = sum((2 * phi(b, None, p) - phi(b, {d: 1}, p) - phi(b, {d: -1}, p)) / dx[d] ** 2 for d in range(g.dim))
            tot = tot + 0.5 * eps ** 2 * lap * phi(b, None, p)
    return tot


@spec("C19")
def interface_energy(g):
    b = g.box()
    dx = g.dx()
    n = g.int(1, 3)
    aniso = g.bool()
    depth = 4 if g.dim == 3 else g.pick([4, 2])
    k = 4 if g.dim == 3 else g.pick([4, 2, 6])
    nu = g.real(0.001, 0.06 if g.dim == 3 else 0.3) if aniso else 0.0
    eps = g.pos(0.05, 2)
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    w = g.cell("weight", ng=0, kind="pos")
    en = g.cell("energy", ng=0, role="inout")
    per = g.pick([0, 1, 2])
    tot = np.array([g.real(-1, 1)])
    q = g.cell("q", need=0, comps=(depth,), kind=Q.field(depth)) if aniso else None

    def ref(E):
        v = interface_density(g, b, phi, n, dx, eps, nu, k, q, depth)
        if per:
            E.put(en, b, v)
        x = v * w(b)
        E.scalar(tot, x.sum(), np.abs(x).sum())
        E.sum_scale = np.abs(x).sum()

    if aniso:
        g.call("interface_anisotropic_energy",
               [BOX, dx, phi, NG(phi), n, q, NG(q), depth, float(eps), float(nu), k, w, tot, en, per], ref)
    else:
        g.call("phi_interface_energy", [BOX, dx, phi, NG(phi), n, float(eps), w, tot, en, per], ref)


@spec("C19", weight=1.5)
def total_energy(g):
    """interface + orientation + well energy; totals add to what they hold"""
    b = g.box()
    dx = g.dx()
    mis = g.real(0, 3, (0.0, 0.0)) if g.bool() else 0.0
    n = 1 if mis > 0 else g.int(1, 3)
    aniso = g.bool()
    depth = g.pick([4, 2, 1])
    if aniso:
        depth = 4 if g.dim == 3 else g.pick([4, 2])
    nu = g.real(0.001, 0.06 if g.dim == 3 else 0.3) if aniso else g.pick([0.0, -0.1])
    eps, epsq, W = g.pos(0.05, 2), g.real(0, 2, (0.0,)), g.real(0, 3, (1.0,))
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    T = g.cell("temp", need=0, kind="temp")
    q = g.cell("q", need=0, comps=(depth,), kind=Q.field(depth))
    G = g.side("gq", need=0, comps=(depth, g.dim))
    w = g.cell("weight", ng=0, kind="pos")
    en = g.cell("energy", ng=0, role="inout")
    per = g.pick([0, 1])
    tots = [np.array([g.real(-2, 2)]) for _ in range(5)]
    it, itn = iname(g)
    o1, o1n = iname(g)
    o2, o2n = iname(g)
    wt = g.pick(["d", "s"])
    av = g.pick(["a", "h"])
    fl = g.pick(["s", "t", "m"])
    floor = g.real(1e-3, 0.5)

    def ref(E):
        ph = interface_density(g, b, phi, n, dx, eps, nu, 4, q, depth)
        orient, qint = np.zeros(b.shape), np.zeros(b.shape)
        if mis > 0:
            for d in range(g.dim):
                for s in (0, 1):
                    m2 = (G[d](b, {d: s}) ** 2).sum((-1, -2))
                    h = r.interp(r.avg(phi(b, {d: s - 1}, 0), phi(b, {d: s}, 0), av), o1)
                    orient = orient + np.sqrt(m2 + (floor ** 2 if fl == "s" else 0)) * h
                    qint = qint + m2
            orient = orient * T(b) * mis / (2 * g.dim)
            qint = qint * 0.5 * epsq ** 2 * r.interp(phi(b, None, 0), o2) / (2 * g.dim)
        well = sum(W * r.well(phi(b, None, p), wt) for p in range(n))
        if per:
            E.put(en, b, ph + orient + qint + well)
        parts = [ph, orient, qint, well]
        x = [p * w(b) for p in parts]
        sc = sum(np.abs(p).sum() for p in x)
        E.sum_scale = sc
        E.scalar(tots[0], tot0[0] + sum(p.sum() for p in x), sc)
        for t_, s0, p in zip(tots[1:], tot0[1:], x):
            E.scalar(t_, s0 + p.sum(), sc)

    tot0 = [float(t_[0]) for t_ in tots]
    g.call("quatenergy",
           [BOX, depth, dx] + [G, NG(G), phi, NG(phi), n, q, NG(q), float(eps), float(epsq), float(nu), 4,
                               float(mis), T, NG(T), float(W), w] + tots
           + [en, per, itn, Hidden(g.pick([wt, {"d": "double", "s": "single"}[wt]])), o1n, o2n,
              Hidden(g.pick([av, {"a": "arithmetic", "h": "harmonic"}[av]])), Hidden(fl), float(floor)],
           ref, sums=tots)


@spec("C19")
def bulk_energy(g):
    b = g.box()
    phi = g.cell("phi", need=0, kind="wide")
    fl, fa = [g.cell(x, ng=0) for x in ("fl", "fa")]
    w = g.cell("weight", ng=0, kind="pos")
    en = g.cell("energy", ng=0, role="inout")
    per = g.pick([0, 1])
    it, itn = iname(g)
    t1, t2 = np.array([g.real(-2, 2)]), np.array([g.real(-2, 2)])
    a, c = float(t1[0]), float(t2[0])

    def ref(E):
        h = r.interp(phi(b), it)
        v = (1 - h) * fl(b) + h * fa(b)
        if per:
            E.put(en, b, en(b) + v)
        x = v * w(b)
        E.sum_scale = np.abs(x).sum()
        E.scalar(t1, a + x.sum(), E.sum_scale)
        E.scalar(t2, c + x.sum(), E.sum_scale)

    g.call("bulkenergy", [BOX, phi, NG(phi), fl, fa, w, t1, t2, en, per, itn], ref, sums=[t1, t2])
    T = g.cell("temp", need=0, kind="temp")
    tm, L = g.pos(300, 1800), g.real(-3, 3, (0.0, 1.0))
    f = g.out("f", ng=0)

    def ref2(E):
        E.put(f, b, L * (1 - T(b) / tm))
        E.slack[id(f)] = 1e-14 * abs(L)

    g.call("temperature_energy", [BOX, T, NG(T), f, float(tm), float(L)], ref2)


@spec("C19")
def pair_energy(g):
    b = g.box()
    n = g.int(1, 5)
    phi = g.cell("phi", need=0, comps=(n,), kind="wide")
    w = g.cell("weight", ng=0, kind="pos")
    en = g.out("edensity", ng=0)
    per = g.pick([0, 1])
    ga, m = g.pos(0.5, 3), g.pos(0.1, 3)
    rs = g.rng()
    tot = rs.uniform(-1, 1, n * n)
    t0 = tot.copy()

    def ref(E):
        v = np.zeros(b.shape)
        exp = t0.copy()
        sc = 0.0
        for i in range(n):
            for j in range(n):
                x = 0.5 * ga * m * phi(b, None, i) ** 2 * phi(b, None, j) ** 2
                v = v + x
                exp[n * i + j] += (x * w(b)).sum()
                sc += (x * w(b)).sum()
        if per:
            E.put(en, b, v)
        E.scalar(tot, exp, sc)
        E.sum_scale = sc

    g.call("phiphi_interfacialenergy", [BOX, phi, NG(phi), n, float(ga), float(m), w, en, tot, per], ref, sums=[tot])


@spec("C19", generic=False, weight=0.6)
def phase_equation_descends_the_energy(g):
    """the phase right-hand side (flux divergence, well and bulk driving force,
    unit mobility) is minus the derivative of the discrete energy the energy
    kernels report, with respect to every cell value"""
    dim = g.dim
    b = g.box(minsize=1, maxsize=3 if dim == 2 else 2)
    dx = g.dx()
    V = float(np.prod(dx))
    eps, W = g.pos(0.1, 2), g.real(0, 3, (1.0,))
    it = g.pick(["p", "h", "q", "w"])
    wt = "d"
    # phase supported inside the patch
    phi = g.cell("phi", need=0, ng=1, comps=(), kind=(0.05, 0.95))
    phi.data[np.isnan(phi.data)] = 0.0
    fl, fa = [g.cell(x, ng=0) for x in ("fl", "fa")]
    w = g.cell("weight", ng=0, kind=lambda g_, f, v: np.full(v.shape, V))
    T = g.cell("temp", ng=0, kind="temp")
    en = g.out("energy", ng=0)
    z = g.side("gq", ng=0, comps=(1, dim), kind=lambda g_, f, v: np.zeros(v.shape + f.comps))
    q = g.cell("q", ng=0, comps=(1,), kind=lambda g_, f, v: np.zeros(v.shape + f.comps))

    def energy():
        t = [np.zeros(1) for _ in range(5)]
        g.raw("quatenergy", [BOX, 1, dx, z, NG(z), phi, NG(phi), 1, q, NG(q), float(eps), 0.0, 0.0, 4, 0.0, T, NG(T),
                             float(W), w] + t + [en, 0, Hidden(it), Hidden(wt), Hidden("p"), Hidden("p"), Hidden("a"),
                                                 Hidden("s"), 0.1])
        t2 = np.zeros(1)
        g.raw("bulkenergy", [BOX, phi, NG(phi), fl, fa, w, t[0], t2, en, 0, Hidden(it)])
        return float(t[0][0])

    F = g.outside("flux", ng=0)
    g.raw("gradient_flux", [BOX, dx, float(eps), phi, NG(phi), F, NG(F)])
    rhs = g.out("rhs", ng=0)
    div = sum((F[d](b, {d: 1}) - F[d](b)) / dx[d] for d in range(dim))
    p0 = phi(b).copy()
    rhs.data[...] = div - W * r.dwell(p0, wt)
    # phaserhs_fenergy adds the bulk driving force
    g.raw("phaserhs_fenergy", [BOX, fl, fa, phi, NG(phi), rhs, NG(rhs), Hidden(it)])
    # a linear combination of cells at once: directional derivative
    for _ in range(2):
        v = g.rng().uniform(-1, 1, b.shape)
        h = 1e-4

        def at(s):
            phi.data[phi.sl(b)] = p0 + s * h * v
            return energy()

        fd = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h)
        phi.data[phi.sl(b)] = p0
        exp = -(rhs.data * v).sum() * V
        sc = (np.abs(rhs.data).sum() + eps ** 2 * sum(1 / dx ** 2) + 32 * W + 10) * V
        g.close([fd], [exp], 2e-7 * sc * b.shape[0] * b.shape[1], "energy:descent", "directional derivative")
