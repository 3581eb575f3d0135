"""Phase-field fluxes and right hand sides."""
import numpy as np
from vf import quat as Q
from vf import ref as r
from vf.core import BOX, LOHI, LLHH, LH, NG, Hidden
from vf.registry import spec


def side_mean(f, R, d, comp=None):
    return 0.5 * (f(R, {d: -1}, comp) + f(R, None, comp))


def face_gradient(phi, R, d, dx, comp=None):
    """full gradient of a cell field at faces normal to d: compact across the
    face, averaged along it"""
    out = []
    for a in range(R.dim):
        if a == d:
            out.append((phi(R, None, comp) - phi(R, {d: -1}, comp)) / dx[d])
        else:
            out.append(0.25 * (phi(R, {a: 1}, comp) - phi(R, {a: -1}, comp)
                               + phi(R, {d: -1, a: 1}, comp) - phi(R, {d: -1, a: -1}, comp)) / dx[a])
    return out


def div(F, b, dx, comp=None):
    return sum((F[d](b, {d: 1}, comp) - F[d](b, None, comp)) / dx[d] for d in range(b.dim))


def iname(g, names=None):
    t = g.pick(names or r.INTERP)
    return t, Hidden(g.pick([t, r.NAMES[t]]))


# ------------------------------------------------------------------ C10

@spec("C10")
def phase_flux(g):
    b = g.box()
    dx = g.dx()
    eps = g.real(-2, 2, (0.0, 1.0))
    phi = g.cell("phi", need=1, kind="wide")
    F = g.outside("flux", ng=g.int(0, 2))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(F[d], R, eps ** 2 * (phi(R) - phi(R, {d: -1})) / dx[d])

    g.call("gradient_flux", [BOX, dx, float(eps), phi, NG(phi), F, NG(F)], ref)
    if g.dim == 3:
        return
    for nm, w in (("gradient_flux_wide", (6.0, 8.0)), ("compute_flux_isotropic", (10.0, 12.0))):
        F2 = g.outside("flux_" + nm[-3:], ng=g.int(0, 2))

        def ref2(E):
            for d in range(2):
                R, t = b.side(d), 1 - d
                df = lambda k: phi(R, {t: k}) - phi(R, {d: -1, t: k})
                E.put(F2[d], R, eps ** 2 * (df(-1) + w[0] * df(0) + df(1)) / (w[1] * dx[d]))

        g.call(nm, [BOX, dx, float(eps), phi, NG(phi), F2, NG(F2)], ref2)


def aniso2(gx, gy, q, eps, nu, k, depth):
    """flux of 1/2 (eps (1 + nu cos k(theta - phi)))^2 |g|^2 in 2D"""
    ang = np.arccos(np.clip(q, -1, 1)) * (2 if depth == 4 else 1)
    th = np.where(np.abs(gx) > 1e-12, np.arctan2(gy, gx), np.pi / 2)
    e = eps * (1 + nu * np.cos(k * (th - ang)))
    de = -eps * nu * k * np.sin(k * (th - ang))
    return e, [e * e * gx - e * de * gy, e * e * gy + e * de * gx]


def cubic3(gr, q, eps, e4):
    """gamma(n) and flux of 1/2 gamma^2 |g|^2,
    gamma = eps (1-3 e4) (1 + 4 e4/(1-3 e4) sum n_i^4), n in the crystal frame"""
    n2 = sum(x * x for x in gr)
    big = n2 > 1e-12
    m = np.sqrt(np.where(big, n2, 1.0))
    n = np.stack([np.zeros_like(m)] + [x / m for x in gr], -1)
    c = Q.inv(q)
    p = Q.mul4(q, Q.mul4(n, c))
    n4 = (p[..., 1:] ** 4).sum(-1)
    t = p * (p * p - n4[..., None])
    t[..., 0] = 0
    t = Q.mul4(c, Q.mul4(t, q))
    gam = eps * ((1 - 3 * e4) + 4 * e4 * np.where(big, n4, 0.0))
    fl = [gam ** 2 * gr[i] + np.where(big, 16 * eps * gam * e4 * m * t[..., i + 1], 0.0) for i in range(3)]
    return gam, fl, big | (n2 == 0)


@spec("C10")
def anisotropic_flux(g):
    b = g.box()
    dx = g.dx()
    eps = g.pos(0.05, 2)
    phi = g.cell("phi", need=1, kind="wide")
    F = g.outside("flux", ng=g.int(0, 2))
    if g.dim == 2:
        depth = g.pick([4, 2])
        k = g.pick([4, 2, 6, 8])
        nu = g.real(0, 0.3, (0.0,))
    else:
        depth, k = 4, 4
        nu = g.real(0, 0.06, (0.0,))
    q = g.cell("q", need=1, comps=(depth,), kind=Q.field(depth))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            gr = face_gradient(phi, R, d, dx)
            if g.dim == 2:
                _, fl = aniso2(gr[0], gr[1], side_mean(q, R, d, 0), eps, nu, k, depth)
                E.put(F[d], R, fl[d])
            else:
                _, fl, ok = cubic3(gr, side_mean(q, R, d), eps, nu)
                E.put(F[d], R, fl[d], care=ok)
            E.slack[id(F[d])] = 1e-11 * eps ** 2 * (1 + nu * k) ** 2

    g.call("anisotropic_gradient_flux",
           [BOX, dx, float(eps), float(nu), k, phi, NG(phi), q, NG(q), depth, F, NG(F)], ref)


@spec("C10", generic=False)
def anisotropic_flux_is_energy_derivative(g):
    """on an affine phase field with one orientation the flux is the gradient
    of the anisotropic energy density the energy kernel reports, it follows
    rotations of the crystal, and is homogeneous of degree one"""
    dim = g.dim
    b = g.box(minsize=1, maxsize=2)
    dx = g.dx()
    eps = g.pos(0.2, 2)
    nu = g.real(0.001, 0.3 if dim == 2 else 0.06)
    k = g.pick([4, 6, 2]) if dim == 2 else 4
    depth = 4 if dim == 3 else g.pick([4, 2])
    gr = np.array([g.real(-2, 2) for _ in range(dim)])
    if np.abs(gr).max() < 0.05 or (dim == 2 and abs(gr[0]) < 1e-3):
        gr = gr + 0.3
    q0 = Q.normalise(g.rng().randn(depth))

    def slope(v):
        def f_(g_, f, valid):
            x = valid.centers(dx, [l * h for l, h in zip(valid.lo, dx)])
            return sum(c * y for c, y in zip(v, x)) + np.zeros(valid.shape)
        return f_

    def flux(v, q):
        phi = g.cell("phi", need=1, ng=1, kind=slope(v))
        qf = g.cell("q", need=1, ng=1, comps=(depth,), kind=lambda a, f, R: np.broadcast_to(q, R.shape + (depth,)))
        F = g.outside("flux", ng=0)
        g.call("anisotropic_gradient_flux",
               [BOX, dx, float(eps), float(nu), k, phi, NG(phi), qf, NG(qf), depth, F, NG(F)],
               lambda E: [E.put(f, b.side(f.side), 0, care=False) for f in F])
        return np.array([f(b.side(f.side)).flat[0] for f in F])

    def energy(v):
        phi = g.cell("phi", need=1, ng=1, kind=lambda *a: slope(v)(*a)[..., None], comps=(1,))
        qf = g.cell("q", need=1, ng=1, comps=(depth,), kind=lambda a, f, R: np.broadcast_to(q0, R.shape + (depth,)))
        w = g.cell("w", ng=0, kind=lambda a, f, R: np.ones(R.shape))
        en = g.cell("e", ng=0, kind=lambda a, f, R: np.zeros(R.shape), role="inout")
        tot = np.zeros(1)

        def anything(E):
            E.put(en, b, 0, care=False)
            E.rawexp[id(tot)] = np.zeros(1)
            E.rawtol[id(tot)] = 1e300
        g.call("interface_anisotropic_energy",
               [BOX, dx, phi, NG(phi), 1, qf, NG(qf), depth, float(eps), float(nu), k, w, tot, en, 1], anything)
        return en(b).flat[0]

    f = flux(gr, q0)
    S = (eps * (1 + 8 * nu)) ** 2 * np.abs(gr).sum()
    # derivative of the energy the code reports
    h = 1e-4
    for i in range(dim):
        e = np.zeros(dim)
        e[i] = h
        num = (8 * (energy(gr + e) - energy(gr - e)) - (energy(gr + 2 * e) - energy(gr - 2 * e))) / (12 * h)
        m = np.abs(gr).max()
        g.close(f[i], num, 1e-5 * S * (1 + (h / m) ** 4 * k ** 4 * 1e3) + 1e-8 / dx.min(),
                "aniso:energy-derivative", "component %d" % i)
    # homogeneity
    s = g.pos(0.3, 3)
    g.close(flux(s * gr, q0), s * f, 1e-8 * S * (1 + s) + 1e-9 / dx.min(), "aniso:homogeneous")
    # a symmetric equivalent orientation gives the same flux
    if dim == 3:
        G = Q.group4()
        gg = G[g.src.pick(len(G))]
        g.close(flux(gr, Q.mul4(gg, q0)), f, 1e-8 * S + 1e-9 / dx.min(), "aniso:crystal-symmetry")
    elif k % 4 == 0:
        # quarter turn of the gradient turns the flux
        f2 = flux(np.array([-gr[1], gr[0]]), q0)
        if abs(gr[1]) > 1e-3:
            g.close(f2, [-f[1], f[0]], 1e-8 * S + 1e-9 / dx.min(), "aniso:crystal-symmetry")
    g.nontrivial = True


# ------------------------------------------------------------------ C11

@spec("C11")
def two_phase_rhs(g):
    b = g.box()
    dx = g.dx()
    F = g.side("flux", need=0)
    phi = g.cell("phi", need=0, kind="wide")
    eta = g.cell("eta", need=0, kind="wide")
    T = g.cell("temp", need=0, kind="temp")
    og = g.cell("ogm", need=0, kind="pos")
    rhs = g.out("rhs")
    mf, eq = g.real(0, 1e-2, (0.0,)), g.real(0, 2, (0.0,))
    pw, ew = g.real(0, 3, (1.0,)), g.real(0, 3, (1.0,))
    wt = g.pick("d")
    et, es = g.pick("ds"), None
    et_n = Hidden({"d": "double", "s": "single"}[et])
    it, itn = iname(g)
    o1, o1n = iname(g)
    o2, o2n = iname(g)
    wo, th = g.bool(), g.bool()

    def ref(E):
        v = div(F, b, dx) - pw * r.dwell(phi(b), wt)
        if th:
            v = v - ew * r.dinterp(phi(b), it) * r.well(eta(b), et)
        if wo:
            v = v - mf * T(b) * r.dinterp(phi(b), o1) * og(b) \
                - 0.5 * eq ** 2 * r.dinterp(phi(b), o2) * og(b) ** 2
        E.put(rhs, b, v)

    g.label("orient" if wo else "no orient")
    g.call("computerhspbg",
           [BOX, dx, float(mf), float(eq), F, NG(F), T, NG(T), float(pw), float(ew), phi, NG(phi), eta, NG(eta),
            og, NG(og), rhs, NG(rhs), Hidden("double"), et_n, itn, o1n, o2n, int(wo), int(th)], ref)


@spec("C11")
def eta_rhs(g):
    b = g.box()
    dx = g.dx()
    F = g.side("flux", need=0)
    phi = g.cell("phi", need=0, kind="wide")
    eta = g.cell("eta", need=0, kind="wide")
    T = g.cell("temp", need=0, kind="temp")
    rhs = g.out("rhs")
    ew = g.real(0, 3, (1.0,))
    wt = g.pick("ds")
    it, itn = iname(g)

    def ref(E):
        E.put(rhs, b, div(F, b, dx) - ew * r.interp(phi(b), it) * r.dwell(eta(b), wt))

    g.call("computerhseta",
           [BOX, dx, F, NG(F), T, NG(T), float(ew), phi, NG(phi), eta, NG(eta), rhs, NG(rhs),
            Hidden({"d": "double", "s": "single"}[wt]), itn], ref)


@spec("C11")
def free_energy_rhs(g):
    b = g.box()
    fl, fa, fb = [g.cell("f%s" % c, ng=0, kind="real") for c in "lab"]
    phi = g.cell("phi", need=0, kind="wide")
    eta = g.cell("eta", need=0, kind="wide")
    rhs = g.cell("rhs", need=0, role="inout")
    it, itn = iname(g)

    def ref(E):
        E.add(rhs, b, r.dinterp(phi(b), it) * (fl(b) - fa(b)))

    g.call("phaserhs_fenergy", [BOX, fl, fa, phi, NG(phi), rhs, NG(rhs), itn], ref)
    et, etn = iname(g)
    rh2 = g.cell("rhs2", need=0, role="inout")

    def ref2(E):
        E.add(rh2, b, r.interp(phi(b), it) * r.dinterp(eta(b), et) * (fa(b) - fb(b)))

    g.call("etarhs_fenergy", [BOX, fl, fa, fb, phi, NG(phi), eta, NG(eta), rh2, NG(rh2), itn, etn], ref2)


@spec("C11")
def bias_well_rhs(g):
    b = g.box()
    phi = g.cell("phi", need=0, kind="wide")
    T = g.cell("temp", need=1, kind=(0.0, 5.0))
    te = g.cell("te", need=0, kind=(0.0, 5.0))
    al, ga = g.real(-3, 3, (0.9,)), g.real(0, 20, (10.0,))
    rhs = g.cell("rhs", need=0, role="inout")

    def ref(E):
        # the sources use a single precision pi in the coefficient
        m = al / np.pi * np.arctan(ga * (te(b) - T(b)))
        E.add(rhs, b, m * phi(b) * (1 - phi(b)))
        E.slack[id(rhs)] = 4e-8 * np.abs(m * phi(b) * (1 - phi(b))).max()

    g.call("computerhsbiaswell",
           [BOX, phi, NG(phi), T, NG(T), float(al), float(ga), te, NG(te), rhs, NG(rhs)], ref)
    rhs2 = g.cell("rhs2", need=0, role="inout")

    def ref2(E):
        E.add(rhs2, b, al * (te(b) - T(b)) * phi(b) * (1 - phi(b)))

    g.call("computerhsbiaswellbeckermann",
           [BOX, phi, NG(phi), T, NG(T), float(al), te, NG(te), rhs2, NG(rhs2)], ref2)


@spec("C11")
def delta_temperature_rhs(g):
    b = g.box()
    phi = g.cell("phi", need=0, kind="wide")
    T = g.cell("temp", need=1, kind="temp")
    tm, lh = g.pos(300, 1800), g.real(-5, 5, (0.0, 1.0))
    it, itn = iname(g)
    rhs = g.cell("rhs", need=0, role="inout")

    def wT():
        """weighted average of the temperature over the cell and its neighbours"""
        w = 0.25 / (2 * g.dim)
        return 0.75 * T(b) + w * sum(T(b, {d: k}) for d in range(g.dim) for k in (-1, 1))

    def ref(E):
        E.add(rhs, b, lh * (tm - wT()) / tm * r.dinterp(phi(b), it))
        # the 3D neighbour weight is a single precision constant
        E.slack[id(rhs)] = 3e-8 * abs(lh / tm * np.abs(T(b)).max() * np.abs(r.dinterp(phi(b), it)).max())

    g.call("computerhsdeltatemperature",
           [BOX, phi, NG(phi), T, NG(T), float(tm), float(lh), rhs, NG(rhs), itn], ref)
    mo = g.pos(0.1, 4)
    rhs2 = g.out("rhs2")

    def ref2(E):
        E.put(rhs2, b, mo * lh / tm * r.dinterp(phi(b), it))

    g.call("computedphidtemperaturedeltatemperature",
           [BOX, phi, NG(phi), float(tm), float(lh), float(mo), rhs2, NG(rhs2), itn], ref2)


@spec("C11")
def advection_rhs(g):
    """moving-frame term: derivative along x, exact for affine fields"""
    b = g.box(minsize=1)
    dx = g.dx()
    phi = g.cell("phi", need=2, kind="wide")
    v = g.real(-3, 3, (0.0, 1.0))
    rhs = g.cell("rhs", need=0, role="inout")

    def ref(E):
        E.add(rhs, b, v * (phi(b, {0: 1}) - phi(b, {0: -1})) / (2 * dx[0]))

    g.call("addvdphidx", [BOX, dx, phi, NG(phi), float(v), rhs, NG(rhs)], ref)
    rhs2 = g.cell("rhs2", need=0, role="inout")
    physb = g.src.pick(2)

    def ref2(E):
        t = v / (6 * dx[0]) * (-2 * phi(b, {0: -1}) - 3 * phi(b) + 6 * phi(b, {0: 1}) - phi(b, {0: 2}))
        c = v * (phi(b, {0: 1}) - phi(b, {0: -1})) / (2 * dx[0])
        if physb:
            t[-1] = c[-1]
        E.add(rhs2, b, t)

    g.call("addvdphidx_upwind3", [BOX, dx, phi, NG(phi), float(v), rhs2, NG(rhs2), physb], ref2,
           tile=not physb)


# ------------------------------------------------------------------ C12

@spec("C12")
def three_phase_rhs(g):
    b = g.box()
    dx = g.dx()
    F = g.side("flux", need=0, comps=(3,))
    phi = g.cell("phi", need=0, comps=(3,), kind="wide")
    rhs = g.out("rhs", comps=(3,))
    w = g.real(0, 3, (1.0,))

    def ref(E):
        v = []
        for i in range(3):
            p = [phi(b, None, (i + j) % 3) for j in range(3)]
            v.append(div(F, b, dx, i) - w * r.triple_dwell(*p))
        m = sum(v) / 3.0
        for i in range(3):
            E.put(rhs, b, v[i] - m, comp=i)

    g.call("computerhsthreephases", [BOX, dx, F, NG(F), float(w), phi, NG(phi), rhs, NG(rhs)], ref)
    s = rhs(b).sum(-1)
    g.close(s, 0 * s, 1e-11 * (1 + np.abs(rhs(b)).max()), "three-phase:sum-zero")


@spec("C12")
def multi_order_rhs(g):
    """divergence of the flux minus the derivative of
    m ( sum (p^4/4 - p^2/2) + gamma sum_{i<j} p_i^2 p_j^2 )"""
    b = g.box()
    n = g.int(1, 5)
    dx = g.dx()
    F = g.side("flux", need=0, comps=(n,))
    phi = g.cell("phi", need=0, comps=(n,), kind="wide")
    p2 = g.out("phi2sum", ng=0)
    rhs = g.out("rhs", comps=(n,))
    ga, m = g.pos(0.5, 3), g.real(0, 4, (1.0,))

    def ref(E):
        E.put(p2, b, 0, care=False)
        for i in range(n):
            p = phi(b, None, i)
            o = sum((phi(b, None, j) ** 2 for j in range(n) if j != i), 0 * p)
            E.put(rhs, b, div(F, b, dx, i) - m * (p ** 3 - p + 2 * ga * p * o), comp=i)

    g.call("computerhsmultiorder",
           [BOX, n, dx, F, NG(F), float(ga), float(m), phi, NG(phi), p2, rhs, NG(rhs)], ref)


@spec("C12")
def wang_sintering_rhs(g):
    """Wang (2006): derivative of 6 B [ (1-c) sum p^2 - ... ] terms"""
    b = g.box()
    n = g.int(1, 5)
    dx = g.dx()
    F = g.side("flux", need=0, comps=(n,))
    phi = g.cell("phi", need=0, comps=(n,), kind="wide")
    c = g.cell("conc", need=0, kind="wide")
    p2 = g.out("phi2sum", ng=0)
    rhs = g.out("rhs", comps=(n,))
    be, B = g.pos(0.1, 3), g.real(0, 3, (1.0,))

    def ref(E):
        E.put(p2, b, 0, care=False)
        s = sum(phi(b, None, j) ** 2 for j in range(n))
        for i in range(n):
            p = phi(b, None, i)
            E.put(rhs, b, be * div(F, b, dx, i)
                  - 12 * B * ((1 - c(b)) * p - (2 - c(b)) * p ** 2 + s * p), comp=i)

    g.call("computerhs_wang_sintering",
           [BOX, n, dx, F, NG(F), float(be), float(B), phi, NG(phi), c, NG(c), p2, rhs, NG(rhs)], ref)


@spec("C12")
def multi_order_free_energy(g):
    """minus the derivative of sum_s h_s fa + h_l fl, h_k = p_k^2 / sum p^2"""
    b = g.box()
    n = g.int(2, 5)
    fl, fa = [g.cell("f%s" % c, ng=0, kind="real") for c in "la"]
    phi = g.cell("phi", need=0, comps=(n,), kind=(0.02, 1.0))
    rhs = g.cell("rhs", need=0, comps=(n,), role="inout")

    def ref(E):
        p = [phi(b, None, i) for i in range(n)]
        S = sum(x ** 2 for x in p)
        hl = p[-1] ** 2 / S
        for i in range(n):
            if i < n - 1:
                E.add(rhs, b, 2 * p[i] * hl / S * (fl(b) - fa(b)), comp=i)
            else:
                E.add(rhs, b, 2 * p[i] * (1 - hl) / S * (fa(b) - fl(b)), comp=i)

    args = [BOX, fl, fa, phi, NG(phi), n, rhs, NG(rhs)]
    g.call("phaserhs_fenergy_multiorderp", args + ([Hidden("pbg")] if g.dim == 3 else []), ref)


@spec("C12")
def project_phi(g):
    b = g.box()
    n = g.int(1, 5)
    phi = g.cell("phi", need=0, comps=(n,), kind="wide")
    corr = g.out("corr", comps=(n,))
    err = g.cell("err", need=0, comps=(n,), role="inout")

    def ref(E):
        p = phi(b)
        c = -(p.sum(-1, keepdims=True) - 1) / n + 0 * p
        E.put(corr, b, c)
        E.slack[id(corr)] = 1e-14
        e = err(b)
        E.put(err, b, e - e.mean(-1, keepdims=True))

    g.call("projectphi%dd" % g.dim, [BOX, n, phi, NG(phi), corr, NG(corr), err, NG(err)], ref)
