"""Composition equation: fluxes, antitrapping, diffusion coefficients."""
import numpy as np
from vf import ref as r
from vf.core import BOX, NG, Hidden
from vf.registry import spec
from .phase import div, face_gradient, iname, side_mean


def dif(f, R, d, comp=None):
    return f(R, None, comp) - f(R, {d: -1}, comp)


def lap(f, R, dx, comp=None):
    return sum((f(R, {d: 1}, comp) - 2 * f(R, None, comp) + f(R, {d: -1}, comp)) / dx[d] ** 2
               for d in range(R.dim))


def ibox(f, b):
    """region of all faces touched by cells of the box grown by one"""
    return b.grow(1).side(f.side)


def put_inner(E, f, b, d, val, comp=None):
    """faces of the patch hold val; faces around it may hold partial sums"""
    E.put(f, ibox(f, b), E.cur(f, ibox(f, b), comp), comp, care=False)
    E.put(f, b.side(d), val, comp, care=True)


# ------------------------------------------------------------------ C14

@spec("C14")
def concentration_flux(g):
    b = g.box()
    dx = g.dx()
    c = g.cell("conc", need=1, kind="conc")
    phi = g.cell("phi", need=1, kind="wide")
    D, K = g.side("diff"), g.side("coupl")
    F = g.outside("flux")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(F[d], R, (D[d](R) * dif(c, R, d) + K[d](R) * dif(phi, R, d)) / dx[d])

    g.call("concentrationflux",
           [BOX, dx, c, NG(c), phi, NG(phi), D, NG(D), K, NG(K), F, NG(F)], ref)
    # right hand side: scaled divergence
    mo = g.real(-2, 2, (1.0,))
    rhs = g.out("rhs")

    def ref2(E):
        E.put(rhs, b, mo * div(F, b, dx))

    g.call("computerhsconcentration", [BOX, dx, F, NG(F), float(mo), rhs, NG(rhs)], ref2)
    # conservation: what the cells gain is what crosses the boundary
    vol = np.prod(dx)
    tot = rhs(b).sum() * vol
    net, scale = 0.0, 0.0
    for d in range(g.dim):
        up, lo = F[d](b, {d: 1}), F[d](b)
        ax = tuple(range(g.dim))
        first = np.take(lo, 0, axis=d)
        last = np.take(up, -1, axis=d)
        net += (last.sum() - first.sum()) * vol / dx[d]
        scale += (np.abs(up).sum() + np.abs(lo).sum()) * vol / dx[d]
    g.close(tot, mo * net, 1e-12 * abs(mo) * scale + 1e-300, "concentration:conservation")
    # constant composition and phase: no flux
    g.label("conservation")


@spec("C14")
def concentration_flux_from_temperature(g):
    b = g.box()
    dx = g.dx()
    T = g.cell("temp", need=1, kind="temp")
    M = g.side("mq")
    F = g.side("flux", role="inout")
    a = g.pick(["a", "h"])

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.add(F[d], R, -M[d](R) * dif(T, R, d) / dx[d] / r.avg(T(R), T(R, {d: -1}), a))

    g.call("addconcentrationfluxfromgradt",
           [BOX, dx, T, NG(T), M, NG(M), F, NG(F), Hidden(g.pick([a, {"a": "arithmetic", "h": "harmonic"}[a]]))], ref)


@spec("C14")
def cahn_hilliard_flux(g):
    """mobility times the face gradient of the variational derivative of
    W (c-ca)^2 (cb-c)^2 + kappa/2 |grad c|^2"""
    b = g.box()
    dx = g.dx()
    c = g.cell("conc", need=2, kind="wide")
    F = g.side("flux", ng=g.int(1, 3), role="inout")
    mo, W, ka = g.real(-2, 2, (1.0,)), g.real(0, 3, (1.0,)), g.real(0, 2, (0.0,))
    ca, cb = g.real(0, 0.4), g.real(0.6, 1)

    def ref(E):
        B = b.grow(1)
        x = c(B)
        mu = 2 * W * (x - ca) * (cb - x) * (cb + ca - 2 * x) - ka * lap(c, B, dx)
        for d in range(g.dim):
            put_inner(E, F[d], b, d, E.cur(F[d], b.side(d)) + mo * facedif(mu, d) / dx[d])

    g.call("add_cahnhilliarddoublewell_flux",
           [BOX, dx, c, NG(c), float(mo), float(ca), float(cb), float(W), float(ka), F, NG(F)], ref)


def facedif(a, d):
    """differences across the faces normal to d of the box, of an array given
    on the box grown by one"""
    s = [slice(1, -1)] * a.ndim
    s[d] = slice(None)
    return np.diff(a[tuple(s)], axis=d)


def facesum(a, d):
    s = [slice(1, -1)] * a.ndim
    s[d] = slice(None)
    a = a[tuple(s)]
    lo, hi = [slice(None)] * a.ndim, [slice(None)] * a.ndim
    lo[d], hi[d] = slice(0, -1), slice(1, None)
    return a[tuple(lo)] + a[tuple(hi)]


@spec("C14")
def wang_sintering_flux(g):
    """chemical potential of Wang's energy A c^2(1-c)^2 +
    B [c^2 + 6(1-c) S2 - 4(2-c) S3 + 3 S2^2] + kappa/2 |grad c|^2"""
    b = g.box()
    n = g.int(1, 5)
    dx = g.dx()
    c = g.cell("conc", need=2, kind="wide")
    D = g.side("diff", need=1)
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    F = g.side("flux", ng=g.int(1, 3), role="inout")
    p2, p3 = g.out("phi2sum", ng=phi.ng), g.out("phi3sum", ng=phi.ng)
    mo, A, B_, ka = g.real(-2, 2, (1.0,)), g.real(0, 3, (1.0,)), g.real(0, 3, (1.0,)), g.real(0, 2, (0.0,))

    def ref(E):
        B = b.grow(1)
        x = c(B)
        s2, s3 = (phi(B) ** 2).sum(-1), (phi(B) ** 3).sum(-1)
        E.put(p2, B, 0, care=False)
        E.put(p3, B, 0, care=False)
        mu = 2 * A * x * (1 - x) * (1 - 2 * x) + B_ * (2 * x - 6 * s2 + 4 * s3) - ka * lap(c, B, dx)
        for d in range(g.dim):
            put_inner(E, F[d], b, d, E.cur(F[d], b.side(d)) + mo * D[d](b.side(d)) * facedif(mu, d) / dx[d])

    g.call("add_wang_sintering_flux",
           [BOX, dx, c, NG(c), D, NG(D), phi, NG(phi), n, float(mo), float(A), float(B_), float(ka),
            F, NG(F), p2, p3], ref)


@spec("C14")
def spinodal_flux(g):
    b = g.box()
    dx = g.dx()
    c, ca, cb = [g.cell(x, need=1, comps=(1,), kind="conc") for x in ("conc", "conca", "concb")]
    eta = g.cell("eta", need=1, kind="wide")
    D = g.side("diff", comps=(1,))
    F = g.outside("flux", comps=(1,))
    ka = g.real(-2, 2, (0.0, 1.0))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(F[d], R, (D[d](R, None, 0) * dif(c, R, d, 0)
                            - ka * (side_mean(ca, R, d, 0) - side_mean(cb, R, d, 0)) * dif(eta, R, d)) / dx[d], comp=0)

    g.call("concentrationflux_spinodal",
           [BOX, dx, c, NG(c), 1, ca, NG(ca), cb, NG(cb), D, NG(D), eta, NG(eta), float(ka), F, NG(F)], ref)


# ------------------------------------------------------------------ C15

def normal(gr):
    m = np.sqrt(sum(x * x for x in gr))
    ok = m * m > 1e-16
    edge = np.abs(m * m - 1e-16) < 1e-18
    return [np.where(ok, x / np.where(ok, m, 1.0), 0.0) for x in gr], ok, edge


@spec("C15")
def antitrapping_flux(g):
    b = g.box()
    dx = g.dx()
    n = g.int(1, 3)
    phi = g.cell("phi", need=1, kind="wide")
    ng = g.int(1, 3)
    cl, ca = [g.cell(x, need=1, comps=(n,), kind="conc", ng=ng) for x in ("cl", "ca")]
    dt = g.cell("dphidt", need=1)
    F = g.side("flux", comps=(n,), role="inout")
    al = g.real(-2, 2, (0.35,))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            nv, ok, edge = normal(face_gradient(phi, R, d, dx))
            for i in range(n):
                E.add(F[d], R, al * nv[d] * (side_mean(cl, R, d, i) - side_mean(ca, R, d, i))
                      * side_mean(dt, R, d), comp=i)

    g.call("addconcentrationfluxfromantitrapping",
           [BOX, dx, phi, NG(phi), cl, ca, NG(cl), n, dt, NG(dt), float(al), F, NG(F)], ref)


@spec("C15")
def antitrapping_flux_three_phases(g):
    b = g.box()
    dx = g.dx()
    phi = g.cell("phi", need=1, comps=(3,), kind="wide")
    ng = g.int(1, 3)
    c = [g.cell(x, need=1, kind="conc", ng=ng) for x in ("cl", "ca", "cb")]
    dt = g.cell("dphidt", need=1, comps=(3,))
    F = g.side("flux", role="inout")
    al = g.real(-2, 2, (0.35,))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            nl, ok, e = normal(face_gradient(phi, R, d, dx, 0))
            tot = 0.0
            for p in (1, 2):
                np_, okp, e = normal(face_gradient(phi, R, d, dx, p))
                facing = -sum(x * y for x, y in zip(nl, np_))
                tot = tot + facing * nl[d] * (side_mean(c[0], R, d) - side_mean(c[p], R, d)) * side_mean(dt, R, d, p)
            E.add(F[d], R, al * tot)

    g.call("addconcentrationfluxfromantitrapping3phases",
           [BOX, dx, phi, NG(phi)] + c + [NG(c[0]), dt, NG(dt), float(al), F, NG(F)], ref)


@spec("C15")
def antitrapping_flux_multi_order(g):
    b = g.box()
    dx = g.dx()
    n = g.int(2, 5)
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    ng = g.int(1, 3)
    c = [g.cell(x, need=1, kind="conc", ng=ng) for x in ("cl", "ca")]
    dt = g.cell("dphidt", need=1, comps=(n,))
    F = g.side("flux", role="inout")
    al = g.real(-2, 2, (0.35,))

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            nl, ok, e = normal(face_gradient(phi, R, d, dx, n - 1))
            gs = [sum(x) for x in zip(*[face_gradient(phi, R, d, dx, p) for p in range(n - 1)])]
            _, oks, e = normal(gs)
            rate = sum(side_mean(dt, R, d, p) for p in range(n - 1))
            v = -al * nl[d] * (side_mean(c[0], R, d) - side_mean(c[1], R, d)) * rate
            # solid gradients that cancel to rounding may fall on either side of the threshold
            m2 = sum(x * x for x in gs)
            noise = 1e-12 * sum(np.abs(x) for p in range(n - 1) for x in face_gradient(phi, R, d, dx, p)) ** 2
            E.put(F[d], R, E.cur(F[d], R) + np.where(oks, v, 0.0), care=np.abs(m2 - 1e-16) > 1e-17 + noise * 1e-10)

    g.call("addconcentrationfluxfromantitrappingmultiorderp",
           [BOX, dx, phi, NG(phi), n] + c + [NG(c[0]), dt, NG(dt), float(al), F, NG(F)], ref)


@spec("C15", generic=False)
def antitrapping_multi_order_is_two_phase(g):
    """with one grain, liquid = 1 - solid, the multi-order current is the
    two-phase current for the same solid field"""
    b = g.box()
    dx = g.dx()
    s = g.cell("s", need=1, ng=1, kind="phase")
    ng = g.int(1, 3)
    cl, ca = [g.cell(x, need=1, comps=(1,), kind="conc", ng=ng) for x in ("cl", "ca")]
    dt = g.cell("dphidt", need=1, ng=1)
    al = g.real(-2, 2, (0.35,))
    F1 = g.side("f1", comps=(1,), ng=0, kind=lambda g_, f, v: np.zeros(v.shape + f.comps))
    F2 = g.side("f2", ng=0, kind=lambda g_, f, v: np.zeros(v.shape))
    R = b.grow(1)
    phi = g.cell("phi", need=1, ng=1, comps=(2,), kind=lambda g_, f, v: np.stack([s(v), 1 - s(v)], -1))
    dt2 = g.cell("dphidt2", need=1, ng=1, comps=(2,), kind=lambda g_, f, v: np.stack([dt(v), -dt(v)], -1))
    g.raw("addconcentrationfluxfromantitrapping",
          [BOX, dx, s, NG(s), cl, ca, NG(cl), 1, dt, NG(dt), float(al), F1, NG(F1)])
    g.raw("addconcentrationfluxfromantitrappingmultiorderp",
          [BOX, dx, phi, NG(phi), 2, cl, ca, NG(cl), dt2, NG(dt2), float(al), F2, NG(F2)])
    for d in range(g.dim):
        a, c = F1[d](b.side(d), None, 0), F2[d](b.side(d))
        gr = face_gradient(s, b.side(d), d, dx)
        m = np.sqrt(sum(x * x for x in gr))
        big = m > 1e-6
        g.close(np.where(big, c, 0), np.where(big, a, 0), 1e-8 * (1e-300 + np.abs(a).max()) + 1e-12,
                "antitrapping:multi-vs-two", "face %d" % d)


# ------------------------------------------------------------------ C16

GASR = 8.314472


def arr(D, Q, T, R, d, gasr):
    """Arrhenius coefficient at the faces"""
    return D * np.exp(-Q / gasr * 2.0 / (T(R) + T(R, {d: -1})))


def hface(phi, R, d, it, av, comps=None):
    if comps is None:
        p = r.avg(phi(R, {d: -1}), phi(R), av)
    else:
        p = sum((r.avg(phi(R, {d: -1}, k), phi(R, None, k), av) for k in comps), 0.0)
    return r.interp(p, it)


def aname(g):
    a = g.pick(["a", "h"])
    return a, Hidden(g.pick([a, r.NAMES.get(a, "harmonic") if a == "a" else "harmonic"]))


def coeffs(g, n):
    """n (prefactor, activation energy) pairs, all different"""
    out = []
    for _ in range(n):
        out.append((g.pos(0.1, 3), g.real(0, 2e4, (0.0,))))
    return out


@spec("C16")
def diffusion_two_phase(g):
    b = g.box()
    phi = g.cell("phi", need=1, kind="wide")
    T = g.cell("temp", need=1, kind="temp")
    it, itn = iname(g)
    av, avn = aname(g)
    (dl, ql), (da, qa) = coeffs(g, 2)
    gr = g.pick([GASR, 1.7])
    D, D2 = g.outside("diff"), g.outside("diff2")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            h = hface(phi, R, d, it, av)
            E.put(D[d], R, (1 - h) * arr(dl, ql, T, R, d, gr) + h * arr(da, qa, T, R, d, gr))

    g.call("concentration_pfmdiffusion",
           [BOX, phi, NG(phi), D, NG(D), T, NG(T), float(dl), float(ql), float(da), float(qa), float(gr), itn, avn], ref)

    def ref2(E):
        for d in range(g.dim):
            R = b.side(d)
            h = hface(phi, R, d, it, av)
            E.put(D2[d], R, (1 - h) * dl + h * da)

    g.call("concentration_pfmdiffusion_scalar",
           [BOX, phi, NG(phi), D2, NG(D2), float(dl), float(da), itn, avn], ref2)


@spec("C16")
def diffusion_per_phase_of_temperature(g):
    """separate liquid and solid coefficients; also wanted on the ghost layers
    along the faces"""
    b = g.box()
    ngd = g.int(0, 2)
    need = max(1, ngd)
    phi = g.cell("phi", need=need, kind="wide")
    T = g.cell("temp", need=need, kind="temp")
    it, itn = iname(g)
    av, avn = aname(g)
    (dl, ql), (da, qa) = coeffs(g, 2)
    gr = g.pick([GASR, 1.7])
    DL, DA = g.outside("diffL", ng=ngd), g.outside("diffA", ng=ngd)

    def ref(E):
        for d in range(g.dim):
            R = b.grow([0 if k == d else ngd for k in range(g.dim)]).side(d)
            h = hface(phi, R, d, it, av)
            E.put(DL[d], R, (1 - h) * arr(dl, ql, T, R, d, gr))
            E.put(DA[d], R, h * arr(da, qa, T, R, d, gr))

    g.call("concentration_pfmdiffusion_of_temperature",
           [BOX, phi, NG(phi), DL, DA, NG(DL), T, NG(T), float(dl), float(ql), float(da), float(qa), float(gr),
            itn, avn], ref)


@spec("C16")
def diffusion_multi_order(g):
    """also wanted on the ghost layers along the faces"""
    b = g.box()
    n = g.int(2, 5)
    ngd = g.int(0, 2)
    need = max(1, ngd)
    phi = g.cell("phi", need=need, comps=(n,), kind="phase")
    T = g.cell("temp", need=need, kind="temp")
    it, itn = iname(g)
    av, avn = aname(g)
    (dl, ql), (da, qa) = coeffs(g, 2)
    gr = g.pick([GASR, 1.7])
    DL, DA = g.outside("diffL", ng=ngd), g.outside("diffA", ng=ngd)

    def ref(E):
        for d in range(g.dim):
            R = b.grow([0 if k == d else ngd for k in range(g.dim)]).side(d)
            E.put(DL[d], R, hface(phi, R, d, it, av, [n - 1]) * arr(dl, ql, T, R, d, gr))
            E.put(DA[d], R, hface(phi, R, d, it, av, range(n - 1)) * arr(da, qa, T, R, d, gr))

    g.call("concentration_pfmdiffusion_of_temperature_multiphases",
           [BOX, phi, n, NG(phi), DL, DA, NG(DL), T, NG(T), float(dl), float(ql), float(da), float(qa), float(gr),
            itn, avn], ref)


@spec("C16")
def diffusion_three_phases(g):
    b = g.box()
    na, nb = g.int(1, 3), g.int(1, 3)
    ngd = g.int(0, 2)
    ng = g.int(max(1, ngd), 3)
    pl = g.cell("phiL", need=max(1, ngd), comps=(1,), kind="phase", ng=ng)
    pa = g.cell("phiA", need=max(1, ngd), comps=(na,), kind="phase", ng=ng)
    pb = g.cell("phiB", need=max(1, ngd), comps=(nb,), kind="phase", ng=ng)
    T = g.cell("temp", need=max(1, ngd), kind="temp")
    it, itn = iname(g)
    av, avn = aname(g)
    co = coeffs(g, 3)
    gr = g.pick([GASR, 1.7])
    D = [g.outside("diff" + x, ng=ngd) for x in "LAB"]
    S, S2 = g.outside("sum"), g.outside("sum2")

    def hs(R, d):
        return [hface(pl, R, d, it, av, [0]), hface(pa, R, d, it, av, range(na)),
                hface(pb, R, d, it, av, range(nb))]

    def ref(E):
        for d in range(g.dim):
            R = b.grow([0 if k == d else ngd for k in range(g.dim)]).side(d)
            for f, h, (dd, qq) in zip(D, hs(R, d), co):
                E.put(f[d], R, h * arr(dd, qq, T, R, d, gr))

    ph = [pl, 1, pa, na, pb, nb, NG(pl)]
    fl = [float(x) for p in co for x in p]
    g.call("concentration_pfmdiffusion_of_temperature_threephases",
           [BOX] + ph + D + [NG(D[0]), T, NG(T)] + fl + [float(gr), itn, avn], ref)

    def ref2(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(S[d], R, sum(h * dd for h, (dd, qq) in zip(hs(R, d), co)))

    g.call("concentration_pfmdiffusion_scalar_3phases",
           [BOX] + ph + [S, NG(S)] + fl[::2] + [itn, avn], ref2)

    def ref3(E):
        for d in range(g.dim):
            R = b.side(d)
            h = hs(R, d)
            E.put(S2[d], R, h[0] * co[0][0] + h[1] * co[1][0])

    g.call("concentration_pfmdiffusion_scalar_2phases",
           [BOX, pl, pa, na, NG(pl), S2, NG(S2), fl[0], fl[2], itn, avn], ref3)


@spec("C16", dims=(2,))
def diffusion_three_phases_total(g):
    b = g.box()
    phi = g.cell("phi", need=1, comps=(3,), kind="phase")
    T = g.cell("temp", need=1, kind="temp")
    it, itn = iname(g)
    av, avn = aname(g)
    co = coeffs(g, 3)
    gr = g.pick([GASR, 1.7])
    D = g.outside("diff")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(D[d], R, sum(hface(phi, R, d, it, av, [k]) * arr(dd, qq, T, R, d, gr)
                               for k, (dd, qq) in enumerate(co)))

    g.call("concentration_pfmdiffusion_threephases",
           [BOX, phi, NG(phi), D, NG(D), T, NG(T)] + [float(x) for p in co for x in p] + [float(gr), itn, avn], ref)


@spec("C16")
def diffusion_beckermann(g):
    """interpolates between liquid and solid diffusivity by the share of the
    solute in each phase"""
    b = g.box()
    phi = g.cell("phi", need=1, kind="wide")
    k = g.cell("k", need=1, kind=(0.05, 2.0))
    it, itn = iname(g, ["q", "p", "h", "l", "m", "c"])
    av, avn = aname(g)
    dl, ds = g.pos(0.1, 3), g.real(0, 3, (0.0,))
    D = g.outside("diff")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            h = hface(phi, R, d, it, av)
            liq = (1 - h) / (1 - h + k(R) * h)
            E.put(D[d], R, liq * dl + (1 - liq) * ds)

    g.call("concentrationdiffusion_beckermann",
           [BOX, phi, NG(phi), D, NG(D), k, NG(k), float(dl), float(ds), itn, avn], ref)


@spec("C16")
def diffusion_coefficients_of_temperature(g):
    b = g.box()
    T = g.cell("temp", need=1, kind="temp")
    co = coeffs(g, 3)
    gr = g.pick([GASR, 1.7])
    three = g.pick([0, 1]) if g.dim == 2 else 0
    ngd = g.int(0, 2)
    D = [g.outside("diff" + x, ng=ngd) for x in "LAB"]

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            for f, (dd, qq) in list(zip(D, co))[:3 if three else 2]:
                E.put(f[d], R, arr(dd, qq, T, R, d, gr))

    fl = [float(x) for p in co for x in p]
    if g.dim == 2:
        a = [BOX] + D + [NG(D[0]), T, NG(T)] + fl + [float(gr), three]
    else:
        a = [BOX] + D[:2] + [NG(D[0]), T, NG(T)] + fl[:4] + [float(gr)]
    g.call("concentration_diffcoeff_of_temperature", a, ref)


def pair_products(pa, pb, na, nb, same, thr=0.01):
    """sum over pairs of distinct order parameters of the bump that is one
    where both are 1/2 and zero below the threshold"""
    f = lambda p: (np.maximum(p - thr, 0.0) / (0.5 - thr)) ** 2
    tot = 0.0
    for i in range(na):
        for j in range(i + 1 if same else 0, nb):
            tot = tot + f(pa(i)) * f(pb(j))
    return tot


@spec("C16")
def interface_diffusion_of_temperature(g):
    """grain-boundary / interface diffusion: every face receives half of the
    enhancement of each of its two cells"""
    b = g.box()
    na, nb = g.int(1, 3), g.int(1, 3)
    same = g.pick([0, 1])
    ngd = g.int(0, 2)
    n = max(1, ngd)
    ng = g.int(n, 3)
    pa = g.cell("phia", need=n, comps=(na,), kind="phase", ng=ng)
    pb = g.cell("phib", need=n, comps=(nb,), kind="phase", ng=ng)
    if same:
        pb, nb = pa, na
    T = g.cell("temp", need=n, kind="temp")
    (d0, q0), = coeffs(g, 1)
    gr = g.pick([GASR, 1.7])
    DA, DB = g.side("diffA", need=ngd, ng=ngd, role="inout"), g.side("diffB", need=ngd, ng=ngd, role="inout")

    def ref(E):
        B = b.grow(n)
        v = 0.5 * d0 * np.exp(-q0 / gr / T(B)) * pair_products(
            lambda i: pa(B, None, i), lambda i: pb(B, None, i), na, nb, same)
        v = v + np.zeros(B.shape)
        for d in range(g.dim):
            # faces of the patch and those beside it, in the ghost layers
            R = b.grow([0 if k == d else ngd for k in range(g.dim)]).side(d)
            cut = [n - 1 if k == d else n - ngd for k in range(g.dim)]
            a = np.moveaxis(v[tuple(slice(c, m - c) for c, m in zip(cut, v.shape))], d, 0)
            s = np.moveaxis(a[:-1] + a[1:], 0, d)
            E.add(DA[d], R, s)
            if not same:
                E.add(DB[d], R, s)

    g.call("ab_diffusion_of_temperature",
           [BOX, pa, na, pb, nb, NG(pa), DA, DB, NG(DA), T, NG(T), float(d0), float(q0), float(gr), same], ref)


@spec("C16")
def interface_diffusion(g):
    b = g.box()
    na, nb = g.int(1, 3), g.int(1, 3)
    same = g.pick([0, 1])
    ng = g.int(1, 3)
    pa = g.cell("phia", need=1, comps=(na,), kind="phase", ng=ng)
    pb = g.cell("phib", need=1, comps=(nb,), kind="phase", ng=ng)
    if same:
        pb, nb = pa, na
    d0 = g.pos(0.1, 3)
    D = g.side("diff", ng=g.int(1, 2), role="inout")

    def ref(E):
        B = b.grow(1)
        v = 0.5 * d0 * pair_products(lambda i: pa(B, None, i), lambda i: pb(B, None, i), na, nb, same) + np.zeros(B.shape)
        for d in range(g.dim):
            put_inner(E, D[d], b, d, E.cur(D[d], b.side(d)) + facesum(v, d))

    g.call("add_ab_diffusion", [BOX, pa, na, pb, nb, NG(pa), D, NG(D), float(d0), same], ref)
    phi = g.cell("phi", need=1, kind="wide")
    D2 = g.side("diff2", ng=g.int(1, 2), role="inout")

    def ref2(E):
        B = b.grow(1)
        v = 0.5 * d0 * (4 * phi(B) * (1 - phi(B))) ** 2
        for d in range(g.dim):
            put_inner(E, D2[d], b, d, E.cur(D2[d], b.side(d)) + facesum(v, d))

    g.call("add_ab_diffusion_single", [BOX, phi, NG(phi), D2, NG(D2), float(d0)], ref2)


# ------------------------------------------------------------------ C17

@spec("C17")
def matrix_diffusion_flux(g):
    b = g.box()
    dx = g.dx()
    n = g.int(1, 3)
    u = g.cell("u", need=1, comps=(n,))
    D = g.side("D", need=0, comps=(n * n,))
    F = g.side("flux", comps=(n,), role="inout")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            for i in range(n):
                E.add(F[d], R, sum(D[d](R, None, i + j * n) * dif(u, R, d, j) for j in range(n)) / dx[d], comp=i)

    g.call("add_flux", [BOX, dx, u, NG(u), n, D, NG(D), F, NG(F)], ref)


@spec("C17")
def isotropic_matrix_diffusion_flux(g):
    """flux averaged over the face and its transverse neighbours"""
    b = g.box()
    dx = g.dx()
    n = g.int(1, 3)
    u = g.cell("u", need=1, comps=(n,))
    D = g.side("D", need=1, comps=(n * n,))
    F = g.side("flux", comps=(n,), role="inout")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            offs = [({}, (10.0 if g.dim == 2 else 8.0) / 12)]
            for t in range(g.dim):
                if t != d:
                    offs += [({t: 1}, 1.0 / 12), ({t: -1}, 1.0 / 12)]
            for i in range(n):
                v = 0.0
                for s, w in offs:
                    lo = dict(s)
                    lo[d] = -1
                    for j in range(n):
                        v = v + w * D[d](R, s, i + j * n) * (u(R, s, j) - u(R, lo, j))
                E.add(F[d], R, v / dx[d], comp=i)

    g.call("add_flux_iso", [BOX, dx, u, NG(u), n, D, NG(D), F, NG(F)], ref)


@spec("C17")
def fourth_order_matrix_diffusion_flux(g):
    b = g.box()
    dx = g.dx()
    n = g.int(1, 3)
    u = g.cell("u", need=2, comps=(n,))
    D = g.side("D", need=0, comps=(n * n,))
    F = g.side("flux", comps=(n,), role="inout")
    phys = np.array([g.pick([0, 1]) for _ in range(2 * g.dim)], dtype=np.int32)

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            for i in range(n):
                v = 0.0
                for j in range(n):
                    one = dif(u, R, d, j)
                    four = 1.25 * one - (u(R, {d: 1}, j) - u(R, {d: -2}, j)) / 12.0
                    sl = [slice(None)] * g.dim
                    for side, at in ((0, 0), (1, -1)):
                        if phys[2 * d + side]:
                            sl[d] = at
                            four[tuple(sl)] = one[tuple(sl)]
                    v = v + D[d](R, None, i + j * n) * four
                E.add(F[d], R, v / dx[d], comp=i)

    g.call("add_flux_4th", [BOX, dx, u, NG(u), n, D, NG(D), F, NG(F), phys], ref, tile=not phys.any())


@spec("C17")
def mixture_composition(g):
    b = g.box()
    phi = g.cell("phi", need=0, kind="wide")
    ng = g.int(0, 2)
    cl, cs = [g.cell(x, need=0, kind="conc", ng=ng) for x in ("cl", "cs")]
    c = g.out("c")
    it, itn = iname(g)

    def ref(E):
        h = r.interp(phi(b), it)
        E.put(c, b, (1 - h) * cl(b) + h * cs(b))

    g.call("compute_concentration_from_phase_concentrations",
           [BOX, phi, NG(phi), cl, cs, NG(cs), c, NG(c), itn], ref)
