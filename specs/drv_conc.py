"""C14-C17, through AMPE's C++ classes: composition fluxes and diffusion
coefficients on whole patch hierarchies of the test doubles."""
import numpy as np
from vf import drv, ref as r
from vf.core import Hidden
from vf.drv import Scene, db
from vf.registry import spec
from vf.t4p import T4P
from .concentration import GASR, arr, coeffs, dif, facedif, facesum, hface, lap, normal, pair_products
from .phase import face_gradient, side_mean

TOL = 1e-11
AV = {"a": "arithmetic", "h": "harmonic"}


def scene(g, **kw):
    kw.setdefault("minsize", 1)
    return Scene(g, "conc", maybe_fine=True, **kw)


def sides(sc):
    for l, p, b in sc.patches():
        for d in range(sc.dim):
            yield l, p, b, d, b.side(d)


def sidevar(sc, name, fill=None, ng=0, depth=1, need=0, **kw):
    return sc.var(name, fill, kind="side", ng=ng, depth=depth, need=need, **kw)


def near(g, got, exp, key, what, tol=TOL, floor=1e-300):
    g.close(got, exp, tol * (np.abs(exp).max() + floor), key, what)


def ids(**kw):
    order = ["conc", "phase", "pfm", "coupl", "T", "cl", "ca", "cb", "dl", "da", "db", "k"]
    return [kw[k].id if k in kw and kw[k] is not None else -1 for k in order]


def pav(a, b, av):
    return r.avg(a, b, av)


@spec("C14", generic=False, kernels=["drv"])
def kks_composition(g):
    """flux = D grad c + D h'(phi) (cl - ca) grad phi"""
    sc = scene(g)
    phi = sc.var("phase", "wide", need=1)
    conc = sc.var("conc", "conc", need=1)
    T = sc.var("temperature", "temp", need=1)
    ngc = g.int(1, 3)
    cl = sc.var("conc_l", "conc", need=1, ng=ngc)
    ca = sc.var("conc_a", "conc", need=1, ng=ngc)
    pfm = sidevar(sc, "pfm")
    coup = sidevar(sc, "coupling")
    fl = sidevar(sc, "flux", "real", ng=g.int(0, 1))
    (dl, ql), (da, qa) = coeffs(g, 2)
    it, av = g.pick("lph"), g.pick("ah")
    h = sc.new("cr_kks", ids(conc=conc, phase=phi, pfm=pfm, coupl=coup, T=T, cl=cl, ca=ca),
               [dl, da, ql, qa], ord(it), AV[av])
    sc.call("cr_setdiff", h, g.real(0, 9), outs=[pfm, coup], key="kks:diffusion")
    sc.call("cr_flux", h, fl, outs=[fl], key="kks:flux")
    for l, p, b, d, R in sides(sc):
        v = lambda x: x.at(p, l)
        hh = hface(v(phi), R, d, it, av)
        D = (1 - hh) * arr(dl, ql, v(T), R, d, GASR) + hh * arr(da, qa, v(T), R, d, GASR)
        near(g, pfm.at(p, l, d)(R), D, "kks:D", "diffusion coefficient, direction %d" % d, 1e-6)
        ph = pav(v(phi)(R, {d: -1}), v(phi)(R), av)
        # h' jumps where the average leaves [0,1] by rounding
        K = pfm.at(p, l, d)(R) * r.dinterp(ph, it) * (side_mean(v(cl), R, d) - side_mean(v(ca), R, d))
        near(g, coup.at(p, l, d)(R), K, "kks:coupling", "phase coupling coefficient, direction %d" % d)
        F = (pfm.at(p, l, d)(R) * dif(v(conc), R, d) + coup.at(p, l, d)(R) * dif(v(phi), R, d)) / sc.dx(l)[d]
        near(g, fl.at(p, l, d)(R), F, "kks:flux", "composition flux, direction %d" % d)


@spec("C14", generic=False, kernels=["drv"])
def beckermann_composition(g):
    sc = scene(g)
    phi = sc.var("phase", "phase", need=1)
    conc = sc.var("conc", "conc", need=1)
    k = sc.var("k", (0.05, 1.0), need=1)
    pfm, coup = sidevar(sc, "pfm"), sidevar(sc, "coupling")
    fl = sidevar(sc, "flux", "real", ng=g.int(0, 1))
    dl, da = g.pos(0.1, 3), g.pos(0.1, 3)
    it, av = g.pick("lph"), g.pick("ah")
    h = sc.new("cr_beckermann", ids(conc=conc, phase=phi, pfm=pfm, coupl=coup, k=k), [dl, da], ord(it), AV[av])
    sc.call("cr_setdiff", h, 0.0, outs=[pfm, coup], key="beckermann:diffusion")
    sc.call("cr_flux", h, fl, outs=[fl], key="beckermann:flux")
    for l, p, b, d, R in sides(sc):
        v = lambda x: x.at(p, l)
        hh = hface(v(phi), R, d, it, av)
        liq = (1 - hh) / (1 - hh + v(k)(R) * hh)
        near(g, pfm.at(p, l, d)(R), liq * dl + (1 - liq) * da, "beckermann:D", "diffusion coefficient, direction %d" % d)
        kk = pav(v(k)(R, {d: -1}), v(k)(R), av)
        cc = pav(v(conc)(R, {d: -1}), v(conc)(R), av)
        near(g, coup.at(p, l, d)(R), pfm.at(p, l, d)(R) * (1 - kk) * cc / (1 - hh + kk * hh), "beckermann:coupling",
             "phase coupling coefficient, direction %d" % d, 1e-10)
        F = (pfm.at(p, l, d)(R) * dif(v(conc), R, d) + coup.at(p, l, d)(R) * dif(v(phi), R, d)) / sc.dx(l)[d]
        near(g, fl.at(p, l, d)(R), F, "beckermann:flux", "composition flux, direction %d" % d)


def closed(sc, l, b, d, e):
    """no flux through physical boundaries"""
    sl = [slice(None)] * sc.dim
    for side, at in ((0, 0), (1, -1)):
        if sc.touches(b, d, side, l):
            sl[d] = at
            e[tuple(sl)] = 0.0
    return e


@spec("C14", generic=False, kernels=["drv"])
def cahn_hilliard_composition(g):
    sc = scene(g)
    conc = sc.var("conc", "wide", need=2)
    fl = sidevar(sc, "flux", "real", ng=g.int(1, 2))
    mo, ca, cb, ka, W = (g.pos(0.1, 2), g.real(0, 0.4), g.real(0.6, 1), g.pos(0.1, 2), g.pos(0.1, 3))
    av = g.pick("ah")
    h = sc.new("cr_ch", ids(conc=conc), [mo, ca, cb, ka, W], AV[av])
    sc.call("cr_flux", h, fl, outs=[fl], interior_only=False, key="ch:flux")
    for l, p, b in sc.patches():
        c, dx = conc.at(p, l), sc.dx(l)
        B = b.grow(1)
        x = c(B)
        mu = 2 * W * (x - ca) * (cb - x) * (cb + ca - 2 * x) - ka * lap(c, B, dx)
        for d in range(sc.dim):
            e = closed(sc, l, b, d, mo * facedif(mu, d) / dx[d])
            g.close(fl.at(p, l, d)(b.side(d)), e, 1e-11 * (mo * np.abs(mu).max() / dx[d] + 1e-300) * 10, "ch:flux",
                    "Cahn-Hilliard flux, direction %d" % d)


@spec("C14", generic=False, kernels=["drv"])
def wang_sintering_composition(g):
    """flux of Wang's sintering model with its own diffusion coefficients"""
    sc = scene(g)
    n = g.int(1, 4)
    conc = sc.var("conc", "phase", need=2)
    phi = sc.var("phase", "phase", need=2, depth=n)
    T = sc.var("temperature", "temp", need=1)
    D = sidevar(sc, "diff", ng=1)
    fl = sidevar(sc, "flux", "real", ng=g.int(1, 2))
    dp = [g.real(0, 3, (0.0, 1.0)), g.real(0, 3, (0.0, 1.0)), g.real(0, 3, (0.0, 1.0)), g.real(0, 3, (0.0, 1.0))]
    mo, A, B_, ka = g.pos(0.1, 2), g.pos(0.1, 3), g.pos(0.1, 3), g.pos(0.1, 2)
    it, av = g.pick("lp"), g.pick("ah")
    hd = sc.new("cd_wang", conc, D, dp, ord(it), AV[av])
    h = sc.new("cr_wang", ids(conc=conc, phase=phi, pfm=D, T=T), hd, [mo, A, B_, ka], AV[av])
    sc.call("cr_setdiff", h, 0.0, outs=[D], interior_only=False, key="wang:diffusion")
    for l, p, b in sc.patches():
        ph, c, dx = phi.at(p, l), conc.at(p, l), sc.dx(l)
        B = b.grow(1)
        e = 0.5 * dp[3] * (pair_products(lambda i: ph(B, None, i), lambda i: ph(B, None, i), n, n, 1)
                           + np.zeros(B.shape)) + 0.5 * dp[2] * (4 * c(B) * (1 - c(B))) ** 2
        for d in range(sc.dim):
            R = b.side(d)
            hh = hface(c, R, d, it, av)
            near(g, D.at(p, l, d)(R), (1 - hh) * dp[0] + hh * dp[1] + facesum(e, d), "wang:D",
                 "diffusion coefficient, direction %d" % d, floor=1.0)
    sc.call("cr_flux", h, fl, outs=[fl], interior_only=False, key="wang:flux")
    for l, p, b in sc.patches():
        ph, c, dx = phi.at(p, l), conc.at(p, l), sc.dx(l)
        B = b.grow(1)
        x = c(B)
        q = ph.data[ph.sl(B)]
        s2, s3 = (q ** 2).sum(-1), (q ** 3).sum(-1)
        mu = 2 * A * x * (1 - x) * (1 - 2 * x) + B_ * (2 * x - 6 * s2 + 4 * s3) - ka * lap(c, B, dx)
        for d in range(sc.dim):
            R = b.side(d)
            e = closed(sc, l, b, d, mo * D.at(p, l, d)(R) * facedif(mu, d) / dx[d])
            g.close(fl.at(p, l, d)(R), e, 1e-10 * (mo * np.abs(mu).max() / dx[d] * np.abs(D.at(p, l, d)(R)).max()
                                                   + 1e-300), "wang:flux", "flux, direction %d" % d)


@spec("C14", generic=False, kernels=["drv"])
def no_flux_boundaries(g):
    """only faces on physical boundaries are set to zero"""
    sc = scene(g)
    conc = sc.var("conc", "wide", need=2)
    fl = sidevar(sc, "flux", "real", ng=g.int(0, 2), depth=g.int(1, 2))
    h = sc.new("cr_ch", ids(conc=conc), [1.0, 0.1, 0.9, 1.0, 1.0], "arithmetic")
    sc.call("cr_zero", h, fl, outs=[fl], interior_only=True, key="noflux")
    for l, p, b, d, R in sides(sc):
        e = closed(sc, l, b, d, sc.before(fl, p, l, d)(R).copy())
        g.check((fl.at(p, l, d)(R) == e).all(), "noflux:faces", "flux at boundary faces, direction %d" % d)
        g.compared += e.size
        g.nontrivial = g.nontrivial or bool((e == 0).any() and (e != 0).any())


def ebs(g, sc, n, type_, third, av, phi, T, norderp, three):
    """EBS strategy on arrays of given diffusion coefficients"""
    need = 2 if type_ == "order4" else 1
    ngc = g.int(need, 3)
    cs = [sc.var("conc_" + x, "conc", need=need, ng=ngc, depth=n) for x in ("l", "a", "b")[:3 if third else 2]]
    ngd = 1 if type_ == "isotropic" else g.int(0, 1)
    Ds = [sidevar(sc, "diff_" + x, "real", ng=ngd, need=ngd, depth=n * n) for x in ("l", "a", "b")[:3 if third else 2]]
    pre = [sidevar(sc, "pre%d" % i, "real") for i in range(n)] if g.bool() else []
    co = [x for p in coeffs(g, 8) for x in p]
    hd = sc.new("cd_tbased", norderp, max(1, norderp - 1), 1, int(three), Ds[0], Ds[1], Ds[2] if third else None, co,
                ord("l"), AV[av])
    kw = dict(phase=phi, T=T, cl=cs[0], ca=cs[1], dl=Ds[0], da=Ds[1])
    if third:
        kw.update(cb=cs[2], db=Ds[2])
    h = sc.new("cr_ebs", ids(**kw), n, hd, len(pre), [v.id for v in pre] or None, AV[av], type_)
    return h, cs, Ds, pre


@spec("C17", generic=False, kernels=["drv"])
def ebs_composition(g):
    sc = scene(g)
    type_ = g.pick(["regular", "isotropic", "order4"])
    g.label(type_)
    third = g.bool()
    n = 1 if third else g.int(1, 2)
    phi = sc.var("phase", "phase", need=1)
    T = sc.var("temperature", "temp", need=1)
    h, cs, Ds, pre = ebs(g, sc, n, type_, third, g.pick("ah"), phi, T, 1, False)
    fl = sidevar(sc, "flux", "real", depth=n, ng=g.int(0, 1))
    sc.call("cr_flux", h, fl, outs=[fl], interior_only=False, key="ebs:flux")
    for l, p, b, d, R in sides(sc):
        dx = sc.dx(l)[d]
        for i in range(n):
            e, s = 0.0, 0.0
            for c, D in zip(cs, Ds):
                u, DD = c.at(p, l), D.at(p, l, d)
                for j in range(n):
                    one = dif(u, R, d, j)
                    M = lambda s=None: DD(R, s, i + j * n)
                    if type_ == "isotropic":
                        v = (10.0 if sc.dim == 2 else 8.0) / 12 * M() * one
                        for t in range(sc.dim):
                            for k in (1, -1):
                                if t != d:
                                    v = v + M({t: k}) * (u(R, {t: k}, j) - u(R, {t: k, d: -1}, j)) / 12.0
                    elif type_ == "order4":
                        v = 1.25 * one - (u(R, {d: 1}, j) - u(R, {d: -2}, j)) / 12.0
                        sl = [slice(None)] * sc.dim
                        for side, at in ((0, 0), (1, -1)):
                            if sc.touches(b, d, side, l):
                                sl[d] = at
                                v[tuple(sl)] = one[tuple(sl)]
                        v = M() * v
                    else:
                        v = M() * one
                    e = e + v / dx
                    s = s + np.abs(v).max() / dx
            g.close(fl.at(p, l, d)(R, None, i if n > 1 else None), e, 1e-11 * (s + 1e-300), "ebs:flux",
                    "flux of component %d, direction %d (%s)" % (i, d, type_))
    if pre:
        sc.call("cr_setdiff", h, 0.0, outs=pre, key="ebs:precond")
        for l, p, b, d, R in sides(sc):
            for i, v in enumerate(pre):
                e = sum(D.at(p, l, d)(R, None, i + i * n) for D in Ds)
                near(g, v.at(p, l, d)(R), e, "ebs:precond", "diagonal diffusion for the preconditioner", floor=1.0)


@spec("C15", generic=False, kernels=["drv"])
def ebs_antitrapping(g):
    sc = scene(g)
    kind = g.pick(["two", "three", "multi"])
    g.label(kind)
    third = kind == "three"
    n = g.int(1, 2) if kind == "two" else 1
    norder = {"two": 1, "three": 3, "multi": g.int(2, 4)}[kind]
    phi = sc.var("phase", "wide", need=1, depth=norder)
    T = sc.var("temperature", "temp", need=1)
    h, cs, Ds, pre = ebs(g, sc, n, "regular", third, "a", phi, T, norder, third)
    dt = sc.var("dphidt", "real", need=1, depth=norder)
    fl = sidevar(sc, "flux", "real", depth=n, ng=g.int(0, 1))
    al = g.real(-2, 2, (0.35,))
    sc.call("cr_anti", h, phi, dt, al, fl, outs=[fl], key="antitrapping:" + kind)
    for l, p, b, d, R in sides(sc):
        dx = sc.dx(l)
        f, t, c = phi.at(p, l), dt.at(p, l), [x.at(p, l) for x in cs]
        for i in range(n):
            skip = np.zeros(R.shape, bool)
            jump = lambda k: side_mean(c[0], R, d, i) - side_mean(c[k], R, d, i)
            if kind == "two":
                nv, ok, edge = normal(face_gradient(f, R, d, dx))
                v = al * nv[d] * jump(1) * side_mean(t, R, d)
                skip |= edge
            elif kind == "three":
                nl, ok, skip = normal(face_gradient(f, R, d, dx, 0))
                v = 0.0
                for k in (1, 2):
                    np_, okp, e = normal(face_gradient(f, R, d, dx, k))
                    skip = skip | e
                    v = v - al * sum(x * y for x, y in zip(nl, np_)) * nl[d] * jump(k) * side_mean(t, R, d, k)
            else:
                nl, ok, skip = normal(face_gradient(f, R, d, dx, norder - 1))
                gs = [sum(x) for x in zip(*[face_gradient(f, R, d, dx, k) for k in range(norder - 1)])]
                _, oks, e = normal(gs)
                m2 = sum(x * x for x in gs)
                noise = 1e-12 * sum(np.abs(x) for k in range(norder - 1) for x in face_gradient(f, R, d, dx, k)) ** 2
                skip = skip | (np.abs(m2 - 1e-16) <= 1e-17 + noise * 1e-10)
                v = np.where(oks, -al * nl[d] * jump(1) * sum(side_mean(t, R, d, k) for k in range(norder - 1)), 0.0)
            cmp_ = i if n > 1 else None
            old = sc.before(fl, p, l, d)(R, None, cmp_)
            got = fl.at(p, l, d)(R, None, cmp_)
            e = old + v
            g.close(np.where(skip, 0, got), np.where(skip, 0, e), 1e-9 * (np.abs(e).max() + 1e-3),
                    "antitrapping:" + kind, "component %d, direction %d" % (i, d))


@spec("C16", generic=False, kernels=["drv"])
def temperature_diffusion(g):
    """TbasedCompositionDiffusionStrategy and ScalarCompositionDiffusionStrategy"""
    sc = scene(g)
    kind = g.pick(["two", "multi", "three", "multi3"])
    scalar = g.bool()
    g.label(kind + (" scalar" if scalar else ""))
    na = g.int(1, 3) if kind in ("multi", "multi3") else 1
    nb = g.int(1, 2) if kind == "multi3" else 1
    norder = {"two": 1, "multi": na + 1, "three": 3, "multi3": na + nb + 1}[kind]
    third = kind in ("three", "multi3")
    ngd = g.int(0, 1)
    phi = sc.var("phase", "wide" if norder == 1 else "phase", need=2, depth=norder)
    T = sc.var("temperature", "temp", need=2)
    depth = g.pick([1, 4]) if not scalar else 1
    it, av = g.pick("lp"), g.pick("ah")
    co = coeffs(g, 8)
    co = [(x, q) if k < 3 or g.bool() else (0.0, q) for k, (x, q) in enumerate(co)]
    # order of the classes: L A B | LA LB AA AB BB
    pairs = {(0, 1): co[3], (0, 2): co[4], (1, 1): co[5], (1, 2): co[6], (2, 2): co[7]}
    Ds = []
    if scalar:
        ngd = 1
        D = sidevar(sc, "diff", ng=ngd)
        p_ = [co[0][0], co[1][0], co[2][0] if third else 0.0] + [x[0] for x in co[3:]]
        h = sc.new("cd_scalar", norder, na, nb, int(kind == "three"), D, p_, ord(it), AV[av])
        Ds = [D]
    else:
        Ds = [sidevar(sc, "diff_" + x, ng=ngd, depth=depth) for x in ("l", "a", "b")[:3 if third else 2]]
        h = sc.new("cd_tbased", norder, na, nb, int(kind == "three"), Ds[0], Ds[1], Ds[2] if third else None,
                   [x for q in co for x in q], ord(it), AV[av])
    sc.call("cd_set", h, T, phi, outs=Ds, interior_only=False, key="diffusion:" + kind)
    if kind == "two":
        groups = None
    elif kind == "three":
        groups = [[0], [1], [2]]
    else:
        groups = [[norder - 1], list(range(na))] + ([list(range(na, na + nb))] if third else [])
    nph = 3 if third else 2
    for l, p, b in sc.patches():
        f, t = phi.at(p, l), T.at(p, l)
        B = b.grow(1)
        enh = {}
        if groups:
            for (i, j), (d0, q0) in pairs.items():
                if j >= nph or d0 <= 0:
                    continue
                A, Bb = groups[j], groups[i]
                v = pair_products(lambda k: f(B, None, A[k]), lambda k: f(B, None, Bb[k]), len(A), len(Bb), i == j)
                v = 0.5 * d0 * (v + np.zeros(B.shape))
                enh[i, j] = v if scalar else v * np.exp(-q0 / GASR / t(B))
        for d in range(sc.dim):
            R = b.side(d)
            if groups:
                hs = [hface(f, R, d, it, av, x) for x in groups]
            else:
                hh = hface(f, R, d, it, av)
                hs = [1 - hh, hh]
            if scalar:
                es = [sum(x * co[k][0] for k, x in enumerate(hs)) + sum((facesum(v, d) for v in enh.values()), 0.0)]
            else:
                es = [x * arr(co[k][0], co[k][1], t, R, d, GASR) for k, x in enumerate(hs)]
                for (i, j), v in enh.items():
                    es[i] = es[i] + facesum(v, d)
                    if i != j:
                        es[j] = es[j] + facesum(v, d)
            for k, (D, e) in enumerate(zip(Ds, es)):
                got = D.at(p, l, d)
                for cmp_ in ([None] if depth == 1 else [0, 3]):
                    near(g, got(R, None, cmp_), e, "diffusion:" + kind,
                         "coefficient %d, direction %d" % (k, d), 1e-6, floor=1e-12)


class Mobility:
    """CALPHAD atomic mobilities: random parameters, text of the database and
    the Darken interdiffusion mobilities"""
    PH = "LAB"

    def __init__(self, g, ns, phases):
        self.ns = ns
        rng = g.rng()
        self.q, text = {}, {}
        pairs = [(0, 1)] if ns == 2 else [(0, 1), (0, 2), (1, 2)]
        for s in range(ns):
            text["Species%d" % s] = {}
            for ph in range(phases):
                d, t = {}, {}
                ex = bool(rng.random() < 0.4)
                for k in range(ns):
                    v = [float(-rng.uniform(5e3, 3e4)), float(10 ** rng.uniform(-9, -7))]
                    if ex:
                        v += [float(rng.uniform(-5, 5)), float(rng.uniform(-1e5, 1e5))]
                    d["q", k] = v
                    t["q" + "ABC"[k]] = v
                for o in range(4):
                    for i, j in pairs:
                        if rng.random() < 0.6:
                            v = [float(rng.uniform(-1e4, 1e4)), float(10 ** rng.uniform(-1, 1))]
                            d["qq", o, i, j] = v
                            t["q%d%s%s" % (o, "ABC"[i], "ABC"[j])] = v
                self.q[s, ph] = d
                text["Species%d" % s]["Phase" + self.PH[ph]] = t
        self.text = db({"MobilityParameters": text})

    def atomic(self, s, ph, c, T):
        d = self.q[s, ph]
        ev = lambda v: v[0] + GASR * T * np.log(v[1]) + (v[2] * T * np.log(T) + v[3] / T if len(v) > 2 else 0.0)
        G = sum(c[k] * ev(d["q", k]) for k in range(self.ns))
        for key, v in d.items():
            if key[0] == "qq":
                _, o, i, j = key
                if self.ns == 3 and o > 1:
                    continue          # the ternary model stops at first order
                G = G + c[i] * c[j] * (c[i] - c[j]) ** o * ev(v)
        return np.exp(G / (GASR * T)) / (GASR * T)

    def matrix(self, ph, c, T):
        """c (...,nc) -> (...,nc,nc), in um^2 mol / s J"""
        c = [c[..., k] for k in range(self.ns - 1)]
        c = c + [1 - sum(c)]
        m = [self.atomic(s, ph, c, T) for s in range(self.ns)]
        n = self.ns - 1
        out = np.zeros(np.shape(T) + (n, n))
        for i in range(n):
            for j in range(n):
                out[..., i, j] = 1e12 * sum(((i == k) - c[i]) * ((j == k) - c[j]) * c[k] * m[k] for k in range(self.ns))
        return out


@spec("C16", generic=False, kernels=["drv"])
def calphad_mobility(g):
    """the mobility matrix is symmetric, positive semi-definite and the Darken
    combination of the atomic mobilities"""
    sc = Scene(g, "conc", minsize=2, maxsize=2, maxpatch=1)
    nc = g.int(1, 2)
    third = bool(nc == 1 and g.bool())
    cl, ca = sc.var("cl", depth=nc), sc.var("ca", depth=nc)
    M = Mobility(g, nc + 1, 3 if third else 2)
    sc.so.cd_file(drv.carg("calphad.dat"), drv.carg(M.text))
    h = sc.new("cd_mobility", nc, int(third), db({"filename": "calphad.dat"}), [1e-5] * 3, cl, ca, None, None, None,
               None, ord("l"), "arithmetic")
    for _ in range(3):
        T = g.real(400, 1800)
        x = np.array([g.real(0.0, 1.0, (0.0, 1.0)) for _ in range(nc + 1)]) + 1e-9
        x = x / x.sum() * (1 - 1e-12)
        for ph in range(3 if third else 2):
            out = np.zeros(nc * nc)
            b = g.bool() if nc == 1 else 0
            rc = sc.so.cd_mob(h, ph, nc, drv.carg(np.ascontiguousarray(x[:nc])), drv.D(T), drv.carg(out), int(b))
            g.check(rc == 0, "mobility:error", sc.lib.error())
            e = M.matrix(ph, x[None, :nc], np.array([T]))[0]
            xs = list(x[:nc]) + [1 - x[:nc].sum()]
            big = 1e12 * max(M.atomic(s, ph, xs, T) for s in range(nc + 1))      # cancellation in 1 - c
            g.close(out.reshape(nc, nc), e, 1e-9 * np.abs(e).max() + 1e-14 * big, "mobility:phase%d" % ph,
                    "mobility matrix")
            g.check(np.linalg.eigvalsh(out.reshape(nc, nc)).min() >= -1e-12 * np.abs(out).max() - 1e-14 * big,
                    "mobility:psd",
                    "mobility matrix is not positive semi-definite")


@spec("C16", generic=False, kernels=["drv"])
def mobility_diffusion(g):
    """D = M d2f in each phase, weighted with the interpolated phase fraction"""
    sc = scene(g, maxsize=5 if g.dim == 2 else 3)
    nc = g.int(1, 2)
    ngc = g.int(1, 3)
    rng = g.rng()

    def comps(R, l, part):
        x = rng.uniform(0.05, 1.0, R.shape + (nc + 1,))
        return (x / x.sum(-1, keepdims=True))[..., :nc]

    # one field per level shared by the patches: fill() calls once per level
    cl = sc.var("conc_l", need=1, ng=ngc, depth=nc, values=comps)
    ca = sc.var("conc_a", need=1, ng=ngc, depth=nc, values=comps)
    T = sc.var("temperature", "temp", need=1)
    phi = sc.var("phase", "wide", need=1)
    ngd, ngp = g.int(0, 1), g.int(0, 1)
    pl, pa = [sidevar(sc, "pfm_" + x, ng=ngp, depth=nc * nc) for x in "la"]
    dl, da = [sidevar(sc, "d_" + x, ng=ngd, depth=nc * nc) for x in "la"]
    th = T4P(g, nc)
    th.send(sc)
    M = Mobility(g, nc + 1, 2)
    sc.so.cd_file(drv.carg("calphad.dat"), drv.carg(M.text))
    it, av = g.pick("lp"), g.pick("ah")
    h = sc.new("cd_mobility", nc, 0, db({"filename": "calphad.dat"}), [1e-5, 2e-5, 3e-5], cl, ca, pl, pa, dl, da,
               ord(it), AV[av])
    sc.call("cd_set", h, T, phi, outs=[pl, pa, dl, da], key="mobility:diffusion")
    for l, p, b, d, R in sides(sc):
        hh = hface(phi.at(p, l), R, d, it, av)
        t = side_mean(T.at(p, l), R, d)
        for ph, (c, D, P, w) in enumerate(((cl, dl, pl, 1 - hh), (ca, da, pa, hh))):
            cc = np.stack([side_mean(c.at(p, l), R, d, k) for k in range(nc)], -1)
            E = np.einsum("...ik,...kj->...ij", M.matrix(ph, cc, t), th.d2f(ph, cc, t))
            for i in range(nc):
                for j in range(nc):
                    cmp_ = i + j * nc
                    s = 1e-9 * (np.abs(E).max() + 1e-300)
                    g.close(D.at(p, l, d)(R, None, cmp_), E[..., i, j], s, "mobility:D",
                            "diffusion matrix entry %d,%d of phase %d, direction %d" % (i, j, ph, d))
                    g.close(P.at(p, l, d)(R, None, cmp_), w * E[..., i, j], s, "mobility:pfm",
                            "weighted diffusion matrix entry %d,%d of phase %d, direction %d" % (i, j, ph, d))


@spec("C14", generic=False, kernels=["drv"])
def grain_advection(g):
    """every grain is advected with mobility/volume times its force"""
    sc = scene(g)
    n = g.int(1, 4)
    kind = g.int(0, 1)
    g.label("conc" if kind else "phase")
    phi = sc.var("phase", (0.02, 1.0), need=1, depth=n + 1)
    w = sc.var("weight", (0.1, 1.0), need=0)
    rhs = sc.var("rhs", "real", need=0, depth=1 if kind else n + 1)
    mo = g.pos(0.1, 3)
    F = g.rng().uniform(-2, 2, (n, sc.dim))
    sc.call("rb_motion", kind, phi, w, mo, rhs, n, np.ascontiguousarray(F), outs=[rhs], key="rbmotion")
    vol = np.zeros(n)
    for l, p, b in sc.patches():
        for i in range(n):
            vol[i] += (phi.at(p, l)(b, None, i) * w.at(p, l)(b)).sum()
    for l, p, b in sc.patches():
        f, dx = phi.at(p, l), sc.dx(l)
        adv = [-sum(mo / vol[i] * F[i, d] * (f(b, {d: 1}, i) - f(b, {d: -1}, i)) / (2 * dx[d]) for d in range(sc.dim))
               for i in range(n)]
        old = sc.before(rhs, p, l)
        if kind:
            e = old(b) + sum(adv)
            g.close(rhs.at(p, l)(b), e, 1e-10 * (np.abs(e).max() + max(np.abs(a).max() for a in adv)),
                    "rbmotion:conc", "advection")
        else:
            for i in range(n + 1):
                e = old(b, None, i) + (adv[i] if i < n else 0.0)
                g.close(rhs.at(p, l)(b, None, i), e, 1e-10 * np.abs(e).max() + 1e-14, "rbmotion:phase",
                        "advection of grain %d" % i)


drv.prepare("conc", "kks_composition", "beckermann_composition", "cahn_hilliard_composition",
            "wang_sintering_composition", "no_flux_boundaries", "ebs_composition", "ebs_antitrapping",
            "temperature_diffusion", "calphad_mobility", "mobility_diffusion", "grain_advection")
