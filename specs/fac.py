"""Elliptic composite-grid (FAC) operators: flux, residual, smoothing,
coarse-fine flux correction, and the helpers around them."""
import itertools
import numpy as np
from vf import ref as r
from vf.core import BOX, NG, NGS, Hidden, Region
from vf.registry import spec
from specs.phase import div


def checker(R, parity):
    ix = np.indices(R.shape).sum(0) + sum(R.lo)
    return (ix % 2) == parity


def sfx(g):
    return "%dd" % g.dim


def coef(g, variable, need=0):
    """face diffusion coefficient: field or constant"""
    if variable:
        return g.side("dc", need=need, kind="pos")
    return g.pos(0.2, 3)


def cval(D, R, d, shift=None):
    return D[d](R, shift) if isinstance(D, list) else D


def scal(g, variable, kind=(-3.0, 0.0)):
    return g.cell("sf", need=0, kind=kind) if variable else g.pick([0.0, -1.0, -2.5])


def sval(s, R):
    return s(R) if hasattr(s, "region") else s


def carg(D):
    return D + [NGS(D)] if isinstance(D, list) else [float(D)]


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += x if not (x and hasattr(x[0], "region")) else [x]
        else:
            out.append(x)
    return out


@spec("C23")
def elliptic_flux(g):
    b = g.box()
    dx = g.dx()
    F = g.outside("flux")
    D = g.side("dc", kind="real")
    u = g.cell("soln", need=1, kind="real")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(F[d], R, D[d](R) * (u(R) - u(R, {d: -1})) / dx[d])

    g.call("efo_compfluxvardc" + sfx(g), [F, NGS(F), D, NGS(D), u, NGS(u), BOX, dx], ref)


@spec("C23", weight=1.3)
def elliptic_residual(g):
    """rhs - (m div flux + c u), and the accumulating form"""
    b = g.box()
    dx = g.dx()
    F = g.side("flux", kind="real")
    rhs = g.cell("rhs", need=0, kind="real")
    var = g.bool()
    s = scal(g, var, (-3.0, 3.0))
    m = g.cell("m", need=0, kind="real")
    u = g.cell("soln", need=0, kind="real")
    accum = g.bool()

    def op():
        return m(b) * div(F, b, dx) + sval(s, b) * u(b)

    sa = [s, NGS(s)] if var else [float(s)]
    tail = sa + [m, NGS(m), u, NGS(u), BOX, dx]
    sc = "vars" if var else "cons"
    if accum:
        acc = g.cell("accum", need=0, role="inout")
        g.call("accumop%sca" % sc + sfx(g), [F, NGS(F), acc, NGS(acc)] + tail,
               lambda E: E.add(acc, b, -op()))
    else:
        res = g.out("residual")
        g.call("efo_compres%sca" % sc + sfx(g), [F, NGS(F), rhs, NGS(rhs), res, NGS(res)] + tail,
               lambda E: E.put(res, b, rhs(b) - op()))


def smoother_name(vd, vs, dim):
    return "efo_rbgswithfluxmax%sdc%ssf%dd" % ("var" if vd else "con", "var" if vs else "con", dim)


def smoother_args(F, D, rhs, s, m, u, dx, off, mx):
    sa = [s, NGS(s)] if hasattr(s, "region") else [float(s)]
    da = [D, NGS(D)] if isinstance(D, list) else [float(D)]
    return [F, NGS(F)] + da + [rhs, NGS(rhs)] + sa + [m, NGS(m), u, NGS(u), BOX, dx, off, mx]


@spec("C23", weight=1.5, generic="mem")
def elliptic_relaxation(g):
    """a coloured sweep corrects every second cell, checkerboard-wise, by
    residual over diagonal; both sweeps together reach every cell; the largest
    residual met is reported"""
    b = g.box()
    dx = g.dx()
    vd, vs = g.bool(), g.bool()
    F = g.side("flux", kind="real")
    D = coef(g, vd)
    rhs = g.cell("rhs", need=0, kind="real")
    s = scal(g, vs)
    m = g.cell("m", need=0, kind="pos")
    u = g.cell("soln", need=0, kind="real", role="inout")
    name = smoother_name(vd, vs, g.dim)
    mx = np.full(1, g.pick([0.0, 77.0]))
    first = g.int(0, 1)
    done = np.zeros(b.shape, bool)
    for off in (first, 1 - first):
        u0 = u.data[u.sl(b)].copy()

        def ref(E):
            E.put(u, b, u0, care=False)
            E.rawexp[id(mx)] = mx.copy()
            E.rawtol[id(mx)] = np.inf

        g.call(name, smoother_args(F, D, rhs, s, m, u, dx, off, mx), ref, tile=False)
        if g.mode != "ref":
            continue
        res = rhs(b) - m(b) * div(F, b, dx) - sval(s, b) * u0
        diag = m(b) * sum((cval(D, b, d, {d: 1}) + cval(D, b, d)) / dx[d] ** 2 for d in range(g.dim)) - sval(s, b)
        new = u0 - res / diag
        got = u.data[u.sl(b)]
        sc = 1e-11 * (np.abs(u0) + np.abs(res / diag) + np.abs(u0).max() + np.abs(new).max() + 1e-300)
        hit = []
        for par in (0, 1):
            c = checker(b, par)
            e = np.where(c, new, u0)
            if (np.abs(got - e) <= sc).all():
                hit.append(c)
        if not hit:
            # report against the nearer colouring
            c = min((checker(b, p) for p in (0, 1)),
                    key=lambda c: (~(np.abs(got - np.where(c, new, u0)) <= sc)).sum())
            g.close(got, np.where(c, new, u0), sc, name, "offset %d" % off)
            return
        g.compared += got.size
        moved = got.view(np.uint64) != u0.view(np.uint64)
        g.check(not (moved & done).any(), name + ":colours", "cells relaxed by both colours")
        done |= moved
        c = hit[0] if len(hit) == 1 else None
        if c is not None:
            e = np.abs(res[c]).max() if c.any() else 0.0
            g.close(mx[0], e, 1e-11 * (e + np.abs(rhs(b)).max() + np.abs(res).max()), name + ":maxres")
    if g.mode == "ref" and np.abs(res).max() > 1e-3:
        g.check(bool(done.all()) or (np.abs(res[~done] / diag[~done]) < 1e-12 * (1 + np.abs(u0[~done]))).all()
                , name + ":coverage", "cells never relaxed")


@spec("C23", generic=False, weight=1.2)
def relaxation_solves_locally(g):
    """flux, sweep, flux, residual: the equation holds exactly at the swept
    cells, and the exact discrete solution is left alone"""
    b = g.box()
    dx = g.dx()
    vd, vs = True, g.bool()
    F = g.outside("flux")
    D = coef(g, vd)
    s = scal(g, vs)
    m = g.cell("m", need=0, kind="pos")
    u = g.cell("soln", need=1, kind="real", role="inout")
    rhs = g.cell("rhs", need=0, kind="real")
    res = g.out("residual")
    solved = g.bool()
    ign = lambda *fs: (lambda E: [E.put(f, b if f.side is None else b.side(f.side), 0, care=False) for f in fs])
    mx = np.zeros(1)
    n = sfx(g)

    def flux():
        g.call("efo_compfluxvardc" + n, [F, NGS(F), D, NGS(D), u, NGS(u), BOX, dx], ign(*F), tile=False)

    def residual():
        sa = [s, NGS(s)] if vs else [float(s)]
        g.call("efo_compres%sca" % ("vars" if vs else "cons") + n,
               [F, NGS(F), rhs, NGS(rhs), res, NGS(res)] + sa + [m, NGS(m), u, NGS(u), BOX, dx],
               ign(res), tile=False)
        return res.data[res.sl(b)].copy()

    flux()
    if solved:
        rhs.data[...] = 0.0
        rhs.data[rhs.sl(b)] = -residual()
        rhs.read = rhs.data
        g.label("starts from the solution")
    u0 = u.data[u.sl(b)].copy()
    off = g.int(0, 1)

    def sref(E):
        E.put(u, b, 0, care=False)
        E.rawexp[id(mx)] = mx.copy()
        E.rawtol[id(mx)] = np.inf

    g.call(smoother_name(vd, vs, g.dim), smoother_args(F, D, rhs, s, m, u, dx, off, mx), sref, tile=False)
    flux()
    R = np.abs(residual())
    scale = (np.abs(rhs(b)) + np.abs(sval(s, b) * u(b)) + m(b) * sum(
        (np.abs(F[d](b, {d: 1})) + np.abs(F[d](b)) + (D[d](b, {d: 1}) + D[d](b)) * np.abs(u(b)) / dx[d]) / dx[d]
        for d in range(g.dim))).max()
    if solved:
        g.close(u.data[u.sl(b)], u0, 1e-10 * (1 + np.abs(u0).max()) * (1 + scale), "relaxation:fixed-point")
        return
    e = [np.where(checker(b, p), R, 0.0).max() for p in (0, 1)]
    g.close(min(e), 0.0, 1e-10 * scale, "relaxation:solves-locally")
    g.nontrivial = True


@spec("C23", weight=1.3, generic="mem")
def coarse_fine_flux(g):
    """Ewing's correction: at a coarse-fine boundary the flux becomes
    (2 F + D (u_opposite - u)/h) / (1 + ratio) on exactly the faces of the
    boundary box that touch the patch"""
    dim = g.dim
    rr = [g.int(2, 3) for _ in range(dim)] if g.bool() else [2] * dim
    nc = [g.int(1, 3 if dim == 2 else 2) for _ in range(dim)]
    lo = [r_ * g.int(-2, 3) for r_ in rr]
    b = Region(lo, [l + r_ * n - 1 for l, r_, n in zip(lo, rr, nc)])
    g._box = b
    dx = g.dx()
    vd = g.bool()
    F = g.side("flux", role="inout")
    D = coef(g, vd)
    u = g.cell("soln", need=0)
    d, up = g.int(0, dim - 1), g.int(0, 1)
    loc = 2 * d + up
    blo, bhi = list(b.lo), list(b.hi)
    for e in range(dim):
        if e == d:
            blo[e] = bhi[e] = (b.hi[e] + 1 if up else b.lo[e] - 1)
        else:
            a = g.int(-1, nc[e] - 1)
            z = g.int(a + 1, nc[e] + 1)
            blo[e], bhi[e] = b.lo[e] + a * rr[e], b.lo[e] + z * rr[e] - 1

    def ref(E):
        lo, hi = list(b.lo), list(b.hi)
        for e in range(dim):
            if e != d:
                lo[e], hi[e] = max(blo[e], b.lo[e]), min(bhi[e], b.hi[e])
            else:
                lo[e] = hi[e] = b.hi[e] if up else b.lo[e]
        if any(l > h for l, h in zip(lo, hi)):
            return
        C = Region(lo, hi)
        FR = C.shift([int(e == d and up) for e in range(dim)])
        U = u(C)
        V = U
        for e in range(dim):
            if e != d:
                sh = V.shape
                V = V.reshape(sh[:e] + (sh[e] // rr[e], rr[e]) + sh[e + 1:])
                V = np.flip(V, e + 1).reshape(sh)
        sg = -1.0 if up else 1.0
        t = 1.0 / (1 + rr[d])
        E.put(F[d], FR, 2 * t * F[d](FR) + sg * t * cval(D, FR, d) * (V - U) / dx[d])
        # the weights are single precision constants
        E.slack[id(F[d])] = 1e-7 * (np.abs(F[d](FR)) + cval(D, FR, d) * (np.abs(V) + np.abs(U)) / dx[d]).max()

    da = [D, NGS(D)] if vd else [float(D)]
    g.call("efo_ewingfixflux%sdc%dd" % ("var" if vd else "con", dim),
           [F, NGS(F)] + da + [u, NGS(u), BOX, loc, np.array(rr, np.int32), np.array(blo, np.int32),
                               np.array(bhi, np.int32), dx], ref, tile=False)


@spec("C23")
def implicit_phase_coefficient(g):
    """1 + factor * mobility * w''(phi)"""
    b = g.box()
    u = g.cell("soln", need=0, kind="phase")
    mob = g.cell("mobility", ng=0, kind="pos")
    c = g.out("cval", ng=0)
    f = g.real(0, 3, (0.0, 1.0))
    w = g.pick(["d", "s"])
    g.call("setc" + sfx(g), [u, NGS(u), mob, float(f), c, BOX, Hidden(g.pick([w, {"d": "double", "s": "single"}[w]]))],
           lambda E: E.put(c, b, 1 + f * mob(b) * r.d2well(u(b), w)))


@spec("C23", weight=0.7)
def offdiagonal_scaling(g):
    """the off-diagonal of a face is multiplied by sqrt(m) of both its cells"""
    b = g.box()
    o = g.side("offdiag", role="inout")
    s = g.cell("sqrtm", need=1, kind="pos")

    def ref(E):
        for d in range(g.dim):
            R = b.side(d)
            E.put(o[d], R, o[d](R) * s(R) * s(R, {d: -1}))

    g.call("multiplyoffdiagbym", [BOX, o, NG(o), s, NG(s)], ref)


@spec("C23", weight=0.4, generic="mem")
def manufactured_solution(g):
    """1 + prod sin(pi x) and 5 u - Laplacian u at the cell centres"""
    b = g.box()
    dx = g.dx()
    xlo = np.array([g.real(-2, 2) for _ in range(g.dim)])
    ex = g.out("exact", ng=1)
    rhs = g.out("rhs", ng=0)

    def ref(E):
        p = 1.0
        for d, i in enumerate(np.indices(b.shape)):
            p = p * np.sin(np.pi * (xlo[d] + dx[d] * (i + 0.5)))
        E.put(ex, b, 1 + p)
        E.put(rhs, b, 5 * (1 + p) + g.dim * np.pi ** 2 * p)
        E.slack[id(ex)] = E.slack[id(rhs)] = 1e-4

    g.call("setexactandrhs" + sfx(g), [BOX, ex, rhs, dx, xlo], ref, tile=False)
