"""Rigid-body forces between grains and rigid-body advection."""
import numpy as np
from vf import ref as r
from vf.core import BOX, NG
from vf.registry import spec


def cgrad(f, b, dx, d, comp=None):
    return (f(b, {d: 1}, comp) - f(b, {d: -1}, comp)) / (2 * dx[d])


@spec("C20")
def phase_pair_forces(g):
    """force of grain j on grain i: integral of gamma m / 2 * phi_i^2 grad(phi_j^2)"""
    b = g.box()
    dx = g.dx()
    dim = g.dim
    n = g.int(1, 5)
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    w = g.cell("weight", ng=0, kind="pos")
    ga, m = g.pos(0.2, 3), g.pos(0.2, 3)
    F = g.rng().uniform(-1, 1, dim * n * n)
    f0 = F.copy()

    def ref(E):
        e = f0.copy().reshape(n, n, dim)
        sc = 0.0
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                for d in range(dim):
                    v = ga * m * phi(b, None, i) ** 2 * phi(b, None, j) * cgrad(phi, b, dx, d, j) * w(b)
                    e[i, j, d] += v.sum()
                    sc += np.abs(v).sum()
        E.scalar(F, e.reshape(-1), sc)
        E.sum_scale = sc

    g.call("phiphi_forces", [BOX, dx, phi, NG(phi), n, float(ga), float(m), w, F], ref, sums=[F])


@spec("C20")
def wang_pair_forces(g):
    """stiffness-free force (rho - rho_e) c(phi_i phi_j) (grad phi_i - grad phi_j),
    opposite for the two grains of a pair"""
    b = g.box()
    dx = g.dx()
    dim = g.dim
    n, nc = g.int(1, 5), g.int(1, 3)
    phi = g.cell("phi", need=1, comps=(n,), kind="wide")
    c = g.cell("conc", need=0, comps=(nc,), kind="conc")
    w = g.cell("weight", ng=0, kind="pos")
    re, th = g.real(0.5, 1.2, (1.0,)), g.real(0.01, 0.3, (0.14,))
    F = g.rng().uniform(-1, 1, dim * n * n) * g.pick([1, 0])
    f0 = F.copy()

    def ref(E):
        e = f0.copy().reshape(n, n, dim)
        sc = 0.0
        rho = np.minimum(c(b).sum(-1), 1.0)
        for i in range(n):
            for j in range(i):
                pp = 0.5 + 10 * (phi(b, None, i) * phi(b, None, j) - th)
                h = r.interp(pp, "p")
                for d in range(dim):
                    v = (rho - re) * h * (cgrad(phi, b, dx, d, i) - cgrad(phi, b, dx, d, j)) * w(b)
                    e[i, j, d] += v.sum()
                    e[j, i, d] -= v.sum()
                    sc += np.abs(v).sum()
        E.scalar(F, e.reshape(-1), sc)
        E.sum_scale = sc

    g.call("wang_forces",
           [BOX, dx, phi, NG(phi), n, c, NG(c), nc, float(re), float(th), w, F], ref, sums=[F])
    dF = (F - f0).reshape(n, n, dim)
    g.close(dF, -np.transpose(dF, (1, 0, 2)), 1e-9 * (1 + np.abs(F).max()), "forces:action-reaction")


@spec("C20")
def rigid_body_advection(g):
    b = g.box()
    dx = g.dx()
    v = np.array([g.real(-3, 3, (0.0, 1.0)) for _ in range(g.dim)])
    phi = g.cell("phi", need=1, kind="wide")
    rhs = g.cell("rhs", need=0, role="inout")

    def ref(E):
        E.add(rhs, b, -sum(v[d] * cgrad(phi, b, dx, d) for d in range(g.dim)))

    g.call("addrbmotion", [BOX, dx, phi, NG(phi), v, rhs, NG(rhs)], ref)
