"""The documented evolution equations of the generated models, on whole grids:
time derivatives and energies of given states, written independently of AMPE."""
import numpy as np
from . import quat
from .models import MV

R = 8.314472


def wrap(m, a, field, n=1):
    """a: [x, y(, z)] with n ghost layers: periodic images, or the boundary
    condition of the field (slope s: outward derivative, value v: linear
    extrapolation through v on the boundary)"""
    d = m.dim
    for i in range(d):
        a = np.moveaxis(a, i, 0)
        if m.per[i]:
            a = np.concatenate([a[-n:], a, a[:n]])
        else:
            none = ["value", "0"] if field == "zero" else ["slope", "0"]
            lo, hi = [m.bc.get(field, {}).get(2 * i + e, none) for e in (0, 1)]

            def ghost(u, bc):
                v = float(bc[1])
                if field == "Temperature" and m.rescaled:
                    v = v / m.mp["Temperature"]["meltingT"]
                return u + v * m.dx[i] if bc[0] == "slope" else 2 * v - u
            a = np.concatenate([ghost(a[:1], lo)] * n + [a] + [ghost(a[-1:], hi)] * n)
        a = np.moveaxis(a, 0, i)
    return a


def inner(m, a, n=1):
    return a[tuple(slice(n, -n) for _ in range(m.dim))]


def faces(m, g, fn, i):
    """fn(lower, upper) on every face normal to i, from g with one ghost layer"""
    s = [slice(1, -1)] * m.dim
    lo, hi = list(s), list(s)
    lo[i], hi[i] = slice(0, -1), slice(1, None)
    return fn(g[tuple(lo)], g[tuple(hi)])


def wide(m, g, fn, i):
    """fn(lower, upper) on the faces normal to i of an array with ghosts"""
    g = np.moveaxis(g, i, 0)
    return np.moveaxis(fn(g[:-1], g[1:]), 0, i)


def core(m, f, i, ng=2):
    """the faces of the domain among those of an array with ng ghost layers"""
    s = [slice(ng, -ng)] * m.dim
    s[i] = slice(ng - 1, -(ng - 1) or None)
    return f[tuple(s)]


def lower(a, i):
    """of face values: those on the lower faces of the cells"""
    return np.moveaxis(np.moveaxis(a, i, 0)[:-1], 0, i)


def upper(a, i):
    return np.moveaxis(np.moveaxis(a, i, 0)[1:], 0, i)


def ddx(m, i):
    return lambda a, b: (b - a) / m.dx[i]


def avg(kind):
    if kind[0] == "h":
        return lambda a, b: np.where(np.minimum(a, b) < 1e-16, 0.0, 2 / (1 / np.maximum(a, 1e-300) + 1 / np.maximum(b, 1e-300)))
    return lambda a, b: 0.5 * (a + b)


def div(m, F):
    return sum(np.diff(f, axis=i) / m.dx[i] for i, f in enumerate(F))


def lap(m, g):
    return div(m, [faces(m, g, ddx(m, i), i) for i in range(m.dim)])


def h(kind, p):
    q = np.clip(p, 0.0, 1.0)
    k = kind[0]
    return q ** 3 * (10 - 15 * q + 6 * q * q) if k == "p" else q * q * (3 - 2 * q) if k == "h" else q


def dh(kind, p):
    q = np.clip(p, 0.0, 1.0)
    k = kind[0]
    if k == "l":
        return np.where((p >= 0) & (p <= 1), 1.0, 0.0)
    return 30 * q * q * (1 - q) ** 2 if k == "p" else 6 * q * (1 - q)


def well(p):
    return 16 * p * p * (1 - p) ** 2


def dwell(p):
    return 32 * p * (1 - p) * (1 - 2 * p)


def third(p):
    """derivative of the sum of double wells, constrained to a constant sum"""
    w = 0.5 * dwell(p) * 2
    return w - w.mean(-1, keepdims=True)



def sumrest(p):
    """sum of the squares of the other order parameters"""
    q = p ** 2
    return q.sum(-1, keepdims=True) - q


def kks(q, T, mv, hs, c):
    """phase compositions (liquid, solid) of equal chemical potential that mix
    to c, for E_p = A_p (c_p - ceq_p)^2, the two energies and the potential"""
    k = 1e-6 / mv
    AL, AS = q["A_liquid"] * k, q["A_solid"] * k
    cL = q["Ceq_liquid"] + (T - q["T_ref"]) * q["m_liquid"]
    cS = q["Ceq_solid"] + (T - q["T_ref"]) * q["m_solid"]
    d = (c - (1 - hs) * cL - hs * cS) / ((1 - hs) / AL + hs / AS)
    xL, xS = cL + d / AL, cS + d / AS
    return xL, xS, AL * (xL - cL) ** 2, AS * (xS - cS) ** 2, 2 * d


def advect(m, a, field, v, upwind):
    """v d/dx of a (the frame moves with v along x)"""
    h = m.dx[0]
    g = wrap(m, a, field, 2)
    g = g[(slice(None),) + (slice(2, -2),) * (m.dim - 1)]
    n = a.shape[0]
    s = lambda k: g[2 + k:2 + k + n]
    cen = v / (2 * h) * (s(1) - s(-1))
    if not upwind:
        return cen
    up = v / (6 * h) * (-2 * s(-1) - 3 * s(0) + 6 * s(1) - s(2))
    if not m.per[0]:
        up[-1] = cen[-1]
    return up


def centres(m, ng=0):
    return np.meshgrid(*[m.lo[i] + (np.arange(-ng, m.n[i] + ng) + 0.5) * m.dx[i] for i in range(m.dim)], indexing="ij")


def temperature(m, t, ng=0):
    """prescribed temperature at time t, on ng ghost layers too"""
    d = m.mp["Temperature"]
    r = d.get("dtemperaturedt", 0.0)
    x = centres(m, ng)
    if d["type"] == "gaussian":
        T = d["initial"] + r * t
        T = max(T, d["target"]) if r < 0 else min(T, d["target"]) if r > 0 else T
        r2 = 0.0
        for i in range(m.dim):
            e = x[i] - d["center"][i] - d.get("velocity", [0.0] * m.dim)[i] * t
            if m.per[i]:
                L = m.n[i] * m.dx[i]
                e = e - L * np.round(e / L)
            r2 = r2 + e ** 2
        return (d["base"] + (T - d["base"]) * np.exp(-r2 / (2 * d["standard_deviation"] ** 2)))[..., None]
    T = d["temperature"] + r * t
    if d["type"] == "scalar":
        goal = d.get("target_temperature", 0.0)
        T = max(T, goal) if r < 0 else min(T, goal) if r > 0 and goal > 0 else T
        return np.full(x[0].shape + (1,), T)
    v = m.mp.get("MovingFrame", {}).get("velocity", 0.0)
    for i in range(m.dim):
        T = T + d["gradient"][i] * (x[i] - d["center"][i] + (v * t if i == 0 else 0.0))
    return T[..., None]


def hq(k, p):
    q = np.clip(p, 0.0, 1.0)
    return q ** 2 if k[0] == "q" else np.ones(q.shape) if k[0] == "c" else h(k, p)


def dhq(k, p):
    q = np.clip(p, 0.0, 1.0)
    return 2 * q if k[0] == "q" else np.zeros(q.shape) if k[0] == "c" else dh(k, p)


def floored(n2, f, kind):
    """1/|grad q|, bounded by 1/floor"""
    n = np.sqrt(n2)
    if kind[0] == "m":
        return 1 / np.maximum(n, f)
    if kind[0] == "s":
        return 1 / np.sqrt(n2 + f * f)
    return np.where(n > 1e-12 * f, np.tanh(n / f) / np.maximum(n, 1e-300), 1 / f)


def mobility_q(mp, p):
    M, k = mp["orient_mobility"], mp["orient_mobility_func_type"]
    q = np.clip(p, 0.0, 1.0)
    lo = mp.get("min_orient_mobility", 1e-6)
    if k[0] == "p":
        return lo + (M - lo) * (1 - h("p", q))
    if k[0] == "e":
        a = mp["exp_scale_orient_mobility"]
        return lo + (M - lo) * np.expm1(-a * (1 - q)) / np.expm1(-a)
    x = np.clip(p, 1e-6, 1.0)
    return lo + (M - lo) * np.minimum((1 - x) / x ** 2, mp["max_orient_mobility"])


def bumps(a, b, same):
    """sum over pairs of order parameters of a bump where both are present"""
    f = lambda p: (np.maximum(p - 0.01, 0.0) / 0.49) ** 2
    x, y = f(a), f(b)
    if same:
        return (x.sum(-1, keepdims=True) ** 2 - (x ** 2).sum(-1, keepdims=True)) / 2
    return x.sum(-1, keepdims=True) * y.sum(-1, keepdims=True)


class Equations:
    """rates(t, y) -> list of expected time derivatives (None: not covered)"""

    def __init__(self, m):
        self.m = m

    def rates(self, t, y, T=None):
        r = getattr(self, self.m.family)(t, y, T)
        if "RigidBody" in self.m.mp:
            self.rigid(y, r)
        return r

    def rigid(self, y, r):
        """grains move with force times mobility over volume, and take the
        composition with them"""
        m, p = self.m, y[0]
        b = m.mp["RigidBody"]
        n = m.nphi if m.family == "wang" else m.nphi - 1          # the last one is the liquid
        vol = np.prod(m.dx)
        g = wrap(m, p, "Phase")
        d = np.stack([inner(m, np.roll(g, -1, i) - np.roll(g, 1, i)) / (2 * m.dx[i]) for i in range(m.dim)])
        own = (slice(None),) + (None,) * m.dim
        for i in range(n):
            F = np.array(b.get("external_force", [0.0] * m.dim), float)
            for j in range(n):
                if i == j:
                    continue
                a, c = p[..., i], p[..., j]
                if b.get("threshold", 0.0) > 0:
                    w = h("pbg", 0.5 + 10 * (a * c - b["threshold"]))
                    f = (np.minimum(y[1][..., 0], 1.0) - b["equil_gb"]) * w * (d[..., i] - d[..., j])
                else:
                    f = m.mp.get("gamma", 1.5) * 8 * m.well * a ** 2 * c * d[..., j]
                F += b.get("stiffness", 0.0) * vol * f.reshape(m.dim, -1).sum(1)
            s = -(F[own] * d[..., i]).sum(0) * b["mobility"] / (p[..., i].sum() * vol)
            r[0][..., i] += s
            if m.nconc:
                r[1][..., 0] += s

    def energies(self, t, y, T):
        """the parts of the energy of a two-phase model, per cell"""
        m, p, mp = self.m, y[0], self.m.mp
        e = dict(phi=0.5 * m.eps ** 2 * p * -lap(m, wrap(m, p, "Phase")), well=m.well * well(p), orient=0 * p, qint=0 * p)
        if m.nq:
            q, _ = self.nearby(y[1])
            if q is None:
                return None
            G = self.facegrads(q)
            gp = wrap(m, p, "Phase", 2)
            fl, kind = mp["orient_grad_floor"], mp["orient_grad_floor_type"]
            for i in range(m.dim):
                n2 = sum((x ** 2).sum(-1, keepdims=True) for x in G[i])
                pf = core(m, wide(m, gp, avg(m.avg), i), i)
                f = np.sqrt(n2 + (fl ** 2 if kind[0] == "s" else 0)) * hq(mp["orient_interp_func_type1"], pf)
                for s in (lower, upper):
                    e["orient"] = e["orient"] + s(f, i) * T * mp["H_parameter"] / m.dim
                    e["qint"] = e["qint"] + s(n2, i) * 0.25 * mp["epsilon_orient"] ** 2 / m.dim * hq(mp["orient_interp_func_type2"], p)
        f = self.bulk(t, y, T)
        k = m.interp
        e["free"] = (1 - h(k, p)) * f[0] + h(k, p) * f[1]
        return e

    def bulk(self, t, y, T):
        """free energies of the liquid and of the solid"""
        m = self.m
        if m.family == "heat":
            L = m.mp["Temperature"]["latent_heat"] * 1e-6 / MV
            return 0.5 * L * (1 - T), -0.5 * L * (1 - T)
        if m.family == "pure":
            f = m.mp["FreeEnergyModel"]
            if f["type"] == "scalar":
                return f["free_energy_liquid"], f["free_energy_solid"]
            return -0.5 * m.df, 0.5 * m.df
        return self.parts(y[0], T, y[-1])[2:4]

    def phaseflux(self, p, eps2):
        return eps2 * lap(self.m, wrap(self.m, p, "Phase"))

    def pure(self, t, y, T):
        m, p = self.m, y[0]
        v = self.phaseflux(p, m.eps ** 2) - m.well * dwell(p) - dh(m.interp, p) * m.df
        if not m.nq:
            return [m.mob * v]
        o = self.orientation(p, y[1], T)
        return [None if o[0] is None else m.mob * (v + o[0]), o[1]]

    def orientation(self, p, q, T):
        """coupling of the phase to the orientation, rate of the orientation;
        equivalent orientations count as the same"""
        q, back = self.nearby(q)
        if q is None:
            return None, None
        a, b = self.misorientation(p, q, T)
        return a, back(b)

    def nearby(self, q):
        """equivalents of the orientations near that of the first cell, and how
        to get back"""
        m = self.m
        if not m.symm:
            return q, lambda b: b
        G = dict([(4, quat.group4), (2, quat.group2), (1, quat.group1)])[m.nq]()
        E = np.stack([quat.rot(q, e) for e in G])
        d = np.sqrt(((E - q[(0,) * m.dim]) ** 2).sum(-1))
        k = d.argmin(0)
        if d.min(0).max() > 0.18:
            return None, None          # more than one grain
        r = np.take_along_axis(E, k[None, ..., None], 0)[0]
        return r, lambda b: b if m.nq == 1 else quat.rot(b, quat.inv(G[k]))

    def facegrads(self, q):
        """G[i][j]: derivative along j on the faces normal to i"""
        m, G = self.m, []
        gq = wrap(m, q, "Quat", 2)
        for i in range(m.dim):
            gi = []
            for j in range(m.dim):
                if i == j:
                    gi.append(core(m, wide(m, gq, ddx(m, i), i), i))
                else:
                    cen = (np.roll(gq, -1, j) - np.roll(gq, 1, j)) / (2 * m.dx[j])
                    gi.append(core(m, wide(m, cen, lambda a, b: 0.5 * (a + b), i), i))
            G.append(gi)
        return G

    def misorientation(self, p, q, T):
        m = self.m
        mp = m.mp
        H, eps = mp["H_parameter"], mp["epsilon_orient"]
        t1, t2 = mp["orient_interp_func_type1"], mp["orient_interp_func_type2"]
        gp = wrap(m, p, "Phase", 2)
        G = self.facegrads(q)
        if mp["quat_grad_modulus_type"] == "cells":
            n2 = sum((0.5 * (lower(G[i][i], i) + upper(G[i][i], i))) ** 2 for i in range(m.dim))
        else:
            n2 = sum(0.5 * (lower(G[i][i], i) ** 2 + upper(G[i][i], i) ** 2) for i in range(m.dim))
        g = np.sqrt(n2.sum(-1, keepdims=True))
        c = -2 * H * T * dhq(t1, p) * g - 0.5 * eps ** 2 * dhq(t2, p) * g ** 2
        D = []
        for i in range(m.dim):
            pf = core(m, wide(m, gp, avg(m.avg), i), i)
            n2 = sum((x ** 2).sum(-1, keepdims=True) for x in G[i])
            Tf = T.ravel()[0]
            D.append((eps ** 2 * hq(t2, pf) + 2 * H * Tf * hq(t1, pf) * floored(n2, mp["orient_grad_floor"], mp["orient_grad_floor_type"])) * G[i][i])
        r = mobility_q(mp, p) * div(m, D)
        if m.nq > 1:
            r = r - (r * q).sum(-1, keepdims=True) * q / (q ** 2).sum(-1, keepdims=True)
        return c, r

    def heat(self, t, y, T):
        m = self.m
        d = m.mp["Temperature"]
        D, L, cp = d["thermal_diffusivity"] * 1e8, d["latent_heat"] * 1e-6 / MV, d["cp"]["SpeciesA"]["a"]
        T = y[-1]
        r = D * lap(m, wrap(m, T, "Temperature"))
        if not m.nphi:
            return [r]
        p = y[0]
        g = wrap(m, T, "Temperature")
        off = sum(inner(m, np.roll(g, s, i)) for i in range(m.dim) for s in (1, -1)) / (2 * m.dim)
        Ts = 0.75 * T + 0.25 * off           # smoothed over the neighbours
        v = m.mob * (self.phaseflux(p, m.eps ** 2) - m.well * dwell(p) - dh(m.interp, p) * L * (Ts - 1))
        return [v, r + L / (cp * d["meltingT"]) * v]

    def multi(self, t, y, T):
        m, p = self.m, y[0]
        f = m.mp["FreeEnergyModel"]
        v = self.phaseflux(p, m.eps ** 2 / 2) - 8 * m.well * (p ** 3 - p + 2 * m.mp.get("gamma", 1.5) * p * sumrest(p))
        return [m.mob * self.project(v + self.grains(p, f["free_energy_liquid"], f["free_energy_solid"]))]

    def project(self, v):
        return v

    def grains(self, p, fl, fs):
        S = (p ** 2).sum(-1, keepdims=True)
        hl = p[..., -1:] ** 2 / S
        d = fl - fs
        return np.concatenate([2 * p[..., :-1] * hl / S * d, -2 * p[..., -1:] * (1 - hl) / S * d], -1)

    def three(self, t, y, T):
        m, p = self.m, y[0]
        v = self.phaseflux(p, m.eps ** 2) - m.well * dwell(p)
        return [m.mob * (v - v.mean(-1, keepdims=True))]

    def cahnhilliard(self, t, y, T):
        m, c = self.m, y[-1]
        d = m.mp["ConcentrationModel"]["CahnHilliard"]
        ca, cb = d["ca"], d["cb"]
        g = wrap(m, c, "Conc", 1)
        mu = 2 * d["well_scale"] * (c - ca) * (cb - c) * (cb + ca - 2 * c) - d["kappa"] * lap(m, g)
        return [m.mp["ConcentrationModel"]["mobility"] * self.closed(mu, lambda i: 1.0)]

    def closed(self, mu, D):
        """divergence of D grad mu, no flux through boundaries"""
        m = self.m
        F = []
        g = wrap(m, mu, "none", 1)      # zero slope: nothing crosses the boundary
        for i in range(m.dim):
            F.append(D(i) * faces(m, g, ddx(m, i), i))
        return div(m, F)

    def wang(self, t, y, T):
        m, p, c = self.m, y[0], y[1]
        q = m.mp["ConcentrationModel"]
        w = q["WangSintering"]
        A, B = w["A"], w["B"]
        S2 = (p ** 2).sum(-1, keepdims=True)
        S3 = (p ** 3).sum(-1, keepdims=True)
        eps = m.mp["epsilon_phi"]
        v = eps * self.phaseflux(p, eps ** 2 / 2) - 12 * B * ((1 - c) * p - (2 - c) * p ** 2 + S2 * p)
        mu = 2 * A * c * (1 - c) * (1 - 2 * c) + B * (2 * c - 6 * S2 + 4 * S3) - w["beta"] * lap(m, wrap(m, c, "Conc"))
        gc, gp = wrap(m, c, "Conc"), wrap(m, p, "Phase")
        a2 = lambda a, b: 0.5 * (a + b)

        def D(i):
            hs = h(m.mp.get("diffusion_interp_func_type", "linear"), faces(m, gc, avg(m.avg), i))
            r = (1 - hs) * q["D_liquid"] + hs * q["D_solid_A"]
            gb = bumps(gp, gp, True)
            sf = (4 * gc * (1 - gc)) ** 2
            return r + faces(m, q["D0_AA"] * gb + q["D0_LA"] * sf, a2, i)
        return [m.mp["phi_mobility"] * v, q["mobility"] * self.closed(mu, D)]

    def solid(self, p):
        """solid fraction that partitions the composition"""
        return h(self.m.mp["conc_interp_func_type"], p if p.shape[-1] == 1 else p[..., :-1].sum(-1, keepdims=True))

    def dilute(self, t, y, T):
        return self.alloy(t, y, T, self.parts)

    def quadratic(self, t, y, T):
        return self.alloy(t, y, T, self.parts)

    def parts(self, p, T, c):
        """phase compositions, free energies of liquid and solid, chemical potential"""
        if self.m.family == "quadratic":
            return kks(self.m.mp["ConcentrationModel"]["Quadratic"], T, MV, self.solid(p), c)
        # by the thermodynamic double, which takes the phase itself as fraction
        f, h = self.m.t4, p[..., 0]
        c, T = c[..., 0], T[..., 0]
        x = [np.full(c.shape, 0.5), np.full(c.shape, 0.5)]
        d1 = lambda i: f.df(i, x[i][..., None], T)[..., 0]
        d2 = lambda i: f.d2f(i, x[i][..., None], T)[..., 0, 0]
        for it in range(100):
            r1, r2 = (1 - h) * x[0] + h * x[1] - c, d1(1) - d1(0)
            a0, a1 = d2(0), d2(1)
            det = (1 - h) * a1 + h * a0
            s = [(r1 * a1 - h * r2) / det, ((1 - h) * r2 + r1 * a0) / det]
            k = np.maximum(np.maximum(np.abs(s[0]), np.abs(s[1])), 0.5) / 0.5
            x = [u - v / k for u, v in zip(x, s)]
            if max(np.abs(v).max() for v in s) < 1e-14:
                break
        X = [u[..., None] for u in x]
        return X[0], X[1], f.f(0, X[0], T)[..., None], f.f(1, X[1], T)[..., None], d1(0)[..., None]

    def sintering(self, t, y, T):
        m, p, c = self.m, y[0], y[1]
        q = m.mp["ConcentrationModel"]["Quadratic"]
        nA = m.mp["norderp_A"]
        A = [np.array(q["A_" + s]) for s in ("liquid", "solid_A", "solid_B")]
        e = [np.array(q["Ceq_" + s]) for s in ("liquid", "solid_A", "solid_B")]

        def frac(p):
            s = p ** 2
            S = s.sum(-1, keepdims=True)
            return [s[..., -1:] / S, s[..., :nA].sum(-1, keepdims=True) / S, s[..., nA:-1].sum(-1, keepdims=True) / S]

        def split(p, T, c):
            w = frac(p)
            mu = 2 * (c - sum(u * v for u, v in zip(w, e))) / sum(u / v for u, v in zip(w, A))
            return [v + mu / (2 * u) for u, v in zip(A, e)] + [mu]
        *x, mu = split(p, T, c)
        # grand potentials
        G = [(u * (z - v) ** 2 - mu * z).sum(-1, keepdims=True) for u, v, z in zip(A, e, x)]
        w = frac(p)
        mean = sum(u * v for u, v in zip(w, G))
        own = np.concatenate([np.repeat(G[1], nA, -1), np.repeat(G[2], m.nphi - 1 - nA, -1), G[0]], -1)
        v = self.phaseflux(p, m.eps ** 2 / 2) - 8 * m.well * (p ** 3 - p + 3.0 * p * sumrest(p))
        v = m.mob * (v - 2 * p / (p ** 2).sum(-1, keepdims=True) * (own - mean))
        return [v, div(m, self.ebsflux(t, p, c, v, lambda P, U, ng: split(P, None, U)[:3]))]

    def alloy(self, t, y, T, split):
        m, p, c = self.m, y[0], y[-1]
        q = m.mp["ConcentrationModel"]
        n = m.nphi
        xL, xS, fL, fS, mu = split(p, T, c)
        df = fS - fL - mu * (xS - xL)
        if n == 1:
            v = self.phaseflux(p, m.eps ** 2) - m.well * dwell(p) - dh(m.interp, p) * df
        else:
            v = self.phaseflux(p, m.eps ** 2 / 2) - 8 * m.well * (p ** 3 - p + 3.0 * p * sumrest(p)) \
                + self.grains(p, 0.0, df)
        v = m.mob * v
        w = div(m, self.ebsflux(t, p, c, v, lambda P, U, ng: split(P, temperature(m, t, ng), U)[:2]))
        mf = m.mp.get("MovingFrame")
        if mf:
            v = v + advect(m, p, "Phase", mf["velocity"], mf["upwind"])
            w = w + advect(m, c, "Conc", mf["velocity"], mf["upwind"])
        return [v, w]

    def ebsflux(self, t, p, c, dphidt, split):
        """flux of the composition: weighted diffusion in every phase"""
        m = self.m
        q = m.mp["ConcentrationModel"]
        k = q.get("diffusion_interp_func_type", m.mp.get("diffusion_interp_func_type", "linear"))
        st = q.get("ebs_stencil", "regular")
        ng = 2
        gp = wrap(m, p, "Phase", ng)
        if "Temperature" in m.mp:
            gT = temperature(m, t, ng)
        else:
            gT = np.full(gp.shape[:-1] + (1,), m.mp["temperature"])
        parts = split(gp, wrap(m, c, "Conc", ng), ng)
        F = []
        n, nA = m.nphi, m.mp.get("norderp_A", m.nphi - 1)
        groups = [slice(n - 1, n), slice(0, nA), slice(nA, n - 1)]
        names = ["liquid", "solid_A" if "D_solid_A" in q else "solid", "solid_B"][:len(parts)]
        pairs = [(a, b, q["D0_" + u], q.get("Q0_" + u, 0.0)) for a, b, u in
                 ((0, 1, "LA"), (1, 1, "AA"), (0, 2, "LB"), (1, 2, "AB"), (2, 2, "BB")) if q.get("D0_" + u)]
        for i in range(m.dim):
            Tf = wide(m, gT, lambda a, b: 0.5 * (a + b), i)
            D = lambda s: q["D_" + s] * np.exp(-q.get("Q0_" + s, 0.0) / (R * Tf))
            pf = wide(m, gp, avg(m.avg), i)
            if m.nphi == 1:
                wS = h(k, pf)
                W = [(1 - wS) * D("liquid"), wS * D("solid")]
            else:
                W = [h(k, pf[..., g].sum(-1, keepdims=True)) * D(n) for n, g in zip(names, groups)]
                for (a, b, d0, q0) in pairs:
                    v = wide(m, d0 * np.exp(-q0 / (R * gT)) * bumps(gp[..., groups[a]], gp[..., groups[b]], a == b),
                             lambda x, y: 0.5 * (x + y), i)
                    W[a] = W[a] + v
                    if a != b:
                        W[b] = W[b] + v
            f = 0.0
            for W, g in zip(W, parts):
                df = wide(m, g, lambda a, b: b - a, i)
                if st == "order4":
                    far = np.copy(df)
                    n = df.shape[i]
                    lo, hi, to = [[slice(None)] * df.ndim for _ in range(3)]
                    lo[i], hi[i], to[i] = slice(0, n - 2), slice(2, n), slice(1, n - 1)
                    far[tuple(to)] = (df[tuple(lo)] + df[tuple(to)] + df[tuple(hi)])
                    o4 = 1.25 * df - far / 12
                    if not m.per[i]:
                        for e in (1, n - 2):     # the boundary faces
                            to[i] = slice(e, e + 1)
                            o4[tuple(to)] = df[tuple(to)]
                    df = o4
                f = f + W * df / m.dx[i]
            if st == "isotropic":
                o = (10.0 if m.dim == 2 else 8.0) / 12 * f
                for j in range(m.dim):
                    if j != i:
                        o = o + (np.roll(f, 1, j) + np.roll(f, -1, j)) / 12
                f = o
            f = core(m, f, i)
            if q.get("antitrapping"):
                f = f + self.antitrap(i, p, parts, dphidt)
            F.append(f)
        return F

    def antitrap(self, i, p, parts, dphidt):
        m = self.m
        al = m.eps / np.sqrt(32 * m.well)
        gp, gd = wrap(m, p, "Phase", 2), wrap(m, dphidt, "zero", 2)
        mean = lambda a: core(m, wide(m, a, lambda x, y: 0.5 * (x + y), i), i)
        grad = []
        for j in range(m.dim):
            if j == i:
                grad.append(core(m, wide(m, gp, ddx(m, i), i), i))
            else:
                cen = (np.roll(gp, -1, j) - np.roll(gp, 1, j)) / (2 * m.dx[j])
                grad.append(mean(cen))
        n2 = sum(x * x for x in grad)
        n = np.where(n2 > 1e-16, grad[i] / np.sqrt(np.maximum(n2, 1e-300)), 0.0)
        return al * n * mean(parts[0] - parts[1]) * mean(gd)
