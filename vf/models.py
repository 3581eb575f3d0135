"""Random models of AMPE: an input file, initial fields and what they mean."""
import copy
import numpy as np
from . import quat, t4p

MV = 1e-6      # molar volume with which J/mol and pJ/um^3 agree


def rng(g):
    return np.random.default_rng(g.int(0, 2 ** 31 - 1))


class Model:
    def __init__(self):
        self.fields, self.files, self.t4p = {}, {}, None
        self.nphi = self.nconc = self.nq = 0
        self.heat = False
        self.mp = {}          # ModelParameters
        self.init = {}
        self.vec = []         # parameters that point along axes: (path, kind)

    @property
    def names(self):
        n = []
        if self.nphi:
            n.append("phase")
        if self.nconc:
            n.append("concentration")
        if self.nq:
            n.append("quat")
        n.append("temperature")
        return tuple(n)

    def inp(self, steps=2, **more):
        d = self.dim
        mp = copy.deepcopy(self.mp)
        bc = {}
        if not all(self.per):
            for blk, on in (("Phase", self.nphi), ("Conc", self.nconc), ("Quat", self.nq), ("Temperature", self.heat)):
                if on:
                    bc[blk] = {"boundary_%d" % i: self.bc.get(blk, {}).get(i, ["slope", "0"]) for i in range(2 * d)}
            mp["BoundaryConditions"] = bc
        r = dict(end_time=1e30, max_timesteps=int(steps), TimerManager={}, ModelParameters=mp,
                 Integrator=dict(atol=1e-4), InitialConditions=dict(self.init),
                 Geometry=dict(periodic_dimension=[int(p) for p in self.per], coarsest_level_resolution=list(self.n),
                               x_lo=[float(x) for x in self.lo],
                               x_up=[float(a + n * h) for a, n, h in zip(self.lo, self.n, self.dx)]))
        r.update(self.top)
        for k, v in more.items():
            if v is not None:
                r[k] = v
        return r

    def file_fields(self):
        """fields as written to the initial file: [z, y, x]"""
        o = {}
        for k, a in self.fields.items():
            a = a if a.ndim == 3 else a[..., None]
            o[k] = np.ascontiguousarray(a.transpose(2, 1, 0))
        return o

    def array(self, name):
        """the initial field as AMPE holds it: [x, y(, z), depth]"""
        if name == "phase":
            return np.stack([self.fields[k] for k in self.phinames], -1)
        if name == "concentration":
            return np.stack([self.fields[k] for k in self.cnames], -1)
        if name == "quat":
            return np.stack([self.fields["quat%d" % (i + 1)] for i in range(self.nq)], -1)
        return self.fields[name][..., None]


class Fieldgen:
    """random fields of several characters on the model's grid"""

    def __init__(self, g, m):
        self.r, self.m = rng(g), m
        self.kind = g.pick(["noise", "smooth", "drop", "mixed"])
        g.label("fields " + self.kind)

    def unit(self, lo=0.0, hi=1.0):
        n, r, k = self.m.n, self.r, self.kind
        if k == "mixed":
            k = ("noise", "smooth", "drop")[r.integers(3)]
        if k == "noise":
            a = r.random(n)
        else:
            x = np.meshgrid(*[(np.arange(s) + 0.5) / s for s in n], indexing="ij")
            if k == "smooth":
                a = np.zeros(n)
                for _ in range(3):
                    kk = r.integers(0, 3, len(n))
                    a = a + r.uniform(0.2, 1) * np.cos(2 * np.pi * sum(q * y for q, y in zip(kk, x)) + r.uniform(0, 6))
                a = (a - a.min()) / max(np.ptp(a), 1e-9) if np.ptp(a) > 1e-9 else np.full(n, 0.5)
            else:
                c = r.random(len(n))
                R, w = r.uniform(0.15, 0.45), r.uniform(0.05, 0.2)
                d2 = 0
                for q, y in zip(c, x):
                    e = np.abs(y - q)
                    e = np.minimum(e, 1 - e)
                    d2 = d2 + e ** 2
                a = 0.5 * (1 - np.tanh((np.sqrt(d2) - R) / w))
        return lo + (hi - lo) * a


def grid(g, m, maxn=None, minn=4, periodic=None, dxs=(0.4, 2.0)):
    d = m.dim
    hi = maxn or (12 if d == 2 else 6)
    m.n = tuple(g.int(minn, hi) for _ in range(d))
    m.dx = tuple(g.real(*dxs) for _ in range(d))
    m.lo = tuple(g.pick([0.0, -1.5, 3.0]) for _ in range(d))
    if periodic is None:
        m.per = tuple(bool(g.int(0, 2)) for _ in range(d))
    else:
        m.per = tuple(periodic for _ in range(d))
    m.bc = {}
    m.top = {}


def _phinames(m, n):
    m.nphi = n
    m.phinames = ["phase"] if n == 1 else ["phase%d" % i for i in range(n)]


def _simplex(g, m, F, n, exact):
    """n fractions summing to one"""
    a = np.stack([F.unit(0.02, 1.0) for _ in range(n)])
    a = a / a.sum(0)
    if exact:
        a[-1] = 1.0 - a[:-1].sum(0)
    return a


def scalarT(g, m, T):
    m.mp["Temperature"] = dict(type="scalar", temperature=T)
    m.T = T


def phase(g, m, F, one=True):
    mp = m.mp
    if g.bool():
        mp["epsilon_phi"] = g.real(0.5, 1.5)
        mp["phi_well_scale"] = g.real(0.05, 1.0)
        m.eps, m.well = mp["epsilon_phi"], mp["phi_well_scale"]
    else:
        s, de = g.real(0.2, 1.0), g.real(0.5, 2.0)
        mp["Interface"] = dict(sigma=s, delta=de)
        m.eps, m.well = np.sqrt(6 * s * de), 3 * s / de / 16
    m.mob = g.real(0.2, 2.0)
    if g.bool():
        mp["PhaseMobility"] = dict(value=m.mob)
    else:
        mp["phi_mobility"] = m.mob
    m.interp = g.pick(["pbg", "harmonic", "linear"] if one else ["pbg", "harmonic"])
    mp["phi_interp_func_type"] = m.interp
    mp["avg_func_type"] = m.avg = g.pick(["arithmetic", "harmonic"])


def orientation(g, m, F):
    """adds an orientation field"""
    mp = m.mp
    mp["H_parameter"] = g.real(0.05, 0.5)
    mp["epsilon_orient"] = g.real(0.1, 0.5)
    mp["orient_mobility"] = g.real(0.2, 1.0)
    mp["orient_interp_func_type1"] = g.pick(["quadratic", "pbg", "linear"])
    mp["orient_interp_func_type2"] = g.pick(["constant", "quadratic"])
    mp["orient_grad_floor_type"] = g.pick(["max", "tanh", "sqrt"])
    mp["orient_grad_floor"] = g.pick([1e-2, 0.1, 1.0])
    mp["quat_grad_modulus_type"] = g.pick(["cells", "sides"])
    mp["orient_mobility_func_type"] = g.pick(["pbg", "exp", "inverse"])
    if mp["orient_mobility_func_type"] == "exp":
        mp["exp_scale_orient_mobility"] = g.pick([10.0, 1e3])
    if mp["orient_mobility_func_type"] == "inverse":
        mp["max_orient_mobility"] = g.pick([10.0, 1e3])
    m.model = g.pick(["Quat", "KWC", "KWCcomplex"]) if m.dim == 2 else "Quat"
    m.top["model_type"] = m.model
    m.nq = {"Quat": 4, "KWC": 1, "KWCcomplex": 2}[m.model]
    if m.nq > 1:
        r = rng(g)
        q = r.standard_normal((m.nq,) + m.n) * g.pick([0.1, 1.0]) + np.array(r.standard_normal(m.nq)).reshape((-1,) + (1,) * m.dim)
        q /= np.sqrt((q ** 2).sum(0))
    else:
        q = np.stack([F.unit(-0.6, 0.6)])
    m.symm = m.dim == 2 and bool(g.bool())      # not implemented in 3D
    if m.symm and g.bool():
        # one grain, every cell in any of the equivalent orientations
        g.label("equivalent orientations")
        r = rng(g)
        if m.nq == 1:
            q = 0.2 * (q - q.mean()) + r.choice(quat.group1().ravel()[:3], (1,) + m.n)
        else:
            q = np.moveaxis(q, 0, -1)
            q = quat.normalise(q[(0,) * m.dim] + 0.02 * r.standard_normal(q.shape))
            G = quat.group4() if m.nq == 4 else quat.group2()
            q = np.moveaxis(quat.rot(q, G[r.integers(len(G), size=m.n)]), -1, 0)
    if m.symm:
        m.top["Symmetry"] = dict(enabled=True)
    mp["use_diffs_to_compute_flux"] = bool(g.bool())
    for i in range(m.nq):
        m.fields["quat%d" % (i + 1)] = q[i]


def pure(g, m, orient=None):
    """one phase field, linear or scalar free energy"""
    F = Fieldgen(g, m)
    _phinames(m, 1)
    T = g.real(0.5, 1.5)
    phase(g, m, F)
    m.fields["phase"] = F.unit()
    m.mp["molar_volume"] = MV
    if g.bool():
        scalarT(g, m, T)
        m.mp["Temperature"].update(meltingT=1.0, latent_heat=g.real(0.1, 1.0))
        m.mp["FreeEnergyModel"] = dict(type="linear")
        m.df = m.mp["Temperature"]["latent_heat"] * (T - 1.0)
    else:
        scalarT(g, m, T)
        a, b = g.real(-0.5, 0.5), g.real(-0.5, 0.5)
        m.mp["FreeEnergyModel"] = dict(type="scalar", free_energy_liquid=a, free_energy_solid=b)
        m.df = b - a
    if orient or (orient is None and g.bool()):
        g.label("with orientation")
        orientation(g, m, F)


def heat(g, m, orient=False):
    """heat equation with or without a phase field"""
    F = Fieldgen(g, m)
    m.heat = True
    m.mp["molar_volume"] = MV
    withphase = g.bool()
    m.mp["Temperature"] = dict(type="heat", equation_type="unsteady", cp=dict(SpeciesA=dict(a=g.real(0.5, 2.0))),
                               thermal_diffusivity=g.real(0.2, 2.0) * 1e-8, latent_heat=g.real(0.1, 1.0))
    m.rescaled = False
    if withphase:
        _phinames(m, 1)
        phase(g, m, F)
        m.mp["Temperature"]["meltingT"] = g.pick([1.0, 2.0])
        m.rescaled = True
        m.mp["FreeEnergyModel"] = dict(type="linear")
        m.fields["phase"] = F.unit()
    else:
        m.mp["FreeEnergyModel"] = dict(type="linear")
    m.fields["temperature"] = F.unit(0.5, 1.5)


def multi(g, m):
    """several order parameters, no composition"""
    F = Fieldgen(g, m)
    k = g.int(2, 4)
    phase(g, m, F, one=False)
    m.mp["norderp"] = k
    scalarT(g, m, 1.0)
    m.mp["molar_volume"] = MV
    m.mp["FreeEnergyModel"] = dict(type="scalar", free_energy_liquid=g.real(-.5, .5), free_energy_solid=g.real(-.5, .5))
    _phinames(m, k)
    a = _simplex(g, m, F, k, False)
    for i in range(k):
        m.fields["phase%d" % i] = a[i]


def three(g, m):
    F = Fieldgen(g, m)
    phase(g, m, F)
    m.mp["three_phases"] = True
    scalarT(g, m, g.pick([1e-8, 1.0]))
    m.mp["molar_volume"] = MV
    _phinames(m, 3)
    a = _simplex(g, m, F, 3, True)
    for i in range(3):
        m.fields["phase%d" % i] = a[i]


def _conc(g, m, F, n):
    m.nconc = n
    m.cnames = ["concentration"] if n == 1 else ["concentration%d" % i for i in range(n)]
    for k in m.cnames:
        m.fields[k] = F.unit(0.1, 0.9 if n == 1 else 0.45)


def _temp(g, m, T0, aniso=True):
    k = g.pick(["scalar", "ramp", "frozen", "gaussian"] if aniso else ["scalar", "ramp"])
    g.label("T " + k)
    if k == "scalar":
        m.mp["Temperature"] = dict(type="scalar", temperature=T0)
    elif k == "ramp":
        m.mp["Temperature"] = dict(type="scalar", temperature=T0, dtemperaturedt=g.real(-50., 50.),
                                   target_temperature=g.pick([0.5 * T0, 2 * T0]))
    elif k == "frozen":
        m.mp["Temperature"] = dict(type="frozen", temperature=T0, dtemperaturedt=g.pick([0.0, -30.0]),
                                   center=[g.real(0., 2.) for _ in range(m.dim)],
                                   gradient=[g.real(-5., 5.) for _ in range(m.dim)])
    else:
        m.mp["Temperature"] = dict(type="gaussian", base=T0, initial=T0 + g.real(10., 50.), target=T0 + g.real(10., 100.),
                                   dtemperaturedt=g.pick([0.0, 20.0]), center=[g.real(0., 2.) for _ in range(m.dim)],
                                   standard_deviation=g.real(0.5, 3.))
        if g.bool():
            m.mp["Temperature"]["velocity"] = [g.real(-1e3, 1e3) for _ in range(m.dim)]
    m.Tkind = k


def quadratic(g, m, aniso=True, order4=True, ngrains=(1, 1, 2, 3)):
    """binary alloy, two phases or several grains, quadratic energies"""
    F = Fieldgen(g, m)
    grains = g.pick(list(ngrains))
    phase(g, m, F, one=grains == 1)
    m.mp["conc_interp_func_type"] = g.pick(["linear", "pbg"])
    m.mp["diffusion_interp_func_type"] = g.pick(["linear", "pbg"])
    if grains > 1:
        m.mp["norderp"] = grains
    _phinames(m, grains)
    if grains == 1:
        m.fields["phase"] = F.unit(0.02, 0.98)
    else:
        a = _simplex(g, m, F, grains, False)
        for i in range(grains):
            m.fields["phase%d" % i] = a[i]
    if aniso and grains == 1 and g.bool():
        m.mp["MovingFrame"] = dict(velocity=g.real(-1.0, 1.0), upwind=bool(g.bool()))
        if not g.bool():
            m.mp["MovingFrame"]["adapt"] = False
    _temp(g, m, 1000.0, aniso)
    anti = grains == 1 and g.int(0, 2) == 0
    vA, vL = MV, MV
    m.mp["ConcentrationModel"] = dict(
        model="quadratic", rhs_form="ebs", diffusion_type="temperature_dependent", antitrapping=bool(anti),
        molar_volume_solid_A=vA, molar_volume_liquid=vL, D_solid=g.real(0.05, 1.0), D_liquid=g.real(0.05, 1.0),
        Q0_solid=g.pick([0.0, 5e3]), Q0_liquid=g.pick([0.0, 5e3]),
        ebs_stencil=g.pick(["regular", "isotropic"] + (["order4"] if order4 else [])),
        Quadratic=dict(T_ref=g.real(800., 1200.), A_liquid=g.real(0.5, 3.), A_solid=g.real(0.5, 3.),
                       Ceq_liquid=g.real(0.1, 0.9), Ceq_solid=g.real(0.1, 0.9),
                       m_liquid=g.real(-1e-3, 1e-3), m_solid=g.real(-1e-3, 1e-3)))
    m.mp["ConcentrationModel"]["avg_func_type"] = g.pick(["arithmetic", "harmonic"])
    if grains > 1:
        interfaces(g, m.mp["ConcentrationModel"], ("LA", "AA"))
    _conc(g, m, F, 1)


def interfaces(g, d, pairs):
    """faster diffusion along interfaces and grain boundaries"""
    for p in pairs:
        if g.bool():
            d["D0_" + p] = g.real(.1, 2.)
            d["Q0_" + p] = g.pick([0.0, 3e3])


def sintering(g, m):
    """ternary alloy, grains of two solids in a gas"""
    F = Fieldgen(g, m)
    k = g.int(3, 5)
    a = g.int(1, k - 2)
    phase(g, m, F, one=False)
    m.mp.update(norderp=k, norderp_A=a, conc_interp_func_type="lin", temperature=1000.0)
    _phinames(m, k)
    x = _simplex(g, m, F, k, False)
    for i in range(k):
        m.fields["phase%d" % i] = x[i]
    R = lambda lo, hi: [g.real(lo, hi), g.real(lo, hi)]
    m.mp["ConcentrationModel"] = dict(
        nspecies=3, rhs_form="ebs", model="quadratic", diffusion_type="temperature_dependent",
        molar_volume_solid_A=MV, molar_volume_solid_B=MV, molar_volume_liquid=MV,
        D_solid_A=g.real(.05, 1.), D_solid_B=g.real(.05, 1.), D_liquid=g.pick([0.0, 0.3]),
        Quadratic=dict(A_liquid=R(.5, 3.), A_solid_A=R(.5, 3.), A_solid_B=R(.5, 3.),
                       Ceq_liquid=R(0., .4), Ceq_solid_A=R(0., 1.), Ceq_solid_B=R(0., 1.)))
    interfaces(g, m.mp["ConcentrationModel"], ("LA", "LB", "AA", "AB", "BB"))
    m.mp["ConcentrationModel"]["ebs_stencil"] = g.pick(["regular", "isotropic"])
    m.mp["diffusion_interp_func_type"] = g.pick(["linear", "pbg"])
    _conc(g, m, F, 2)


def cahnhilliard(g, m):
    F = Fieldgen(g, m)
    m.mp["temperature0"] = 1000.0
    m.mp["ConcentrationModel"] = dict(
        diffusion_type="mobility", model="cahn_hilliard", rhs_form="cahn_hilliard", mobility=g.real(.2, 2.),
        CahnHilliard=dict(ca=g.real(.1, .4), cb=g.real(.6, .9), well_scale=g.real(.5, 5.), kappa=g.real(.2, 2.)))
    m.mp["ConcentrationModel"]["avg_func_type"] = "arithmetic"
    m.init["init_t"] = 1000.0
    _conc(g, m, F, 1)


def wang(g, m):
    F = Fieldgen(g, m)
    k = g.int(2, 4)
    m.mp.update(norderp=k, norderp_A=k, phi_mobility=g.real(.2, 2.), epsilon_phi=g.real(.5, 1.5), temperature0=1000.0)
    m.mp["avg_func_type"] = m.avg = g.pick(["arithmetic", "harmonic"])
    m.mp["ConcentrationModel"] = dict(
        diffusion_type="temperature_dependent", model="wang_sintering", rhs_form="wang_sintering", mobility=g.real(.2, 2.),
        WangSintering=dict(A=g.real(.5, 5.), B=g.real(.2, 1.), beta=g.real(.5, 2.)),
        D_solid_A=g.real(.05, 1.), D_liquid=g.real(.01, .1), D0_LA=g.real(0., 2.), D0_AA=g.real(0., 2.))
    m.init["init_t"] = 1000.0
    _phinames(m, k)
    x = _simplex(g, m, F, k + 1, False)
    for i in range(k):
        m.fields[m.phinames[i]] = x[i]
    _conc(g, m, F, 1)


def dilute(g, m, aniso=True):
    F = Fieldgen(g, m)
    phase(g, m, F)
    m.mp["conc_interp_func_type"] = g.pick(["linear", "pbg"])
    _phinames(m, 1)
    m.fields["phase"] = F.unit(0.02, 0.98)
    _temp(g, m, 1700.0, aniso)
    m.mp["ConcentrationModel"] = dict(
        model="dilute", rhs_form="ebs", diffusion_type="temperature_dependent", antitrapping=bool(g.bool()),
        molar_volume=MV, liquidus_slope=-300.0, meltingT=1728.0, keq=0.8, D_solid=g.real(.05, 1.), D_liquid=g.real(.05, 1.),
        Q0_solid=0.0, Q0_liquid=0.0, avg_func_type="arithmetic")
    _conc(g, m, F, 1)
    t = t4p.T4P(g, 1, 1.0)
    m.t4 = t
    m.t4p = vec(t)


def vec(t):
    return np.concatenate([t.a.ravel(), t.e.ravel(), t.b.ravel(), t.r.ravel(), t.x, t.s, t.g, t.ceq,
                           [t.ceq_ok, t.fail]]).astype(float)


FAMILIES = dict(pure=pure, heat=heat, multi=multi, three=three, quadratic=quadratic, sintering=sintering,
                cahnhilliard=cahnhilliard, wang=wang, dilute=dilute)


VARIANTS = dict(quadratic1=("quadratic", dict(ngrains=(1,))), quadraticn=("quadratic", dict(ngrains=(2, 3))),
                orient=("pure", dict(orient=True)))


def make(g, families=None, maxn=None, minn=4, periodic=None, **kw):
    m = Model()
    m.dim = g.dim
    grid(g, m, maxn, minn, periodic)
    m.family = g.pick(sorted(families or FAMILIES))
    if m.family in VARIANTS:
        m.family, more = VARIANTS[m.family]
        kw = dict(kw, **more)
    g.label("model " + m.family)
    f = FAMILIES[m.family]
    f(g, m, **{k: v for k, v in kw.items() if k in f.__code__.co_varnames[:f.__code__.co_argcount]})
    return m


def boundaries(g, m):
    """random conditions on the physical boundaries: outward slopes or values"""
    m.bc = {}
    c = m.mp.get("ConcentrationModel", {})
    axis = None
    if m.nq or c.get("ebs_stencil") == "isotropic" or c.get("antitrapping"):
        axis = g.int(0, m.dim - 1)      # corners are extrapolated: keep them simple
    lim = dict(Phase=(0.05, 0.9), Conc=(0.1, 0.9 if m.nconc < 2 else 0.45), Temperature=(0.5, 1.5), Quat=(-0.6, 0.6))
    for k, on in (("Phase", m.nphi), ("Conc", m.nconc), ("Temperature", m.heat), ("Quat", m.nq == 1)):
        if not on or m.family == "dilute":
            continue
        b = m.bc[k] = {}
        for i in range(2 * m.dim):
            kind = g.pick(["none", "slope", "value"])
            if m.per[i // 2] or kind == "none" or axis not in (None, i // 2):
                continue
            if k == "Quat" and m.symm:
                kind = "slope"          # a value would depend on the frame
            if kind == "slope":
                b[i] = ["slope", repr(g.real(-0.05, 0.05))]
            else:
                b[i] = ["value", repr(g.real(*lim[k]))]
            g.label("boundary %s %s" % (k, kind))


def rigid(g, m, always=False):
    """grains that move as rigid bodies"""
    if m.nphi < 2 or m.mp.get("three_phases") or m.nconc > 1 or not (always or g.bool()):
        return
    b = m.mp["RigidBody"] = dict(mobility=g.real(0.2, 2.0))
    if g.bool():
        b["external_force"] = [g.real(-5.0, 5.0) for _ in range(m.dim)]
    if g.int(0, 3):
        b["stiffness"] = g.real(0.5, 3.0)
    if m.nconc and (m.family == "wang" or g.bool()):
        b.update(threshold=g.real(0.02, 0.3), equil_gb=g.real(0.2, 1.0))
    if m.family == "multi" and g.bool():
        m.mp["norderp_A"] = g.int(1, m.nphi - 1)
    g.label("rigid-body motion")


def cuts(g, m, maxcuts=2, small=2):
    """where to cut the domain in each direction; like SAMRAI, no patch is
    smaller than the widest ghost layer"""
    c = []
    for d in range(m.dim):
        s = []
        for _ in range(g.int(0, maxcuts)):
            x = g.int(1, m.n[d] - 1)
            e = sorted(s + [x])
            if x not in s and min(np.diff([0] + e + [m.n[d]])) >= small:
                s = e
        c.append(s)
    return c
