"""C32: the bulk free energies and driving forces of AMPE's own C++ classes, on
patch hierarchies of the test doubles; the thermodynamic functions themselves
are those of the double (vf/t4p.py knows them)."""
import numpy as np
from vf import drv, ref
from vf.drv import Scene, db
from vf.registry import spec
from vf.t4p import Quad, T4P
from specs.scalarfuncs import folch_ref, moelans_ref

INT = "lph"
TOL = 3e-12


def volumes(g, same):
    v = [g.real(0.5, 5.0) * 1e-6 for _ in range(3)]
    return [v[0]] * 3 if same else v


def setup(g, three=False, nc=1, quad=False, same=True):
    sc = Scene(g, "fenergy")
    th = (Quad if quad else T4P)(g, nc)
    th.send(sc)
    vm = volumes(g, same)
    ng = g.int(0, 2)
    T = sc.var("temperature", "temp", need=0)
    cs = [sc.var("conc_%s" % "lab"[p], depth=nc, ng=ng) for p in range(3 if three else 2)]
    return sc, th, vm, T, cs


def equilibrate(g, sc, th, T, cs):
    """phase concentrations of equal chemical potential"""
    seed = g.rng()
    cl = {}

    def vals(p):
        def f(R, l, part):
            if (l, R.lo) not in cl:
                cl[l, R.lo] = seed.uniform(0.15, 0.85, R.shape + (th.nc,))
            c0 = cl[l, R.lo]
            if p == 0:
                return c0
            t = field_on(T, R, l)
            return th.invert(p, th.df(0, c0, t), t, c0)
        return f

    for p, c in enumerate(cs):
        c.fill(values=vals(p))


def field_on(v, R, l):
    """values of a filled cell variable gathered over the patches of a level"""
    a = np.zeros(R.shape)
    for p, b in enumerate(v.sc.levels[l]):
        a[tuple(slice(x - y, z - y + 1) for x, y, z in zip(b.lo, R.lo, b.hi))] = v.at(p, l)(b)
    return a


KIND2 = ["quadratic", "calphad", "calphad_subl", "kksdilute", "ternary"]
NUM2 = dict(quadratic=0, calphad=3, calphad_subl=4, kksdilute=10, ternary=9)


def construct(g, sc, kind, th, it, nA, vm, cs, three=0):
    if kind == 0 or kind == 1:
        text = db(th.db2())
    elif kind == 2:
        text = db(th.db3())
    else:
        text = ""
    h = sc.new("fe_new", kind, text, ord(it), nA, vm[0], vm[1], vm[2], cs[0], cs[1],
               cs[2] if len(cs) > 2 else None, int(three))
    return h


def check_energies(g, sc, h, th, vm, T, cs, phases, gp_ok=True, deriv=True, key="fe"):
    """f_p/vm_p (or the grand potential) in every cell, nothing else touched"""
    gp = gp_ok and g.bool()
    mode = g.int(0, 1)
    for p in phases:
        f = sc.var("f%d" % p, ng=g.int(0, 2))
        sc.call("fe_energy", h, p, mode, T, f, int(gp), outs=[f], key="%s:energy%d" % (key, p))
        for l, q, b in sc.patches():
            c = cs[p].at(q, l)(b)
            c = c[..., None] if cs[p].depth == 1 else c
            t = T.at(q, l)(b)
            e = th.f(p, c, t)
            s = np.abs(e).max()
            if gp:
                d = th.df(p, c, t)
                e = e - (d * c).sum(-1)
                s += np.abs(d * c).max()
            g.close(f.at(q, l)(b) * vm[p] * 1e6, e, TOL * (s + 1e-300), "%s:energy%d" % (key, p),
                    "free energy of phase %d%s" % (p, ", grand potential" if gp else ""))
        if deriv:
            df = sc.var("df%d" % p, ng=g.int(0, 2), depth=cs[p].depth)
            sc.call("fe_deriv", h, p, T, df, outs=[df], key="%s:deriv%d" % (key, p))
            for l, q, b in sc.patches():
                c = cs[p].at(q, l)(b)
                c = c[..., None] if cs[p].depth == 1 else c
                e = th.df(p, c, T.at(q, l)(b))
                w = df.at(q, l)(b)
                w = w[..., None] if cs[p].depth == 1 else w
                g.close(w * vm[p] * 1e6, e, TOL * (np.abs(e).max() + th.a.max() if hasattr(th, "a") else 1),
                        "%s:deriv%d" % (key, p), "chemical potential of phase %d" % p)
    # second derivatives at one point
    for p in phases[:2]:
        c = np.array([g.real(0.05, 0.95) for _ in range(th.nc)])
        t = g.real(300, 1800)
        out = np.full(th.nc ** 2, -3.0)
        u = g.bool()
        rc = sc.so.fe_second(h, p, drv.D(t), drv.carg(c), th.nc, drv.carg(out), int(u))
        g.check(rc == 0, key + ":second:error", sc.lib.error())
        e = th.d2f(p, c[None, :], np.array([t]))[0].ravel() * (1e-6 / vm[p] if u else 1.0)
        g.close(out, e, TOL * np.abs(e).max(), "%s:second%d" % (key, p), "second derivatives of phase %d" % p)


def rhs_vars(g, sc, depth=1):
    return sc.var("rhs", "real", ng=0, depth=depth)


@spec("C32", generic=False, kernels=["drv"])
def fe_two_phase(g):
    name = g.pick(KIND2)
    g.label(name)
    kind = NUM2[name]
    same = g.bool()
    sc, th, vm, T, cs = setup(g, nc=2 if name == "ternary" else 1, quad=name == "quadratic", same=same)
    it = g.pick(INT)
    h = construct(g, sc, kind, th, it, 1, vm, cs)
    if not same:
        for c in cs:
            c.fill("inner")
        check_energies(g, sc, h, th, vm, T, cs, [0, 1], gp_ok=name != "quadratic",
                       deriv=name != "quadratic", key=name)
        return
    equilibrate(g, sc, th, T, cs)
    # driving force -d/dphi [ (1-h) f_l + h f_a ] at fixed average composition
    ngp, ngf = g.int(0, 2), g.int(0, 2)
    phi = sc.var("phase", "wide", ng=ngp)
    conc = sc.var("conc", "conc", ng=ngp, depth=th.nc)
    fl, fa = sc.var("f_l", ng=ngf), sc.var("f_a", ng=ngf)
    scale = float(np.abs(getattr(th, "a", getattr(th, "A", None))).max()) * 1e-6 / vm[0]
    if g.bool():
        for p, f in ((0, fl), (1, fa)):
            sc.call("fe_energy", h, p, 0, T, f, 0, outs=[f])
    else:
        fl.fill((-scale, scale))
        fa.fill((-scale, scale))
    rhs = rhs_vars(g, sc)
    mode = g.int(0, 2)
    for rep in range(2):
        # computeDrivingForce starts from zero; in the classes of the KKS kind
        # it reports the force without the interpolation slope
        sc.call("fe_force", h, mode, g.real(0, 5), T, phi, None, conc, fl, fa, None, rhs, outs=[rhs],
                key=name + ":force")
        for l, q, b in sc.patches():
            t = T.at(q, l)(b)
            c = [x.at(q, l)(b) for x in cs]
            c = [x[..., None] if th.nc == 1 else x for x in c]
            mu = th.df(0, c[0], t) * 1e-6 / vm[0]
            drive = fl.at(q, l)(b) - fa.at(q, l)(b) - (mu * (c[0] - c[1])).sum(-1)
            s = np.abs(fl.at(q, l)(b)).max() + np.abs(fa.at(q, l)(b)).max() + np.abs(mu).max() + scale
            ty = it
            if mode == 2 and name in ("calphad", "calphad_subl", "kksdilute"):
                ty = "l"
            e = ref.dinterp(phi.at(q, l)(b), ty) * drive
            before = sc.before(rhs, q, l)(b)
            if mode == 0:
                e = e + before
            got = rhs.at(q, l)(b)
            alt = ref.dinterp(phi.at(q, l)(b), "l") * drive
            if mode == 1 and name in ("calphad", "calphad_subl", "kksdilute") and \
                    np.all(np.abs(got - alt) <= 1e-11 * (s + 1)):
                continue
            g.close(got, e, 1e-11 * (s + np.abs(before).max()), name + ":force",
                    "driving force (%s, interpolation %s, mode %d)" % (name, it, mode))
        mode = 0     # the second call adds, with the interpolation of the input


@spec("C32", generic=False, kernels=["drv"])
def fe_third_phase(g):
    """phi: liquid/solid, eta: solid A/solid B"""
    sc, th, vm, T, cs = setup(g, three=True)
    it = g.pick(INT)
    h = construct(g, sc, 3, th, it, 1, vm, cs, three=1)
    equilibrate(g, sc, th, T, cs)
    ngp, ngf = g.int(0, 2), g.int(0, 2)
    phi, eta = sc.var("phase", "wide", ng=ngp), sc.var("eta", "wide", ng=ngp)
    conc = sc.var("conc", "conc", ng=ngp)
    fs = [sc.var("f_" + x, ng=ngf) for x in "lab"]
    scale = th.a.max() * 1e-6 / vm[0]
    for f in fs:
        f.fill((-scale, scale))
    if g.bool():
        check_energies(g, sc, h, th, vm, T, cs, [0, 1, 2], key="third")
    rhs = rhs_vars(g, sc)
    which = g.int(0, 1)
    args = (g.real(0, 3), T, phi, eta, conc, fs[0], fs[1], fs[2], rhs)
    if which:
        sc.call("fe_force_eta", h, *args, outs=[rhs])
    else:
        sc.call("fe_force", h, 0, *args, outs=[rhs])
    for l, q, b in sc.patches():
        t = T.at(q, l)(b)
        c = [x.at(q, l)(b) for x in cs]
        mu = th.df(0, c[0][..., None], t)[..., 0] * 1e-6 / vm[0]
        om = [f.at(q, l)(b) - mu * x for f, x in zip(fs, c)]
        p, e = phi.at(q, l)(b), eta.at(q, l)(b)
        he = ref.interp(e, it)
        if which:
            exp = ref.interp(p, it) * ref.dinterp(e, it) * (om[1] - om[2])
        else:
            exp = ref.dinterp(p, it) * (om[0] - (1 - he) * om[1] - he * om[2])
        s = sum(np.abs(x).max() for x in om) + scale
        g.close(rhs.at(q, l)(b), exp + sc.before(rhs, q, l)(b), 1e-11 * (s + 2), "third:force",
                "driving force of %s" % ("eta" if which else "phi with a third phase"))


@spec("C32", generic=False, kernels=["drv"])
def fe_three_phases(g):
    kind = g.pick([7, 8])
    g.label("folch" if kind == 7 else "moelans")
    gref = folch_ref if kind == 7 else moelans_ref
    same = g.pick([True, True, False])
    sc, th, vm, T, cs = setup(g, three=True, same=same)
    h = construct(g, sc, kind, th, g.pick(INT), 1, vm, cs)
    if not same:
        for c in cs:
            c.fill("inner")
        check_energies(g, sc, h, th, vm, T, cs, [0, 1, 2], key="three")
        return
    equilibrate(g, sc, th, T, cs)
    ngp, ngf = g.int(0, 2), g.int(0, 2)
    rnd = g.rng()

    def simplex(R, l, part):
        w = rnd.dirichlet([0.8] * 3, R.shape)
        z = rnd.randint(0, 5, R.shape)
        w[z == 4] = np.eye(3)[rnd.randint(0, 3, int((z == 4).sum()))]
        return w

    phi = sc.var("phase", ng=ngp, depth=3, values=simplex)
    conc = sc.var("conc", "conc", ng=ngp)
    fs = [sc.var("f_" + x, ng=ngf) for x in "lab"]
    scale = th.a.max() * 1e-6 / vm[0]
    for f in fs:
        f.fill((-scale, scale))
    rhs = rhs_vars(g, sc, 3)
    sc.call("fe_force", h, 0, 0.5, T, phi, None, conc, fs[0], fs[1], fs[2], rhs, outs=[rhs])
    for l, q, b in sc.patches():
        t = T.at(q, l)(b)
        c = [x.at(q, l)(b) for x in cs]
        mu = th.df(0, c[0][..., None], t)[..., 0] * 1e-6 / vm[0]
        om = [f.at(q, l)(b) - mu * x for f, x in zip(fs, c)]
        p = phi.at(q, l)(b)
        exp = np.zeros(p.shape)
        for i in range(3):
            for j in range(3):
                k = 3 - i - j if i != j else (j + 1) % 3
                if i == j:
                    d = [gref(1, x[i], x[(i + 1) % 3], x[(i + 2) % 3]) for x in p.reshape(-1, 3)]
                else:
                    d = [gref(2, x[j], x[i], x[k]) for x in p.reshape(-1, 3)]
                exp[..., i] -= np.array(d).reshape(b.shape) * om[j]
        s = sum(np.abs(x).max() for x in om) + scale
        got = rhs.at(q, l)(b) - sc.before(rhs, q, l)(b)
        g.close(got, exp, 2e-11 * (s + 2), "three:force", "three-phase driving force")
        g.close(got.sum(-1), 0.0, 2e-11 * (s + 2), "three:sum", "sum of the three driving forces")


@spec("C32", generic=False, kernels=["drv"])
def fe_multi_order(g):
    kind = g.pick([1, 2, 5, 6])
    g.label({1: "quadratic", 2: "quadratic_ternary", 5: "calphad_three", 6: "calphad_two"}[kind])
    three = kind in (2, 5)
    same = g.pick([True, True, False])
    quad = kind in (1, 2)
    sc, th, vm, T, cs = setup(g, three=three, nc=2 if kind == 2 else 1, quad=quad, same=same)
    nA = g.int(1, 3)
    nB = g.int(1, 2) if three else 0
    n = nA + nB + 1
    h = construct(g, sc, kind, th, "l", nA, vm, cs)
    if not same:
        for c in cs:
            c.fill("inner")
        check_energies(g, sc, h, th, vm, T, cs, [0, 1, 2] if three else [0, 1], gp_ok=not quad,
                       deriv=not quad, key="multi")
        return
    equilibrate(g, sc, th, T, cs)
    ngp, ngf = g.int(0, 2), g.int(0, 2)
    rnd = g.rng()

    def orders(R, l, part):
        w = rnd.uniform(0, 1, R.shape + (n,))
        w[rnd.rand(*w.shape) < 0.3] = 0.0
        k = rnd.randint(0, n, R.shape)
        np.put_along_axis(w, k[..., None], rnd.uniform(0.3, 1.0, R.shape + (1,)), -1)
        return w

    phi = sc.var("phase", ng=ngp, depth=n, values=orders)
    conc = sc.var("conc", "conc", ng=ngp)
    fs = [sc.var("f_" + x, ng=ngf) for x in ("lab" if three else "la")]
    scale = float(getattr(th, "a", getattr(th, "A", None)).max()) * 1e-6 / vm[0]
    for f in fs:
        f.fill((-scale, scale))
    rhs = rhs_vars(g, sc, n)
    mode = g.int(0, 1)
    sc.call("fe_force", h, mode, 0.5, T, phi, None, conc, fs[0], fs[1], fs[2] if three else None, rhs,
            outs=[rhs], key="multi:force")
    phase_of = [1] * nA + [2] * nB + [0]
    for l, q, b in sc.patches():
        t = T.at(q, l)(b)
        c = [x.at(q, l)(b) for x in cs]
        c = [x[..., None] if th.nc == 1 else x for x in c]
        mu = th.df(0, c[0], t) * 1e-6 / vm[0]
        om = [f.at(q, l)(b) - (mu * x).sum(-1) for f, x in zip(fs, c)]
        p = phi.at(q, l)(b)
        s2 = (p ** 2).sum(-1)
        hw = [sum(p[..., i] ** 2 for i in range(n) if phase_of[i] == k) / s2 for k in range(len(fs))]
        mean = sum(w * o for w, o in zip(hw, om))
        exp = np.stack([-2 * p[..., i] / s2 * (om[phase_of[i]] - mean) for i in range(n)], -1)
        s = sum(np.abs(x).max() for x in om) + scale
        base = sc.before(rhs, q, l)(b) if mode == 0 else 0.0
        s = s / s2.min() + 2
        g.close(rhs.at(q, l)(b), exp + base, 2e-11 * s, "multi:force", "multi-order driving force, mode %d" % mode)


@spec("C32", generic=False, kernels=["drv"])
def fe_pure(g):
    """energies without composition: fixed, latent heat, undercooling, biased wells"""
    kind = g.int(0, 4)
    g.label(["phase", "temperature", "delta", "utrc", "beckermann"][kind])
    sc = Scene(g, "fenergy")
    it = g.pick(INT)
    T = sc.var("temperature", "temp", need=1)
    n = g.int(2, 4) if kind == 0 and g.bool() else 1
    phi = sc.var("phase", "wide" if n == 1 else (0.05, 1.0), need=0, depth=n)
    mt = -1
    te = None
    vmL, vmA = volumes(g, False)[:2]
    if kind == 0:
        par = [g.real(-3, 3), g.real(-3, 3), vmL, vmA]
    elif kind == 1:
        par = [g.real(0.1, 3), vmA, g.real(0.1, 4), g.real(300, 1800)]
    elif kind == 2:
        par = [g.real(300, 1800), g.real(0.1, 4), 0.0, 0.0]
    else:
        par = [g.real(0.1, 0.9), g.real(0.1, 20.0), 0.0, 0.0]
        te = sc.var("eq_temp", ng=0)
        lin = g.int(0, 1)
        mtp = (g.real(300, 1800), g.real(0.0, 1.0), g.real(-800, 800))
        conc = sc.var("conc", "conc", need=0)
        mt = sc.new("mt_new", lin, *mtp, conc, te)
    h = sc.new("fe_pure", kind, ord(it), np.array(par), mt)
    fl, fa = sc.var("f_l", ng=0), sc.var("f_a", ng=0)
    if kind < 3:
        for p, f in ((0, fl), (1, fa)):
            sc.call("fe_energy", h, p, g.int(0, 1), T, f, 0, outs=[f], key="pure:energy")
            for l, q, b in sc.patches():
                t = T.at(q, l)(b)
                if kind == 0:
                    e = par[p] * 1e-6 / par[2 + p] + 0 * t
                elif kind == 1:
                    e = par[0] * 1e-6 / par[1] + (par[2] * (par[3] - t) / par[3] if p == 0 else 0 * t)
                else:
                    e = (0.5 if p == 0 else -0.5) * par[1] * (par[0] - t) / par[0]
                g.close(f.at(q, l)(b), e, 1e-12 * (np.abs(e).max() + 10), "pure:energy", "free energy of phase %d" % p)
    rhs = rhs_vars(g, sc, n)
    mode = g.int(0, 1)
    outs = [rhs] + ([te] if te is not None else [])
    sc.call("fe_force", h, mode, 0.1, T, phi, None, None, fl, fa, None, rhs, outs=outs, key="pure:force")
    for l, q, b in sc.patches():
        p, t = phi.at(q, l)(b), T.at(q, l)(b)
        tol = 1e-12
        if kind < 2:
            d = fl.at(q, l)(b) - fa.at(q, l)(b)
            if n == 1:
                e = ref.dinterp(p, it) * d
            else:
                # solids share one energy, the last parameter is the liquid
                s2 = (p ** 2).sum(-1)
                hs = (p[..., :-1] ** 2).sum(-1) / s2
                e = np.stack([2 * p[..., i] / s2 * (d * (1 - hs) if i < n - 1 else -d * hs) for i in range(n)], -1)
        elif kind == 2:
            w = 0.25 / (2 * g.dim)
            tm = 0.75 * t + w * sum(T.at(q, l)(b, {k: j}) for k in range(g.dim) for j in (-1, 1))
            e = par[1] * (par[0] - tm) / par[0] * ref.dinterp(p, it)
            tol = 2e-7
        else:
            c = conc.at(q, l)(b)
            teq = mtp[0] + (mtp[2] * (c - mtp[1]) if lin else 0 * c)
            g.close(te.at(q, l)(b), teq, 1e-9, "pure:melting", "equilibrium temperature")
            if kind == 3:
                e = par[0] / np.pi * np.arctan(par[1] * (teq - t)) * p * (1 - p)
                tol = 2e-7
            else:
                e = par[0] * (teq - t) * p * (1 - p)
        base = sc.before(rhs, q, l)(b) if mode == 0 else 0.0
        g.close(rhs.at(q, l)(b), e + base, tol * (np.abs(e).max() + 10), "pure:force", "driving force")
    if kind == 2:
        mob = g.real(0.1, 4)
        out = sc.var("block", ng=g.int(0, 2))
        sc.call("fe_dphidt", h, T, phi, out, mob, outs=[out])
        for l, q, b in sc.patches():
            e = mob * par[1] / par[0] * ref.dinterp(phi.at(q, l)(b), it)
            g.close(out.at(q, l)(b), e, 1e-12 * (np.abs(e).max() + 1), "pure:dphidt", "temperature derivative of the rhs")


drv.prepare("fenergy", "fe_two_phase", "fe_third_phase", "fe_three_phases", "fe_multi_order", "fe_pure")
