"""Properties of whole simulations: AMPE as a program, on generated models."""
import os, shutil, tempfile
import numpy as np
from vf import drv, eqs, models, sim
from vf.registry import spec

H = 1e-4


def simspec(prop, dims=(2, 3), weight=1.0):
    def deco(fn):
        spec(prop, dims=dims, weight=weight, generic=False, kernels=["drv"])(fn)
        drv.prepare("sim", fn.__name__, dims=dims)
        return fn
    return deco


def go(g, m, key, inp=None, fields=None, may_fail=False, **kw):
    """runs the model; a run that does not complete is a violation"""
    g.calls += 1
    try:
        r = sim.run(m.dim, inp or m.inp(2), m.file_fields() if fields is None else fields, t4p=m.t4p,
                    files=m.files, final=m.names, **kw)
    except sim.SimError as e:
        if may_fail:
            return None
        g.fail(key + "-run", "%s model: the simulation of a valid input did not complete: %s" % (m.family, e))
        return None
    if r.rc != 0:
        if may_fail:
            return None
        g.fail(key + "-run", "%s model: the simulation of a valid input stopped in %s: %s" % (m.family, r.stage, r.msg[:500]))
        return None
    return r


def scale(a):
    a = np.asarray(a)
    return float(np.abs(a).max()) if a.size else 0.0


def same(g, key, what, A, B, tol=1e-10, map=lambda a: a):
    """the histories A and B agree (B mapped by map)"""
    g.check(len(A) == len(B), key, "%s: %d states against %d" % (what, len(A), len(B)))
    for i, (a, b) in enumerate(zip(A, B)):
        g.check(abs(a[0] - b[0]) <= 1e-12 * (abs(a[0]) + H), key, "%s: time of state %d: %r against %r" % (what, i, a[0], b[0]))
        for j, (x, y) in enumerate(zip(a[2], b[2])):
            g.close(map(y), x, tol * scale(x), key, "%s: field %d of state %d" % (what, j, i))
        for j, (x, y) in enumerate(zip(a[3], b[3])):
            g.close(map(y), x, tol * scale(x), key, "%s: time derivative of field %d at state %d" % (what, j, i))


def samefinal(g, key, what, a, b, tol=1e-10, map=lambda a: a):
    g.check(sorted(a) == sorted(b), key, "%s: fields %s against %s" % (what, sorted(a), sorted(b)))
    for k in sorted(a):
        g.close(map(b[k]), a[k], tol * scale(a[k]), key, "%s: final %s" % (what, k))


@simspec("C33", weight=0.3)
def sim_decomposition(g):
    m = models.make(g)
    c = models.cuts(g, m)
    r1 = go(g, m, "decomposition", fixed=H)
    r2 = go(g, m, "decomposition", fixed=H, cuts=c)
    g.check(len(r2.boxes[0]) == int(np.prod([len(x) + 1 for x in c])), "decomposition", "patches %s" % r2.boxes)
    if len(r2.boxes[0]) > 1:
        g.label("cut")
        g.nontrivial = True
    for r in (r1, r2):
        g.check(r.guards == 0, "decomposition-guards", "memory outside the patches was written")
    same(g, "decomposition", m.family, r1.states, r2.states)
    samefinal(g, "decomposition", m.family, r1.final, r2.final)


@simspec("C34", weight=0.2)
def sim_restart(g):
    m = models.make(g)
    n, k = 4, g.int(1, 3)
    how = g.pick(["interval", "final"])
    c = models.cuts(g, m, 1)
    d = tempfile.mkdtemp(prefix="rst", dir=os.environ.get("VF_SCRATCH", "/tmp"))
    try:
        a = go(g, m, "restart", inp=m.inp(n), fixed=H, cuts=c, maxstates=12)
        if how == "interval":
            b = go(g, m, "restart", inp=m.inp(n, Restart=dict(interval=k, interval_type="step")), fixed=H, cuts=c, keep=d)
        else:
            b = go(g, m, "restart", inp=m.inp(k, Restart=dict(interval=100, interval_type="step", include_last_step=True)),
                   fixed=H, cuts=c, keep=d)
        g.check(os.path.exists(os.path.join(d, "restore.%06d" % k)), "restart", "no restart file of step %d: %s" % (k, os.listdir(d)))
        r = go(g, m, "restart", inp=m.inp(n), fixed=H, cuts=c, restart=(d, k), maxstates=12, keep=os.path.join(d, "x"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    g.label("from %d" % k)
    samefinal(g, "restart", m.family + " restarted at step %d" % k, a.final, r.final)
    same(g, "restart", m.family + " restarted at step %d" % k, a.states[-len(r.states):], r.states)
    g.nontrivial = True


@simspec("C36", weight=0.3)
def sim_equivariance(g):
    m = models.make(g, aniso=False)
    d = m.dim
    perm = list(range(d))
    if g.bool():
        perm = g.pick([[1, 0]] if d == 2 else [[1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0], [2, 0, 1]])
    flip = [bool(g.bool()) for _ in range(d)]
    shift = [g.int(0, m.n[i] - 1) if m.per[i] else 0 for i in range(d)]

    def T(a):
        """old field -> new field; a: [x, y(, z)(, depth)]"""
        for i in range(d):
            a = np.roll(a, shift[i], axis=i)
            if flip[i]:
                a = np.flip(a, axis=i)
        return np.transpose(a, perm + list(range(d, a.ndim)))

    import copy
    q = copy.deepcopy(m)
    q.n = tuple(m.n[p] for p in perm)
    q.dx = tuple(m.dx[p] for p in perm)
    q.lo = tuple(m.lo[p] for p in perm)
    q.per = tuple(m.per[p] for p in perm)
    q.fields = {k: T(a) for k, a in m.fields.items()}
    r1 = go(g, m, "equivariance", fixed=H)
    r2 = go(g, q, "equivariance", fixed=H)
    for s, t in zip(r1.states, r2.states):
        pass
    A = [(s[0], s[1], [T(x) for x in s[2]], [T(x) for x in s[3]]) for s in r1.states]
    g.label("perm %s" % (perm != list(range(d))))
    same(g, "equivariance", m.family + " moved by perm %s flip %s shift %s" % (perm, flip, shift), A, r2.states, tol=1e-9)
    samefinal(g, "equivariance", m.family, {k: T(v) for k, v in r1.final.items()}, r2.final, tol=1e-9)


@simspec("C35", weight=0.4)
def sim_conservation(g):
    m = models.make(g, families=["quadratic", "sintering", "cahnhilliard", "wang", "dilute", "three"], aniso=False)
    m.mp.pop("MovingFrame", None)
    c = models.cuts(g, m)
    r = go(g, m, "conservation", fixed=H, cuts=c)
    for i, s in enumerate(r.states):
        if m.nconc:
            f = s[3][-1]
            tot = f.sum(axis=tuple(range(m.dim)))
            g.close(tot, np.zeros_like(tot), 1e-12 * np.abs(f).sum(), "conservation",
                    "%s: rate of the total composition at state %d" % (m.family, i))
        if m.family == "three":
            f = s[3][0]
            g.close(f.sum(-1), np.zeros(f.shape[:-1]), 1e-12 * scale(f), "conservation-phases",
                    "three phases: sum of the rates at state %d" % i)
        if scale(s[3][-1]) > 0:
            g.nontrivial = True
    if m.nconc:
        a, b = r.init["concentration"], r.final["concentration"]
        ax = tuple(range(m.dim))
        g.close(b.sum(ax), a.sum(ax), 1e-12 * np.abs(a).sum(), "conservation", m.family + ": total composition after the run")
    if m.family == "three":
        g.close(r.final["phase"].sum(-1), np.ones(m.n), 1e-12, "conservation-phases", "three phases: sum of the fractions")


@simspec("C40", weight=0.3)
def sim_unit_quaternions(g):
    m = models.Model()
    m.dim = g.dim
    models.grid(g, m)
    m.family = "pure"
    models.pure(g, m, orient=True)
    c = models.cuts(g, m)
    h = g.pick([1e-5, 1e-4, 1e-3])
    r = go(g, m, "unit", inp=m.inp(3), fixed=h, cuts=c, maxstates=6)
    if m.nq == 1:
        return
    g.label("depth %d" % m.nq)
    for i, s in enumerate(r.states):
        q, f = s[2][1], s[3][1]
        g.close((q * f).sum(-1), np.zeros(m.n), 1e-11 * max(scale(f), 1e-30) * max(1.0, scale(q)) ** 2 * (1 + 1e3 * np.abs((q * q).sum(-1) - 1)),
                "unit-tangent", "%s: rate of the squared norm at state %d" % (m.model, i))
        if scale(f) > 0:
            g.nontrivial = True
    for nm in ("init", "final"):
        q = getattr(r, nm)["quat"]
        g.close((q ** 2).sum(-1), np.ones(m.n), 1e-11, "unit-norm", "%s: squared norm (%s)" % (m.model, nm))


@simspec("C41", weight=0.25)
def sim_schedule(g):
    """which cycles are written, plotted, reported and diagnosed"""
    m = models.make(g, families=["pure"], maxn=4)
    n, first = g.int(1, 8), {}
    blocks, rule = {}, {}
    for name in ("Restart", "Visit", "ScalarDiagnostics", "TimestepOutput"):
        f = name in ("Visit",)
        la = True
        kind = g.pick(["step", "cycle", "time", "dt", "none"])
        if kind == "none":
            rule[name] = ("step", 1 if name == "TimestepOutput" else 0, f, la and name != "TimestepOutput")
            continue
        b = dict(interval_type=kind)
        if kind in ("step", "cycle"):
            b["interval"] = v = g.int(0, 5)
        else:
            b["interval"] = v = H * g.pick([0.3137, 0.7211, 1.2347, 1.8191, 2.6463, 3.3173, 11.1111])
        if g.bool():
            b["include_first_step"] = f = g.bool()
        if g.bool():
            b["include_last_step"] = la = g.bool()
        if name == "TimestepOutput":
            la = False
        blocks[name] = b
        rule[name] = (kind, v, f, la)

    def expect(name, start, end):
        kind, v, f, la = rule[name]
        if v <= 0:
            return []
        o = [start] if f else []
        for k in range(start + 1, end + 1):
            if k % v == 0 if kind in ("step", "cycle") else int(k * H / v) > int((k - 1) * H / v):
                o.append(k)
        if la and end not in o:
            o.append(end)
        return o

    top = tempfile.mkdtemp(prefix="sch", dir=os.environ.get("VF_SCRATCH", "/tmp"))

    def look(d, start, end, **kw):
        os.mkdir(d)
        r = go(g, m, "schedule", inp=m.inp(end, **blocks), fixed=H, keep=d, maxstates=1, **kw)
        plots, info, diag, cur = [], [], [], start
        for line in r.out.splitlines():
            w = line.split()
            if line.startswith("@plot"):
                plots.append(int(w[1]))
                g.close(float(w[2]), int(w[1]) * H, 1e-9 * H, "schedule", "time of plot %s" % w[1])
            elif line.startswith("cycle # "):
                cur = int(w[2])
                g.close(float(w[6]), cur * H, 1e-4 * H, "schedule", "reported time of cycle %d" % cur)
                if ": dt =" in line:
                    g.close(float(w[10]), H, 1e-4 * H, "schedule", "reported time step of cycle %d" % cur)
                    info.append(cur)
                elif rule["TimestepOutput"][2] and rule["TimestepOutput"][1] > 0 and cur == start and start not in info:
                    info.append(cur)
            elif "Total energy" in line:
                diag.append(cur)
        files = sorted(int(f.split(".")[1]) for f in os.listdir(d) if f.startswith("restore"))
        what = "cycles %d to %d, %s: " % (start, end, rule)
        g.check(files == sorted(expect("Restart", start, end)), "schedule", what + "restart files %s" % files)
        g.check(plots == expect("Visit", start, end), "schedule", what + "plots %s" % plots)
        g.check(diag == expect("ScalarDiagnostics", start, end), "schedule", what + "diagnostics %s" % diag)
        g.check(info == expect("TimestepOutput", start, end), "schedule", what + "reported cycles %s" % info)
        g.compared += len(files) + len(plots) + len(diag) + len(info) + 4
        return files

    try:
        fs = look(os.path.join(top, "a"), 0, n)
        g.nontrivial = bool(blocks)
        fs = [f for f in fs if f < n]
        if fs:
            k = g.pick(fs)
            look(os.path.join(top, "b"), k, n, restart=(os.path.join(top, "a"), k))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def equations(g, m, key, fields=None, maxcuts=2):
    """the time derivatives the integrator is given are those of the documented
    equations; fields: which of them to compare"""
    c = models.cuts(g, m, maxcuts)

    def look(W, t, h, Y, F):
        return t, h, [W.field(i) for i in Y], [W.field(i) for i in F], W.field(W.id("temperature"))
    r = go(g, m, key, fixed=H, cuts=c, observe=look, maxstates=4)
    E = eqs.Equations(m)
    adapt = m.mp.get("MovingFrame", {}).get("adapt", True) if "MovingFrame" in m.mp else False
    for i, s in enumerate(r.states[:2 if adapt else 4]):
        t, _, y, f, T = s[:5]
        if getattr(m, "Tkind", None) and fields in (None, "temperature"):
            x = eqs.temperature(m, t)
            g.close(T, x, 1e-12 * scale(x), key + "-temperature", "%s: temperature at time %r" % (m.family, t))
            g.nontrivial = True
        names = [k for k, on in (("phase", m.nphi), ("quat", m.nq), ("temperature", m.heat), ("concentration", m.nconc)) if on]
        for j, e in enumerate(E.rates(t, y, T)):
            if e is None or fields not in (None, names[j]):
                continue
            tol = 1e-9 * max(scale(e), scale(f[j]))
            if m.dim == 3 and "latent_heat" in m.mp.get("Temperature", {}):
                # weights in single precision
                tol += 1e-7 * m.mob * m.mp["Temperature"]["latent_heat"] if m.nphi else 0.0
                if m.heat and j:
                    tol += 1e-7 * (scale(f[0]) + m.mob * m.mp["Temperature"]["latent_heat"]) * \
                        1e-6 / eqs.MV / m.mp["Temperature"]["cp"]["SpeciesA"]["a"]
            if m.nq and m.mp["orient_grad_floor_type"] == "tanh":
                tol += 1e-6 * max(scale(e), scale(f[j]))       # series with a truncation error below 1e-7
            g.close(f[j], e, tol, key, "%s: time derivative of the %s (field %d of %d) at state %d"
                    % (m.family, names[j], j, len(y), i))
            if scale(e) > 0:
                g.nontrivial = True


@simspec("C42", weight=0.3)
def sim_equations(g):
    """every family, every field"""
    m = models.make(g)
    models.boundaries(g, m)
    models.rigid(g, m)
    equations(g, m, "equations")


def part(prop, name, families, fields, doc, weight=0.2, motion=False, **kw):
    """the part of the equations that a property is about, as whole runs use it"""
    def fn(g):
        m = models.make(g, families, **kw)
        models.boundaries(g, m)
        if motion:
            models.rigid(g, m, always=True)
        equations(g, m, name.replace("_", "-"), fields)
    fn.__name__ = "sim_" + name
    fn.__doc__ = doc
    simspec(prop, weight=weight)(fn)


part("C10", "phase_flux", ["pure", "heat", "three", "multi"], "phase", "interface terms in the rate of the phase")
part("C11", "two_phase_rates", ["pure", "heat", "quadratic1", "dilute"], "phase", "driving forces of two-phase models")
part("C12", "grain_rates", ["multi", "three", "wang", "sintering", "quadraticn"], "phase", "rates of several order parameters")
part("C13", "temperature_rates", ["heat", "dilute", "quadratic"], "temperature", "heat equation and prescribed temperatures")
part("C14", "composition_rates", ["quadratic", "dilute", "sintering", "cahnhilliard", "wang"], "concentration",
     "rates of the composition")
part("C18", "orientation_rates", ["orient"], "quat", "orientation mobility in the rate of the orientation")
part("C09", "orientation_gradients", ["orient"], None, "orientation gradients in the rates of phase and orientation")
part("C20", "moving_grains", ["multi", "wang", "quadraticn"], None, "rigid-body motion of grains", motion=True)


def diagnosed(g, m, key, n=2, **block):
    """runs with diagnostics at every cycle: [(state, {name: value})]"""
    def look(W, t, h, Y, F):
        return t, h, [W.field(i) for i in Y], [W.field(i) for i in F], W.field(W.id("temperature"))
    d = dict(interval=1, interval_type="step", include_first_step=True, **block)
    r = go(g, m, key, inp=m.inp(n, ScalarDiagnostics=d), fixed=H, cuts=models.cuts(g, m), observe=look, maxstates=n)
    s = [x[:5] for x in r.states]
    order = [k for k, on in (("phase", m.nphi), ("quat", m.nq), ("temperature", m.heat), ("concentration", m.nconc)) if on]
    s.append((n * H, H, [r.final[k] for k in order], None, r.final["temperature"]))
    seen = {}
    for l in r.out.splitlines():
        if "=" in l and l.split("=")[0].strip()[:1] != "#":
            k, v = l.split("=", 1)
            try:
                seen.setdefault(" ".join(k.split()), []).append(float(v))
            except ValueError:
                pass
    g.check(len(seen.get("Total energy [pJ]", [])) == n + 1, key, "%d energies reported for %d states" %
            (len(seen.get("Total energy [pJ]", [])), n + 1))
    return s, seen


def reported(g, key, m, seen, name, i, exp, digits, size=0.0):
    v = seen.get(name, [])
    g.check(len(v) > i, key, "%s model: %s is not reported at cycle %d" % (m.family, name, i))
    g.close(v[i], float(exp), 10.0 ** -digits * abs(float(exp)) + 1e-10 * size, key, "%s model: %s at cycle %d" % (m.family, name, i))
    g.nontrivial = True


@simspec("C19", weight=0.2)
def sim_energies(g):
    """the energies a run reports are those of its states"""
    m = models.make(g, ["pure", "heat", "quadratic1", "dilute", "orient"])
    models.boundaries(g, m)
    detail = bool(g.bool())
    S, seen = diagnosed(g, m, "energies", extra_energy_detail=detail)
    if not m.nphi:
        return
    E, V = eqs.Equations(m), float(np.prod(m.dx))
    for i, (t, _, y, _, T) in enumerate(S):
        e = E.energies(t, y, T)
        if e is None:
            return
        x = {k: float(np.sum(v)) * V for k, v in e.items()}
        size = sum(np.abs(v).sum() for v in e.values()) * V
        dg = 7 if detail else 5
        reported(g, "energies", m, seen, "Total energy [pJ]", i, sum(x.values()), dg, size)
        if detail:
            for k in x:
                reported(g, "energies", m, seen, k + " energy [pJ]", i, x[k], dg, size)


@simspec("C39", weight=0.3)
def sim_diagnostics(g):
    """temperatures, volume fractions, mobility, compositions, thermal energy and
    density a run reports are those of its states"""
    m = models.make(g)
    models.boundaries(g, m)
    block = {}
    if m.nphi > 1 and m.family not in ("three", "wang") and g.bool():     # the last one is the void
        block["domain_fraction"] = [g.real(0.3, 1.0) for _ in range(m.dim)]
    S, seen = diagnosed(g, m, "diagnostics", extra_energy_detail=True, **block)
    V = float(np.prod(m.dx))
    vol = V * np.prod(m.n)
    for i, (t, _, y, _, T) in enumerate(S):
        R = lambda name, x, size=0.0, d=7: reported(g, "diagnostics", m, seen, name, i, x, d, size)
        R("Min. Temperature", T.min())
        R("Max. Temperature", T.max())
        R("Average Temperature", T.mean())
        p = y[0] if m.nphi else None
        if m.nphi == 1:
            R("Volume fraction of solid phase", np.abs(p).sum() * V / vol)
        for k in range(m.nphi if m.nphi > 1 else 0):
            R("Volume fraction of phase %d" % k, p[..., k].sum() * V / vol)
        if m.nphi and i and hasattr(m, "mob"):
            R("Max. Phase mobility", m.mob)
            R("Min. Phase mobility", m.mob)
        for k in range(m.nconc):
            c = y[-1][..., k]
            R("Integral concentration %d" % k, c.sum() * V, np.abs(c).sum() * V)
            R("Max. concentration %d" % k, c.max())
        if m.heat:
            d = m.mp["Temperature"]
            cp = d["cp"]["SpeciesA"]["a"] * 1e-6 / eqs.MV * (d["meltingT"] if m.rescaled else 1.0)
            L = d["latent_heat"] * 1e-6 / eqs.MV
            R("Thermal energy [pJ]", (cp * T - (L * p if m.nphi else 0)).sum() * V, (cp * T).sum() * V, 7 if i else 5)
        if "domain_fraction" in block:
            exp = []
            for shift in (0.0, 0.5):                # cells counted by their lower corner or their centre
                w = np.ones(m.n)
                for d, f in enumerate(block["domain_fraction"]):
                    L = m.n[d] * m.dx[d]
                    x = (np.arange(m.n[d]) + shift) * m.dx[d]
                    cut = 0.5 * L * (1 - f)
                    e = 1e-9 * L
                    if np.any(np.abs(x - cut) < e) or np.any(np.abs(x - L + cut) < e):
                        return
                    w = w * ((x >= cut) & (x <= L - cut)).reshape([-1 if k == d else 1 for k in range(m.dim)])
                if w.sum():
                    exp.append(1 - (w * p[..., -1]).sum() / w.sum())
            if exp:
                got = seen.get("Density", [])
                g.check(len(got) > i, "diagnostics", "the density is not reported at cycle %d" % i)
                R("Density", min(exp, key=lambda x: abs(x - got[i])), 1.0)
                g.label("density")
