"""utils/*.py: quaternion algebra, generators of initial conditions, text tools."""
import math, os
import numpy as np
from vf import build, pyrun
from vf.registry import spec

_Q = None


def Q():
    global _Q
    if _Q is None:
        _Q = pyrun.quatmod()
    return _Q


def ndimage():
    from scipy import ndimage as nd
    return nd


# ------------------------------------------------------------ quaternions

def mul(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) == 4:
        w = a[0] * b[0] - a[1:] @ b[1:]
        return np.concatenate([[w], a[0] * b[1:] + b[0] * a[1:] + np.cross(a[1:], b[1:])])
    return np.array([a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]])


def draw_q(g, n, unit=False):
    q = np.array([g.real(-2, 2, (0.0, 1.0, -1.0)) for _ in range(n)])
    if unit:
        m = np.linalg.norm(q)
        q = q / m if m > 1e-3 else np.eye(n)[0]
    return q


@spec("C29", dims=(2,), generic=False, weight=3, kernels=["cxx"])
def py_quaternion_algebra(g):
    m = Q()
    n = g.pick([4, 2])
    a, b, c = draw_q(g, n), draw_q(g, n), draw_q(g, n)
    a0, b0 = a.copy(), b.copy()
    out = np.zeros(n)
    m.multiplyQuat(a, b, out)
    g.calls += 1
    g.close(out, mul(a, b), 1e-13, "py:multiply", "%r * %r" % (a, b))
    r = m.multiplyQuat(a, b)
    g.check(r is not None, "py:multiply:return", "no result")
    g.close(r, mul(a, b), 1e-13, "py:multiply:return")
    g.check((a == a0).all() and (b == b0).all(), "py:multiply:operands", "operands changed")
    z = a.copy()
    m.multiplyQuat(z, b, z)
    g.close(z, mul(a, b), 1e-13, "py:multiply:inplace")
    g.close(m.rotateQuat(a, b), mul(a, b), 1e-13, "py:rotate")
    conj = m.conjugateQuat(a)
    g.check(conj is not None, "py:conjugate:return", "no result")
    g.close(conj, np.concatenate([a[:1], -a[1:]]), 0, "py:conjugate")
    m.conjugateQuat(b, out)
    g.close(out, np.concatenate([b[:1], -b[1:]]), 0, "py:conjugate:out")
    g.close(m.quatMagnitude(a), math.sqrt(a @ a), 1e-14, "py:magnitude")
    m.addQuat(a, b, out)
    g.close(out, a + b, 0, "py:add")
    m.subtractQuat(a, b, out)
    g.close(out, a - b, 0, "py:subtract")
    d = m.duplicateQuat(a)
    g.check((d == a).all() and d is not a and not np.shares_memory(d, a), "py:duplicate", repr(d))
    m.copyQuat(b, d)
    g.close(d, b, 0, "py:copy")
    z = a.copy()
    m.normalizeQuat(z)
    if a @ a > 1e-20:
        g.close(z, a / math.sqrt(a @ a), 1e-13, "py:normalize", repr(a))
    g.check((a == a0).all() and (b == b0).all(), "py:operands", "operands changed")
    mk = m.makeNormalizedQuat if n == 4 else m.makeNormalizedQuat2
    mq = m.makeQuat if n == 4 else m.makeQuat2
    g.close(mq(*a), a, 0, "py:make")
    if a @ a > 1e-20:
        g.close(mk(*a), a / math.sqrt(a @ a), 1e-13, "py:makeNormalized")
    # misorientation from the chord
    t = g.real(0, math.pi)
    g.close(m.quatAngle(2 * math.sin(t / 4)), t, 1e-7, "py:angle4")
    g.close(m.quatAngle2(2 * math.sin(t / 2)), t, 1e-6, "py:angle2")


def group(m, n):
    return [np.array(m.getQuatSymmetryRotation(i, n)) for i in range(m.getNumberSymmetryRotations(n))]


@spec("C29", dims=(2,), generic=False, weight=3, kernels=["cxx"])
def py_symmetry(g):
    m = Q()
    n = g.pick([4, 2])
    R = group(m, n)
    g.check(len(R) == {4: 48, 2: 4}[n], "py:group:size", str(len(R)))
    i, j = g.int(0, len(R) - 1), g.int(0, len(R) - 1)
    g.close(R[i] @ R[i], 1.0, 1e-14, "py:group:unit")
    if i != j:
        g.check(np.abs(R[i] - R[j]).max() > 0.1, "py:group:distinct", "%d %d" % (i, j))
    p = mul(R[i], R[j])
    g.check(min(np.abs(p - x).max() for x in R) < 1e-12, "py:group:closed", "%d*%d=%r" % (i, j, p))
    k = m.getQuatSymmetryRotationConjugateIdx(i, n)
    g.close(mul(R[i], R[k]), np.eye(n)[0], 1e-12, "py:group:inverse", "q%d * q%d" % (i, k))
    g.close(m.getQuatSymmetryRotationConjugate(i, n), R[k], 0, "py:group:conjugate")
    # nearest equivalent
    q1, q2 = draw_q(g, n, True), draw_q(g, n, True)
    near = g.pick([False, True])
    if near:
        q2 = mul(q1 + 0.1 * draw_q(g, n), R[i])
    b0, b1 = q1.copy(), q2.copy()
    hint = g.int(-len(R) - 2, len(R) + 2)
    s = m.quatSymm(q1, q2, hint)
    g.calls += 1
    g.check((q1 == b0).all() and (q2 == b1).all(), "py:symm:operands", "operands changed")
    u1, u2 = q1 / np.linalg.norm(q1), q2 / np.linalg.norm(q2)
    eq = [mul(q2, r) for r in R]
    g.check(min(np.abs(s - e).max() for e in eq) < 1e-12, "py:symm:equivalent", "%r is not equivalent to %r" % (s, q2))
    dist = [np.linalg.norm(mul(u2, r) - u1) for r in R]
    d = np.linalg.norm(s / np.linalg.norm(s) - u1)
    crit = 2 * math.sin(math.pi * (0.0625 if n == 4 else 0.125))
    g.check(d <= max(min(dist), crit) + 1e-9, "py:symm:nearest", "%r vs %r (hint %d)" % (d, min(dist), hint))
    g.nontrivial = g.nontrivial or d > 1e-3
    if n == 4:
        f = m.quatMakeFundamental(q2)
        e = np.eye(4)[0]
        df = np.linalg.norm(f / np.linalg.norm(f) - e)
        db = min(np.linalg.norm(mul(u2, r) - e) for r in R)
        g.check(df <= max(db, crit) + 1e-9, "py:fundamental", "%r vs %r" % (df, db))
        g.check(min(np.abs(f - x).max() for x in eq) < 1e-12, "py:fundamental:equivalent", repr(f))
    # chord and rotated orientation returned together
    dd, qq = m.quatDiff(q1, q2, R[j])
    g.close(qq, eq[j], 1e-12, "py:diff:rotated")
    g.close(dd, dist[j], 1e-12, "py:diff:chord")


@spec("C29", dims=(2,), generic=False, kernels=["cxx"])
def py_angles(g):
    m = Q()
    n = m.getNumberSymmetryRotations(1)
    i = g.int(0, n - 1)
    r = [m.getQuatSymmetryRotation(k, 1) for k in range(n)]
    g.close(r[i] / (math.pi / 2), round(r[i] / (math.pi / 2)), 1e-12, "py:angle:quarter")
    g.check(len({round(x, 6) for x in r}) == n, "py:angle:distinct", repr(r))
    g.close(r[i] + r[m.getQuatSymmetryRotationConjugateIdx(i, 1)], 0.0, 1e-12, "py:angle:inverse")
    g.close(m.getQuatSymmetryRotationConjugate(i, 1), -r[i], 1e-12, "py:angle:conjugate")
    a, b = g.real(-math.pi, math.pi), g.real(-math.pi, math.pi)
    s = m.quatSymm1(a, b, g.int(-n - 2, n + 2))
    g.check(s is not None, "py:angle:none", "quatSymm1(%r,%r)" % (a, b))
    k = (s - b) / (math.pi / 2)
    g.close(k, round(k), 1e-9, "py:angle:equivalent")
    g.check(abs(s - a) <= math.pi / 4 + 1e-9, "py:angle:nearest", "%r for %r" % (s, (a, b)))
    import random
    st = random.getstate()
    try:
        random.seed(g.int(0, 10 ** 6))
        q = np.array(m.getQuatRandom(a, 4))
        g.close(q @ q, 1.0, 1e-12, "py:random4:unit")
        q = np.array(m.getQuatRandom(a, 2))
        g.close(q, [math.cos(a), math.sin(a), 0, 0], 1e-14, "py:random2")
    finally:
        random.setstate(st)


# ------------------------------------------------------------- generators

def script(g, name, args):
    try:
        ds, out = pyrun.run(name, args)
    except pyrun.ScriptError as e:
        g.fail("py:%s:error" % name, "%s: %s" % (" ".join(map(str, args)), e))
    g.calls += 1
    if ds is None or not ds.closed:
        g.fail("py:%s:file" % name, "no complete file written")
    v = {k: x.a.astype(np.float64) for k, x in ds.variables.items()}
    for k, a in v.items():
        g.check(bool(np.isfinite(a).all()), "py:%s:finite" % name, k)
        g.check(ds.variables[k].dims == ("z", "y", "x"), "py:%s:dims" % name, repr(ds.variables[k].dims))
    return ds, v


def cells(nx, ny, nz):
    return np.meshgrid(np.arange(nz) + 0.5, np.arange(ny) + 0.5, np.arange(nx) + 0.5, indexing="ij")


def quats(v, n):
    return np.stack([v["quat%d" % (i + 1)] for i in range(n)])


def draw_conc(g, args, ns, allow=("none", "inout", "nom+in", "nom+out", "nom")):
    mode = g.pick(list(allow))
    S = lambda a: ",".join("%.6f" % x for x in a)
    ci = [round(g.real(0.02, 0.45), 4) for _ in range(ns)]
    co = [round(g.real(0.02, 0.45), 4) for _ in range(ns)]
    if ns > 1 and g.bool():
        ci[1], co[1] = ci[0], co[0]
    if mode in ("inout", "nom+in"):
        args += ["--concentration-in", S(ci)]
    if mode in ("inout", "nom+out"):
        args += ["--concentration-out", S(co)]
    if "nom" in mode:
        args += ["-c", S([0.5 * (a + b) for a, b in zip(ci, co)])]
    return mode, ci, co


def check_conc(g, name, v, mode, ci, co, ns, phi, exact=True, tol=3e-6):
    got = sorted(k for k in v if k.startswith("concentration"))
    if mode == "none":
        g.check(not got, "py:%s:species" % name, repr(got))
        return
    g.check(got == ["concentration%d" % s for s in range(ns)], "py:%s:species" % name,
            "%r for %d species" % (got, ns))
    vol, vs = phi.size, phi.sum()
    for s in range(ns):
        c = v["concentration%d" % s]
        nom = round(0.5 * (ci[s] + co[s]), 6)
        a, b = ci[s], co[s]
        if mode == "nom":
            a = b = nom
        elif mode == "nom+in" and vol > vs * (1 + 1e-9):
            b = (nom * vol - a * vs) / (vol - vs)
        elif mode == "nom+out" and vs > 0:
            a = (nom * vol - b * (vol - vs)) / vs
        elif mode != "inout":
            continue
        sc = 1 + abs(a) + abs(b)
        if exact:
            g.close(c, a * phi + b * (1 - phi), tol * sc, "py:%s:mixture" % name, "%s species %d" % (mode, s))
        if "nom" in mode:
            g.close(c.mean(), nom, tol * sc, "py:%s:conserved" % name, "%s species %d" % (mode, s))


@spec("C30", dims=(2,), generic=False, weight=0.8, kernels=["cxx"])
def py_one_nucleus(g):
    three = g.pick([False, False, True])
    nx, ny = g.int(6, 16), g.int(6, 16)
    nz = g.int(4, 8) if three else 1
    r = g.int(1, 5)
    args = ["-x", nx, "-y", ny, "-z", nz, "-r", r]
    if g.bool():
        args += ["--double"]
    per = g.bool()
    if per:
        args += ["--periodic", "0,0,0"]
        c = [g.real(0, nx), g.real(0, ny), g.real(0, nz)]
    else:
        c = [nx / 2, ny / 2, nz / 2]
    c = [round(x, 3) for x in c]
    if g.bool() or per:
        args += ["--center0", ",".join("%.3f" % x for x in (c if nz > 1 else c[:2]))]
    if nz == 1:
        c[2] = 1.0
    elif not any(a == "--center0" for a in args):
        c[2] = nz / 2
    w = g.pick([0.0, 0.5, 1.0])
    if w:
        args += ["-w", w]
    pin, pout = 1.0, 0.0
    if g.pick([False, False, True]):
        pin, pout = round(g.real(0.5, 1), 3), (round(g.real(0, 0.3), 3) if not w else 0.0)
        args += ["-i", pin, "-o", pout]
    ql = g.pick([0, 2, 4, 1])
    args += ["-q", ql]
    q0 = None
    qo = None
    if ql and g.bool():
        q0 = [round(g.real(-1, 1), 3) for _ in range(ql)]
        args += ["--quat0=" + ",".join(map(str, q0))]
    if ql and g.bool():
        qo = [round(g.real(-1, 1), 3) for _ in range(ql)]
        args += ["--quat-out=" + ",".join(map(str, qo))]
    ns = g.int(1, 3)
    mode, ci, co = draw_conc(g, args, ns)
    tin = tout = None
    if g.pick([False, False, True]):
        tin, tout = 900.0, 1200.0
        args += ["--temperature-in", tin, "--temperature-out", tout]
    ds, v = script(g, "make_nuclei.py", args + ["out.nc"])
    g.label("conc:" + mode)
    g.check(v["phase"].shape == (nz, ny, nx), "py:nuclei:shape", repr(v["phase"].shape))
    Z, Y, X = cells(nx, ny, nz)
    d = np.sqrt((X - c[0]) ** 2 + (Y - c[1]) ** 2 + (Z - c[2]) ** 2)
    d2 = np.sqrt((X - c[0]) ** 2 + (Y - c[1]) ** 2)   # 2D runs: distance in the plane
    ph = v["phase"]
    if nz > 1:
        d2 = d
    if w == 0:
        sure_in, sure_out = d < r - 1e-9, d2 > r + 1e-9
        g.check(np.abs(ph[sure_in] - pin).max(initial=0) < 1e-6, "py:nuclei:inside", repr(args))
        g.check(np.abs(ph[sure_out] - pout).max(initial=0) < 1e-6, "py:nuclei:outside", repr(args))
    else:
        hi = pin * 0.5 * (1 + np.tanh(-(d2 - r) / (2 * w)))
        lo = pin * 0.5 * (1 + np.tanh(-(d - r) / (2 * w)))
        near = d < r + 4.9 * w
        g.check((ph <= hi + 1e-6).all() and (ph[near] >= lo[near] - 1e-6).all(), "py:nuclei:profile", repr(args))
    g.nontrivial = bool(ph.max() > ph.min())
    g.compared += ph.size
    if ql:
        q = quats(v, ql)
        inside = d < r - 1e-9
        if q0 is not None and (qo is None or inside.any()):
            m = inside if qo is not None else np.ones_like(inside)
            for k in range(ql):
                g.check(np.abs(q[k][m] - q0[k]).max(initial=0) < 1e-6, "py:nuclei:quat0", repr(args))
        if qo is not None:
            out = d2 > r + 1e-9
            for k in range(ql):
                g.check(np.abs(q[k][out] - qo[k]).max(initial=0) < 1e-6, "py:nuclei:quat-out", repr(args))
        if q0 is None and ql > 1:
            m = inside if qo is not None else np.ones_like(inside)
            g.check(np.abs((q ** 2).sum(0)[m] - 1).max(initial=0) < 1e-5, "py:nuclei:unit", repr(args))
    check_conc(g, "nuclei", v, mode, ci, co, ns, ph)
    if tin is not None:
        t = v["temperature"]
        g.check((t[d < r - 1e-9] == tin).all() and (t[d2 > r + 1e-9] == tout).all(), "py:nuclei:temperature", repr(args))
    else:
        g.check("temperature" not in v, "py:nuclei:temperature:absent", "")


@spec("C30", dims=(2,), generic=False, weight=0.3, kernels=["cxx"])
def py_many_nuclei(g):
    n = g.pick([2, 4, 9, 3, 5])
    r = g.int(1, 2)
    side = {2: 15, 4: 10, 9: 15, 3: 14, 5: 16}[n] * r
    nx, ny = side + g.int(0, 4), side + g.int(0, 4)
    if n == 2:
        nx, ny = nx // 3 * 3, ny // 3 * 3
    ql = g.pick([4, 2])
    args = ["--ngrains", n, "-x", nx, "-y", ny, "-z", 1, "-r", r, "-q", ql, "--jitter-factor", round(g.real(0, 0.25), 3)]
    sym = n != 2 and g.bool()
    if sym:
        args += ["-s"]
    qo = None
    if g.bool():
        qo = [1.0] + [0.0] * (ql - 1)
        args += ["--quat-out=" + ",".join(map(str, qo))]
    w = g.pick([0.0, 0.0, 0.5])
    if w:
        args += ["-w", w]
    ns = g.int(1, 3)
    mode, ci, co = draw_conc(g, args, ns)
    ds, v = script(g, "make_nuclei.py", args + ["out.nc"])
    ph = v["phase"]
    nd = ndimage()
    lab, cnt = nd.label(ph[0] > 0.5)
    q = quats(v, ql)
    nrm = (q ** 2).sum(0)
    g.check(np.abs(nrm - 1).max() < 1e-5, "py:nuclei:unit", repr(args))
    area = 0
    if n in (2, 4, 9):
        g.check(cnt == n, "py:nuclei:count", "%d grains for %r" % (cnt, args))
    for k in range(1, cnt + 1):
        m = lab == k
        a = int(m.sum())
        rr = math.sqrt(a / math.pi)
        yy, xx = np.nonzero(m)
        touch = xx.min() == 0 or yy.min() == 0 or xx.max() == nx - 1 or yy.max() == ny - 1
        if not touch:
            ok = abs(rr - r) < 0.75 or (n == 2 and abs(rr - 1.5 * r) < 0.75)
            g.check(ok, "py:nuclei:size", "%d cells for radius %d" % (a, r))
            ext = max(np.ptp(xx), np.ptp(yy)) + 1
            g.check(ext <= 2 * (1.5 if n == 2 else 1) * r + 1, "py:nuclei:extent", "%d" % ext)
        qq = q[:, 0][:, m]
        g.check(np.abs(qq - qq[:, :1]).max() < 1e-6, "py:nuclei:one orientation", "grain %d of %r" % (k, args))
        if sym:
            R = group(Q(), ql)
            u = qq[:, 0]
            d = np.linalg.norm(u - np.eye(ql)[0])
            best = min(np.linalg.norm(mul(u, x) - np.eye(ql)[0]) for x in R)
            crit = 2 * math.sin(math.pi * (0.0625 if ql == 4 else 0.125))
            g.check(d <= max(best, crit) + 1e-5, "py:nuclei:fundamental", repr(u))
    if qo is not None and w == 0:
        far = nd.distance_transform_edt(ph[0] <= 0.5) > 1.5 if cnt else np.ones_like(lab, bool)
        for k in range(ql):
            g.check(np.abs(q[k, 0][far] - qo[k]).max(initial=0) < 1e-6, "py:nuclei:quat-out", repr(args))
    check_conc(g, "nuclei", v, mode, ci, co, ns, ph)
    g.compared += ph.size
    g.nontrivial = cnt > 1
    g.label("%d grains" % n)


@spec("C30", dims=(2,), generic=False, weight=0.6, kernels=["cxx"])
def py_spheres_list(g):
    three = g.pick([False, False, True])
    nx, ny = g.int(5, 14), g.int(5, 14)
    nz = g.int(3, 7) if three else 1
    n = g.int(1, 3)
    S = []
    for _ in range(n):
        S.append(([round(g.real(0, k), 2) for k in (nx, ny, nz)], round(g.real(1, 4), 2), g.pick(["A", "B", None])))
    path = os.path.join(build.scratch(), "spheres%d.csv" % os.getpid())
    with open(path, "w") as fh:
        for c, r, p in S:
            fh.write(", ".join(map(str, c + [r] + ([p] if p else []))) + "\n")
    w = g.pick([0.0, 0.5, 1.0])
    args = ["--spheres", path, "-x", nx, "-y", ny, "-z", nz, "--periodic", "0,0,0"]
    if w:
        args += ["-w", w]
    ns = g.int(0, 2)
    T = lambda a: ",".join(map(str, a))
    A, B, L = ([round(g.real(0.01, 0.5), 3) for _ in range(ns)] for _ in range(3))
    if ns:
        if ns > 1 and g.bool():
            A[1] = A[0]
        args += ["--concentration-A", T(A), "--concentration-B", T(B), "--concentration-out", T(L)]
    ds, v = script(g, "make_multi_spheres.py", args + ["out.nc"])
    Z, Y, X = cells(nx, ny, nz)
    g.check(sorted(k for k in v if k.startswith("phase")) == sorted("phase%d" % i for i in range(n)), "py:spheres:phases", repr(list(v)))
    own = np.full((nz, ny, nx), -1)
    unsure = np.zeros((nz, ny, nx), bool)
    for i, (c, r, p) in enumerate(S):
        d2 = np.sqrt((X - c[0]) ** 2 + (Y - c[1]) ** 2 + (0 if nz == 1 else (Z - c[2]) ** 2))
        d = np.sqrt((X - c[0]) ** 2 + (Y - c[1]) ** 2 + (0.25 if nz == 1 else (Z - c[2]) ** 2))
        ph = v["phase%d" % i]
        if w == 0:
            g.check((ph[d < r - 1e-9] == 1).all() and (ph[d2 > r + 1e-9] == 0).all(), "py:spheres:phase", "%d of %r" % (i, S))
        else:
            hi = 0.5 * (1 + np.tanh(-(d2 - r) / (2 * w)))
            lo = 0.5 * (1 + np.tanh(-(d - r) / (2 * w)))
            near = (d < r + 4.9 * w) & (d > r - 7.9 * w)
            g.check((ph <= np.where(d <= r - 7.9 * w, 1, hi) + 1e-6).all() and (ph[near] >= lo[near] - 1e-6).all(),
                    "py:spheres:profile", "%d of %r" % (i, S))
        own[d < r - 1e-9] = i
        unsure |= (d >= r - 1e-9) & (d2 <= r + 1e-9)
        unsure[d < r - 1e-9] = False
        g.nontrivial |= bool(ph.max() > ph.min())
    g.check(sorted(k for k in v if k.startswith("conc")) == ["concentration%d" % s for s in range(ns)],
            "py:spheres:species", "%r for %d species" % (list(v), ns))
    for s in range(ns):
        e = np.full(own.shape, L[s])
        for i, (c, r, p) in enumerate(S):
            e[own == i] = B[s] if p == "B" else A[s]
        g.check(np.abs(v["concentration%d" % s] - e)[~unsure].max(initial=0) < 1e-6, "py:spheres:concentration", repr(args))
    g.compared += own.size


@spec("C30", dims=(2,), generic=False, weight=0.6, kernels=["cxx"])
def py_bilayer(g):
    n = [2 * g.int(2, 8), 2 * g.int(1, 4), g.pick([1, 2, 4])]
    o = g.pick([0, 1, 2])
    n[0], n[o] = n[o], n[0]
    if n[o] < 4:
        n[o] = 8
    nx, ny, nz = n
    two = g.pick([False, False, True])
    r = g.int(1, max(1, n[o] // 2 - 1)) if not two else g.int(1, max(1, n[o] // 8))
    args = ["-x", nx, "-y", ny, "-z", nz, "-r", r, "--orient", "xyz"[o]]
    if two:
        args += ["-2"]
    dl = g.pick([0, 0, 1, 2]) if not two else 0
    args += ["-d", dl]
    ql = g.pick([4, 2, 1])
    args += ["--qlen", ql]
    T = lambda a: ",".join("%.4f" % x for x in a)
    qi = qt = qo = None
    if ql == 1:
        a = [round(g.real(-180, 180), 2) for _ in range(3)]
        if g.bool():
            args += ["--angle-in=%r" % a[0], "--angle-out=%r" % a[1]] + (["--angle-in-two=%r" % a[2]] if two else [])
            qi, qt = [math.radians(a[0])], [math.radians(a[2])]
    elif g.bool():
        qi, qo, qt = (draw_q(g, ql, True) for _ in range(3))
        args += ["--quat-in=" + T(qi), "--quat-out=" + T(qo)] + (["--quat-in-two=" + T(qt)] if two else [])
    pin, pout = 1.0, 0.0
    if g.pick([False, False, True]):
        pin, pout = round(g.real(0.5, 1), 3), round(g.real(0, 0.3), 3)
        args += ["-i", pin, "-o", pout]
    c0 = n[o] / 2
    if not two and g.pick([False, True]):
        c0 = float(g.int(0, n[o]))
        args += ["--center" + "xyz"[o], c0]
    ns = g.int(1, 3)
    # the nominal composition is split using the sharp volume of whole layers
    whole = dl == 0 and (two or (c0 - r >= 0 and c0 + r <= n[o])) and (not two or n[o] % 4 == 0)
    mode, ci, co = draw_conc(g, args, ns, ("none", "inout", "nom+in", "nom+out", "nom") if whole else ("none", "inout", "nom"))
    T0 = gx = None
    if g.pick([False, False, True]):
        T0, gx = round(g.real(300, 900), 2), round(g.real(-5, 5), 2)
        args += ["--temperature0", T0, "--gradxT=%r" % gx]
    ds, v = script(g, "make_bilayer.py", args + ["out.nc"])
    Z, Y, X = cells(nx, ny, nz)
    x = (X, Y, Z)[o]
    if two and o == 2:
        return          # both layers share their centre along z
    cs = [c0 / 2, 3 * c0 / 2] if two else [c0]
    d = [np.abs(x - c) - r for c in cs]
    f = (lambda a: 0.5 * (1 - np.tanh(0.5 * a / dl))) if dl else (lambda a: (a <= 0) * 1.0)
    phi = np.max([f(a) for a in d], axis=0)
    edge = np.min(np.abs(d), axis=0) < 1e-9 if not dl else np.zeros_like(phi, bool)
    exp = phi * pin + (1 - phi) * pout
    g.check(v["phase"].shape == (nz, ny, nx), "py:bilayer:shape", repr(v["phase"].shape))
    g.check(np.abs(v["phase"] - exp)[~edge].max(initial=0) < 2e-6, "py:bilayer:phase", repr(args))
    g.nontrivial = bool(exp.max() > exp.min())
    g.compared += exp.size
    if not edge.any():
        check_conc(g, "bilayer", v, mode, ci, co, ns, phi)
    q = quats(v, ql)
    if ql > 1:
        g.check(np.abs((q ** 2).sum(0) - 1).max() < 1e-5, "py:bilayer:unit", repr(args))
    if qi is not None:
        if two:
            nearer = np.abs(x - cs[1]) < np.abs(x - cs[0])
            tie = np.abs(np.abs(x - cs[1]) - np.abs(x - cs[0])) < 1e-9
            for k in range(ql):
                e = np.where(nearer, qt[k], qi[k])
                g.check(np.abs(q[k] - e)[~tie].max(initial=0) < 2e-4, "py:bilayer:orientation", repr(args))
        else:
            for k in range(ql):
                g.check(np.abs(q[k] - qi[k]).max() < 2e-4, "py:bilayer:orientation", repr(args))
    if T0 is not None:
        g.close(v["temperature"], T0 + gx * (X - 0.5 * nx), 1e-3, "py:bilayer:temperature", repr(args))


@spec("C30", dims=(2,), generic=False, weight=0.5, kernels=["cxx"])
def py_spheres(g):
    nx, ny, nz = g.int(6, 14), g.int(6, 14), g.pick([1, 2, 6])
    two = g.bool()
    r = g.int(1, 4) if not two else g.int(1, 2)
    args = ["-x", nx, "-y", ny, "-z", nz, "-r", r]
    ql = g.pick([4, 2, 1])
    args += ["--qlen", ql]
    T = lambda a: ",".join("%.5f" % x for x in a)
    qi = [draw_q(g, ql, True) for _ in range(3)] if ql > 1 else [[g.real(-3, 3)] for _ in range(3)]
    if two or g.bool():
        if ql == 1:
            args += ["--angle-in=%r" % math.degrees(qi[0][0]), "--angle-out=%r" % math.degrees(qi[2][0])]
            if two:
                args += ["--angle-in-two=%r" % math.degrees(qi[1][0])]
        else:
            args += ["--quat-in=" + T(qi[0]), "--quat-out=" + T(qi[2])]
            if two:
                args += ["--quat-in-two=" + T(qi[1])]
    else:
        a = round(g.real(5, 85), 2)
        args += ["-a", a]
        h = math.radians(a)
        if ql == 1:
            qi = [[h], None, [0.0]]
        else:
            qi = [np.array([math.cos(h / 2), math.sin(h / 2)] + [0.0] * (ql - 2)), None, np.eye(ql)[0]]
    cc = [nx / 2, ny / 2, nz / 2]
    rr = [r]
    if two:
        args += ["-2", "--ratio", 1.5]
        cc = None
        C = [(nx / 4, ny / 4, nz / 2), (3 * nx / 4, 3 * ny / 4, nz / 2)]
        rr = [r, 1.5 * r]
    else:
        if g.bool():
            k = g.int(0, nx)
            args += ["--cx", k]
            cc[0] = k
        C = [cc]
    ci, co = round(g.real(0.02, 0.5), 3), round(g.real(0.02, 0.5), 3)
    args += ["-c", ci, "--concentration-out", co]
    pin, pout = 1.0, 0.0
    if g.bool():
        pin, pout = round(g.real(0.5, 1), 3), round(g.real(0, 0.4), 3)
        args += ["-i", pin, "-o", pout]
    if two:
        args.insert(0, "-2") if "-2" not in args else None
    ds, v = script(g, "make_sphere.py", args + ["out.nc"])
    Z, Y, X = cells(nx, ny, nz)
    own = np.full(X.shape, 2)
    edge = np.zeros(X.shape, bool)
    for i, (c, R) in enumerate(zip(C, rr)):
        d = (X - c[0]) ** 2 + (Y - c[1]) ** 2 + (Z - c[2]) ** 2 - R * R
        own[d < 0] = i
        edge |= np.abs(d) < 1e-9
    ok = ~edge
    ins = own < 2
    g.check(np.abs(v["phase"] - np.where(ins, pin, pout))[ok].max() < 1e-9, "py:sphere:phase", repr(args))
    g.check(np.abs(v["concentration"] - np.where(ins, ci, co))[ok].max() < 1e-9, "py:sphere:concentration", repr(args))
    q = quats(v, ql)
    for k in range(ql):
        e = np.zeros(X.shape)
        for i in (0, 1, 2):
            if qi[i] is not None:
                e[own == i] = qi[i][k]
        g.check(np.abs(q[k] - e)[ok].max() < 1e-4, "py:sphere:orientation", repr(args))
    g.nontrivial = bool(ins.any() and not ins.all())
    g.compared += X.size


@spec("C30", dims=(2,), generic=False, weight=0.5, kernels=["cxx"])
def py_grains_on_boundary(g):
    plane = g.pick([0, 1, 2])
    n = [g.int(6, 14), g.int(6, 14), g.int(2, 6)]
    three = plane == 2 or g.bool()
    if not three:
        n[2] = 1
    nx, ny, nz = n
    ng = g.int(1, 3)
    sf = round(g.real(0.05, 0.6), 3)
    w = g.pick([0.0, 2.0])
    ql = g.pick([4, 2, 0])
    args = ["--ngrains", ng, "-d", 3 if three else 2, "-x", nx, "-y", ny, "-z", nz, "-q", ql, "--plane", plane,
            "--solid-fraction", sf, "-w", w]
    qi = None
    if ng == 1 and ql and g.bool():
        qi = draw_q(g, ql, True)
        args += ["--quatin=" + ",".join("%.5f" % x for x in qi)]
    smooth = g.bool()
    args += ["--smooth", int(smooth)]
    ns = g.int(1, 2)
    mode, ci, co = draw_conc(g, args, ns, ("none", "inout", "nom+in"))
    ds, v = script(g, "make_initial_grains_on_boundary.py", args + ["out.nc"])
    Z, Y, X = cells(nx, ny, nz)
    x = (X, Y, Z)
    d0 = 1 if plane == 0 else 0
    y = x[plane] / n[plane]
    d = y - sf
    phi = np.where(d < 0.1, 0.5 * (1 - np.tanh(3 * d / (w / n[plane]))), 0.0) if w else (d < 0) * 1.0
    for k in range(1, ng):
        dist = np.abs(x[d0] / n[d0] - k / ng) * n[d0]
        phi = np.where(dist < 5, phi * np.sin(0.5 * np.pi * dist / 5) ** 2, phi)
    edge = (np.abs(d) < 1e-9) if not w else np.abs(d - 0.1) < 1e-9
    for k in range(1, ng):
        edge |= np.abs(np.abs(x[d0] / n[d0] - k / ng) * n[d0] - 5) < 1e-9
    g.check(np.abs(v["phase"] - phi)[~edge].max(initial=0) < 2e-6, "py:boundary:phase", repr(args))
    g.compared += phi.size
    g.nontrivial = bool(phi.max() > phi.min())
    if mode != "none":
        g.check(sorted(k for k in v if k.startswith("conc")) == ["concentration%d" % s for s in range(ns)],
                "py:boundary:species", repr(list(v)))
        for s in range(ns):
            a, b = ci[s], co[s]
            if mode == "nom+in":
                b = (round(0.5 * (ci[s] + co[s]), 6) - a * sf) / (1 - sf)
            g.close(v["concentration%d" % s], a * v["phase"] + b * (1 - v["phase"]), 3e-6 * (1 + abs(b)), "py:boundary:mixture", repr(args))
    if ql:
        q = quats(v, ql)
        solid = v["phase"] >= 0.1
        if qi is not None and smooth:
            for k in range(ql):
                g.check(np.abs(q[k] - qi[k]).max() < 1e-4, "py:boundary:orientation", repr(args))
        if not smooth:
            g.check(np.abs((q ** 2).sum(0) - 1).max() < 1e-5, "py:boundary:unit", repr(args))
            # each slab of equal width carries one orientation
            slab = np.floor(x[d0] / n[d0] * ng).astype(int) if ng > 1 else np.zeros(X.shape, int)
            frac = x[d0] / n[d0] * ng
            ok = solid & (np.abs(frac - np.round(frac)) > 1e-9)
            if plane != 0:
                for k in range(ng):
                    m = ok & (slab == k)
                    if m.any():
                        qq = q[:, m]
                        g.check(np.abs(qq - qq[:, :1]).max() < 1e-6, "py:boundary:slab", repr(args))
        else:
            g.check((q ** 2).sum(0).max() < 1 + 1e-5, "py:boundary:smooth bound", repr(args))


@spec("C30", dims=(2,), generic=False, weight=0.2, kernels=["cxx"])
def py_four_corners(g):
    nx, ny, nz = g.int(2, 14), g.int(2, 14), g.pick([1, 2])
    ql = g.pick([4, 2])
    ds, v = script(g, "make4corners.py", ["-x", nx, "-y", ny, "-z", nz, "-q", ql, "out.nc"])
    Z, Y, X = cells(nx, ny, nz)
    own = np.zeros(X.shape, bool)
    edge = np.zeros(X.shape, bool)
    for cx in (0, nx):
        for cy in (0, ny):
            d = np.sqrt((X - cx) ** 2 + (Y - cy) ** 2 + (Z - 0.5) ** 2) - nx / 2
            own |= d <= 0
            edge |= np.abs(d) < 1e-9
    g.check((v["phase"] == own)[~edge].all(), "py:corners:phase", "%d %d %d" % (nx, ny, nz))
    g.compared += own.size
    g.nontrivial = True


# ------------------------------------------------------------- text tools

WORDS = ["dt", "end_time", "x_lo", "phase_mobility", "}", "{", "Database", "# comment", "a_b"]


@spec("C31", dims=(2,), generic=False, weight=2, kernels=["cxx"])
def py_substitute(g):
    n = g.int(1, 12)
    lines = []
    for _ in range(n):
        k = g.pick(["param", "text", "blank", "other"])
        if k == "param":
            lines.append("%s%s = %s%s" % (" " * g.int(0, 4), "target", g.pick(["1.5", "TRUE", '"x"', "0., 1."]), g.pick(["", "   // note"])))
        elif k == "other":
            lines.append("  %s = %d" % (g.pick(["target2", "mytarget", "dt", "Target"]), g.int(0, 99)))
        elif k == "text":
            lines.append(g.pick(["Section {", "}", "// target = 3", "   "]))
        else:
            lines.append("")
    path = os.path.join(build.scratch(), "in%d.input" % os.getpid())
    with open(path, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    val = g.pick(["7.25", "FALSE", '"new"', "-1.e-3"])
    try:
        _, out = pyrun.run("substituteInputParameter.py", [path, "target", val])
    except pyrun.ScriptError as e:
        g.fail("py:substitute:error", str(e))
    g.calls += 1
    got = out.split("\n")
    g.check(len(got) == len(lines) + 1 and got[-1] == "", "py:substitute:lines", "%d lines from %d" % (len(got) - 1, len(lines)))
    hit = 0
    for a, b in zip(lines, got):
        w = a.split()
        if w and w[0] == "target":
            hit += 1
            w[2] = val
            g.check(b.split() == w, "py:substitute:value", "%r -> %r" % (a, b))
        else:
            g.check(a == b, "py:substitute:other", "%r -> %r" % (a, b))
    g.compared += n
    g.nontrivial = hit > 0
    g.label("%d occurrences" % min(hit, 2))


@spec("C31", dims=(2,), generic=False, weight=2, kernels=["cxx"])
def py_volume_fraction(g):
    """the time series extracted from a log is the one printed in it"""
    n = g.int(1, 10)
    t, exp, L = 0.0, [], ["AMPE: git_version deadbeef"]
    for k in range(n):
        t = t + g.real(1e-6, 1e-2)
        L.append("cycle # %d : t = %.10g" % (k, t))
        for _ in range(g.int(0, 3)):
            L.append(g.pick(["Total energy [pJ]= 1.2", "Number of vector points = 3", "mobility 1"]))
        if g.pick([True, True, False]):
            v = g.real(0, 1)
            L.append("Volume fraction of phase 0 = %.10g" % v)
            exp.append((float("%.10g" % t), float("%.10g" % v)))
    path = os.path.join(build.scratch(), "log%d" % os.getpid())
    with open(path, "w") as fh:
        fh.write("\n".join(L) + "\n")
    try:
        _, out = pyrun.run("volfracvstime.py", [path])
    except pyrun.ScriptError as e:
        g.fail("py:volfrac:error", str(e))
    g.calls += 1
    rows = [tuple(map(float, l.split(","))) for l in out.splitlines() if l and not l.startswith("#")]
    g.check(len(rows) == len(exp), "py:volfrac:rows", "%d of %d" % (len(rows), len(exp)))
    for a, b in zip(rows, exp):
        g.close(a, b, 1e-12, "py:volfrac:value")
    g.nontrivial = bool(exp)
