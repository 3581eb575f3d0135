"""Interpolation, well, average functions; three-phase tilting and weights."""
import ctypes
import numpy as np
from vf import ref
from vf.registry import spec

FD = [(1, 45.0 / 60), (2, -9.0 / 60), (3, 1.0 / 60)]    # 6th order central difference


def derivative(f, x, h=2e-3):
    return sum(c * (f(x + k * h) - f(x - k * h)) for k, c in FD) / h


def phis(g):
    """arguments: inside, at the ends, beyond, close to the ends"""
    return [g.real(-0.4, 1.4, (0.0, 1.0, 0.5, 1e-9, 1 - 1e-9, -1e-9, 1 + 1e-9)) for _ in range(6)]


def name_of(g, t):
    """type strings come whole from the input file or as one letter"""
    return ref.NAMES[t] if g.bool() else t


@spec("C01", dims=(2,), generic=False, weight=4)
def interp_values(g):
    t = g.pick(ref.INTERP)
    nm = name_of(g, t)
    for x in phis(g):
        a = np.array(x)
        g.close(g.fun("interp_func", x, nm), ref.interp(a, t), 1e-12 * (1 + abs(x)), "interp_func:" + t, "h(%r)" % x)
        if not (t == "l" and x in (0.0, 1.0)):
            g.close(g.fun("deriv_interp_func", x, nm), ref.dinterp(a, t), 1e-11, "deriv_interp_func:" + t, "h'(%r)" % x)
        if t in "qphwlc" and 0 < x < 1:
            g.close(g.fun("second_deriv_interp_func", x, nm), ref.d2interp_inner(a, t), 1e-10,
                    "second_deriv_interp_func:" + t, "h''(%r)" % x)
    g.label(t)


@spec("C01", dims=(2,), generic=False, weight=3)
def interp_laws(g):
    t = g.pick(ref.INTERP)
    nm = name_of(g, t)
    h = lambda x: g.fun("interp_func", x, nm)
    dh = lambda x: g.fun("deriv_interp_func", x, nm)
    # end points, monotonicity, saturation
    if t != "c":
        g.close(h(0.0), 0.0, 1e-14, "interp:h(0)", t)
        g.close(h(1.0), 1.0, 1e-13, "interp:h(1)", t)
    a, b = sorted((g.real(0, 1), g.real(0, 1)))
    g.check(h(a) <= h(b) + 1e-14, "interp:monotone", "%s: h(%r) > h(%r)" % (t, a, b))
    g.check(-1e-14 <= h(a) <= 1 + 1e-13, "interp:range", "%s: h(%r)=%r" % (t, a, h(a)))
    neg, big = -g.real(0.0, 2.0), 1 + g.real(0.0, 2.0)
    if t != "c":
        g.close(h(neg), 0.0, 1e-14, "interp:below", "%s h(%r)" % (t, neg))
    if t in "phlmc":
        g.close(h(big), 1.0, 1e-13, "interp:above", "%s h(%r)" % (t, big))
    # derivative of the function actually implemented
    for x in (g.real(0.01, 0.99), -g.real(0.01, 1.0), 1 + g.real(0.01, 1.0)):
        g.close(dh(x), derivative(h, x), 3e-7, "interp:derivative:" + t, "%s at %r" % (t, x))
    if t in "qphwlc":
        x = g.real(0.01, 0.99)
        g.close(g.fun("second_deriv_interp_func", x, nm), derivative(dh, x), 1e-6, "interp:second:" + t,
                "%s at %r" % (t, x))
    # symmetric types treat both phases alike
    if t in "phlm":
        x = g.real(0, 1)
        g.close(h(x) + h(1 - x), 1.0, 1e-13, "interp:partition", "%s at %r" % (t, x))


@spec("C01", dims=(2,), generic=False)
def interp_ratio(g):
    x = g.real(-0.2, 1.2, (0.0, 1.0))
    p = np.clip(x, 0, 1)
    t = g.pick(["p", "h", "l", "q"])
    nm = name_of(g, t)
    g.close(g.fun("interp_ratio_func", x, nm, nm), 1.0, 0, "interp_ratio:same")
    g.close(g.fun("compl_interp_ratio_func", x, nm, nm), 1.0, 0, "interp_ratio:same")
    r = g.fun("interp_ratio_func", x, "pbg", "linear")
    c = g.fun("compl_interp_ratio_func", x, "pbg", "linear")
    hp, hl = g.fun("interp_func", x, "pbg"), g.fun("interp_func", x, "linear")
    g.close(r * hl, hp, 1e-13, "interp_ratio:defn", "ratio at %r" % x)
    g.close(c * (1 - hl), 1 - hp, 1e-12, "interp_ratio:compl", "complement at %r" % x)


@spec("C02", dims=(2,), generic=False, weight=3)
def wells(g):
    t = g.pick(["d", "s"])
    nm = {"d": "double", "s": "single"}[t] if g.bool() else t
    w = lambda x: g.fun("well_func", x, nm)
    dw = lambda x: g.fun("deriv_well_func", x, nm)
    d2 = lambda x: g.fun("second_deriv_well_func", x, nm)
    for x in phis(g):
        g.close(w(x), ref.well(x, t), 1e-12, "well_func:" + t, repr(x))
        g.close(dw(x), ref.dwell(x, t), 1e-11, "deriv_well_func:" + t, repr(x))
        g.close(d2(x), ref.d2well(x, t), 1e-10, "second_deriv_well_func:" + t, repr(x))
        g.close(dw(x), derivative(w, x), 1e-7, "well:derivative:" + t, repr(x))
        g.close(d2(x), derivative(dw, x), 1e-6, "well:second:" + t, repr(x))
        g.check(w(x) >= 0, "well:nonneg", repr(x))
        if t == "d":
            g.close(w(x), w(1 - x), 1e-11, "well:symmetric", repr(x))
    g.close(w(1.0), 0.0, 0.0, "well:minimum")
    if t == "d":
        g.close(w(0.0), 0.0, 0.0, "well:minimum")
        g.close(w(0.5), 1.0, 1e-15, "well:height")
    # three-phase well
    p = [g.real(-0.2, 1.2, (0.0, 1.0)) for _ in range(3)]
    T = [g.fun("deriv_triple_well_func", p[i], p[(i + 1) % 3], p[(i + 2) % 3]) for i in range(3)]
    g.close(T[0], ref.triple_dwell(*p), 1e-11, "triple_well", repr(p))
    g.close(sum(T), 0.0, 1e-10, "triple_well:tangent", "sum over phases %r" % p)
    g.close(T[0], g.fun("deriv_triple_well_func", p[0], p[2], p[1]), 1e-11, "triple_well:symmetric", repr(p))


@spec("C03", dims=(2,), generic=False, weight=3)
def averages(g):
    t = g.pick(["a", "h"])
    nm = name_of(g, t)
    # phases overshoot: fractions slightly below 0 occur as well
    lo = g.pick([0, 0, -0.3])
    a = g.real(lo, 3, (0.0, 1.0, 1e-17, 1e-15, 1e-9, -1e-3, -1e-12))
    b = g.real(lo, 3, (0.0, 1.0, 1e-17, 1e-15, 1e-9, -1e-3, -1e-12))
    if g.src.pick(8) == 0:
        b = a
    av = lambda x, y: g.fun("average_func", x, y, nm)
    m = av(a, b)
    g.close(m, ref.avg(a, b, t), 1e-13 * (abs(a) + abs(b)), "average_func:" + t, "%r %r" % (a, b))
    g.close(m, av(b, a), 1e-14 * (abs(a) + abs(b)), "average:symmetric", "%r %r" % (a, b))
    if min(a, b) >= 1e-16 or t == "a":
        e = 1e-13 * (abs(a) + abs(b))
        g.check(min(a, b) - e <= m <= max(a, b) + e, "average:between", "%r %r -> %r" % (a, b, m))
    if min(a, b) >= 0:
        g.check(g.fun("average_func", a, b, "h") <= g.fun("average_func", a, b, "a") * (1 + 1e-13), "average:order",
                "%r %r" % (a, b))
    s = g.real(0.5, 4.0)
    if t == "a" or (min(a, b) > 4e-16):
        g.close(av(s * a, s * b), s * m, 1e-13 * s * (abs(a) + abs(b)), "average:homogeneous", "%r %r" % (a, b))
    # derivative with respect to one argument, given the average and that argument
    x, y = g.real(0.05, 3), g.real(0.05, 3)
    d = g.fun("deriv_average_func", av(x, y), x, nm)
    g.close(d, derivative(lambda z: av(z, y), x, 1e-3), 1e-7, "average:derivative:" + t, "%r %r" % (x, y))
    g.close(g.fun("deriv_average_func", m, a, nm), ref.davg(a, m, t),
            1e-12 * (1 + float(ref.davg(a, m, t))), "deriv_average_func:" + t, "%r %r" % (a, b))
    v = g.real(-2, 2, (0.0, 1e-4, 5e-5, -5e-5, 1e-3, -1e-3))
    g.close(g.fun("limitedinverse", v), ref.limited_inverse(v), 1e-10 * abs(float(ref.limited_inverse(v))),
            "limitedinverse", repr(v))


# ---------------------------------------------------------------- 3 phases (C++)

def cfun(g, name, nargs):
    f = getattr(g.libs(2, "cxx"), name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_int] + [ctypes.c_double] * nargs
    return f


def simplex(g, margin=0.0):
    """a point of the phase simplex: interior, edges and corners"""
    k = g.src.pick(5)
    if k == 0 and margin == 0:
        p = [0.0, 0.0, 0.0]
        p[g.src.pick(3)] = 1.0
        return p
    a, b = g.real(margin, 1), g.real(margin, 1)
    c = g.real(margin, 1)
    if k == 1 and margin == 0:
        c = 0.0
    s = max(a + b + c, 1e-12)
    if s <= 1e-12:
        a, b, c, s = 1.0, 1.0, 1.0, 3.0
    p = [a / s, b / s, c / s]
    r = g.src.pick(3)
    return p[r:] + p[:r]


def dirder(f, p, d, h=1e-3):
    """directional derivative of f at p"""
    at = lambda k: f(*[x + k * h * y for x, y in zip(p, d)])
    return sum(c * (at(k) - at(-k)) for k, c in FD) / h


@spec("C04", dims=(2,), generic=False, weight=4, kernels=["cxx"])
def tilting(g):
    for nm in ("vf_folch", "vf_moelans"):
        f = cfun(g, nm, 3)
        g0 = lambda a, b, c: f(0, a, b, c)
        p = simplex(g)
        v = [g0(p[0], p[1], p[2]), g0(p[1], p[2], p[0]), g0(p[2], p[0], p[1])]
        g.calls += 3
        g.close(sum(v), 1.0, 1e-12, nm + ":partition", "tilting functions at %r" % p)
        for i in range(3):
            g.check(-1e-12 <= v[i] <= 1 + 1e-12, nm + ":range", "%r at %r" % (v, p))
            if p[i] == 1.0:
                g.close(v[i], 1.0, 1e-12, nm + ":corner", repr(p))
        g.close(v[0], g0(p[0], p[2], p[1]), 1e-13, nm + ":symmetric", repr(p))
        if p[0] == 0.0:
            g.close(v[0], 0.0, 1e-15, nm + ":absent", repr(p))
        # derivatives are those of g0 along the simplex
        q = simplex(g, 0.02)
        d0 = dirder(g0, q, (2 / 3., -1 / 3., -1 / 3.))
        d1 = dirder(g0, q, (-1 / 3., 2 / 3., -1 / 3.))
        d2 = dirder(g0, q, (-1 / 3., -1 / 3., 2 / 3.))
        g.close(f(1, *q), d0, 1e-8, nm + ":dg0dp0", repr(q))
        g.close(f(2, *q), d1, 1e-8, nm + ":dg0dp1", repr(q))
        g.close(f(2, q[0], q[2], q[1]), d2, 1e-8, nm + ":dg0dp2", repr(q))
        # no force on pure phases, sum over all three phases cancels
        g.close(f(1, *q) + f(2, *q) + f(2, q[0], q[2], q[1]), 0.0, 1e-12, nm + ":tangent", repr(q))
        for c in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)):
            g.close(f(1, *c), 0.0, 1e-14, nm + ":equilibrium", repr(c))
            g.close(f(2, *c), 0.0, 1e-14, nm + ":equilibrium", repr(c))
        # outside the simplex the phase contributes nothing
        n = -g.real(1e-9, 0.1)
        g.close(f(0, n, 0.5, 0.5 - n), 0.0, 0.0, nm + ":clamp")
        g.close(f(1, n, 0.5, 0.5 - n), 0.0, 0.0, nm + ":clamp")
        g.close(f(2, n, 0.5, 0.5 - n), 0.0, 0.0, nm + ":clamp")
        if nm == "vf_folch":
            b = 1 + g.real(1e-9, 0.1)
            g.close(f(0, b, (1 - b) / 2, (1 - b) / 2), 1.0, 0.0, nm + ":clamp")
            g.close(f(1, b, (1 - b) / 2, (1 - b) / 2), 0.0, 0.0, nm + ":clamp")
            g.close(f(2, b, (1 - b) / 2, (1 - b) / 2), 0.0, 0.0, nm + ":clamp")
    g.nontrivial = True


def folch_ref(k, a, b, c):
    """g0 of Folch & Plapp (2005) and its derivatives within the plane of
    constant sum; a fraction outside [0,1] exerts no force"""
    if a < 0:
        return 0.0
    if a > 1:
        return 1.0 if k == 0 else 0.0
    if k == 2 and (b < 0 or b > 1):
        return 0.0
    D = c - b
    h = 15 * (1 - a) * (1 + a - D * D) + a * (9 * a * a - 5)
    if k == 0:
        return 0.25 * a * a * h
    da = 0.5 * a * h + 0.25 * a * a * (-15 * (1 + a - D * D) + 15 * (1 - a) + 27 * a * a - 5)
    db = 7.5 * a * a * (1 - a) * D      # = -d/dc
    return 2 / 3. * da if k == 1 else -da / 3. + db


def moelans_ref(k, a, b, c):
    """a^2/(a^2+b^2+c^2) and its derivatives within the plane of constant sum"""
    if a < 0:
        return 0.0
    s = a * a + b * b + c * c
    if k == 0:
        return a * a / s
    da, db, dc = 2 * a * (b * b + c * c) / s ** 2, -2 * a * a * b / s ** 2, -2 * a * a * c / s ** 2
    return (2 * da - db - dc) / 3. if k == 1 else (2 * db - da - dc) / 3.


@spec("C04", dims=(2,), generic=False, weight=6, kernels=["cxx"])
def tilting_values(g):
    """values on and around the simplex, its edges and corners included"""
    p = simplex(g)
    k = g.src.pick(4)
    if k == 1:      # leave the simplex within the plane of constant sum
        i, j, d = g.src.pick(3), g.src.pick(3), g.real(0, 0.3)
        p = list(p)
        p[i] += d
        p[j] -= d
    elif k == 2:    # an overshoot
        d, e = g.real(1e-9, 0.2), g.real(-0.2, 0.2)
        p = [1 + d, -d / 2 + e, -d / 2 - e]
        r = g.src.pick(3)
        p = p[r:] + p[:r]
    elif k == 3:    # equal fractions
        a = g.real(0, 0.5)
        p = [a, a, 1 - 2 * a]
        r = g.src.pick(3)
        p = p[r:] + p[:r]
    for nm, rf in (("vf_folch", folch_ref), ("vf_moelans", moelans_ref)):
        f = cfun(g, nm, 3)
        for w in range(3):
            e = rf(w, *p)
            g.calls += 1
            g.close(f(w, *p), e, 1e-11 * (1 + abs(e)), "%s:value%d" % (nm, w), repr(p))
    g.nontrivial = True


def weights_ref(p):
    pp = list(p)
    for i in range(3):
        if pp[i] > 0.99:
            pp[i] = 0.99
            dl = 1 - sum(pp)
            pp[(i + 1) % 3] += dl / 2
            pp[(i + 2) % 3] += dl / 2
            break

    def v(i, j):
        out = np.zeros(3)
        out[i] = pp[i] / (pp[i] + pp[j])
        out[j] = pp[j] / (pp[i] + pp[j])
        return out

    V = {(0, 1): v(0, 1), (0, 2): v(0, 2), (1, 2): v(1, 2)}

    def angle(k):
        o = [V[m] - V[k] for m in V if m != k]
        # robust angle between the two edges at vertex k
        return np.arctan2(np.linalg.norm(np.cross(o[0], o[1])), np.dot(o[0], o[1])) / np.pi

    return [angle(k) for k in ((0, 1), (0, 2), (1, 2))]


@spec("C04", dims=(2,), generic=False, weight=4, kernels=["cxx"])
def pair_weights(g):
    p = simplex(g)
    lib = g.libs(2, "cxx")

    def w(*q):
        out = np.zeros(3)
        lib.vf_weights(*[ctypes.c_double(x) for x in q], out.ctypes.data_as(ctypes.c_void_p))
        g.calls += 1
        return out

    a = w(*p)
    g.check(bool(np.isfinite(a).all()), "weights:finite", "%r at %r" % (a, p))
    g.check(bool((a >= 0).all() and (a <= 1).all()), "weights:range", "%r at %r" % (a, p))
    g.close(a.sum(), 1.0, 1e-6, "weights:partition", repr(p))
    g.close(a, weights_ref(p), 1e-6, "weights:value", repr(p))
    # relabelling the phases relabels the weights
    g.close(w(p[1], p[0], p[2]), [a[0], a[2], a[1]], 1e-6, "weights:relabel01", repr(p))
    g.close(w(p[0], p[2], p[1]), [a[1], a[0], a[2]], 1e-6, "weights:relabel12", repr(p))
    g.close(w(p[2], p[1], p[0]), [a[2], a[1], a[0]], 1e-6, "weights:relabel02", repr(p))
    # a phase that is absent leaves a binary interface
    t = g.real(0.02, 0.98)
    g.close(w(t, 1 - t, 0.0), [1, 0, 0], 1e-6, "weights:binary", repr(t))
    g.close(w(t, 0.0, 1 - t), [0, 1, 0], 1e-6, "weights:binary", repr(t))
    g.close(w(0.0, t, 1 - t), [0, 0, 1], 1e-6, "weights:binary", repr(t))


@spec("C04", dims=(2,), generic=False, kernels=["cxx"])
def array_combination(g):
    n = g.int(1, 40)
    rs = g.rng()
    lib = g.libs(2, "cxx")
    for ty in ("", "i"):
        a = rs.uniform(-2, 2, n) if not ty else rs.randint(-50, 50, n).astype(np.int32)
        b = rs.uniform(-2, 2, n) if not ty else rs.randint(-50, 50, n).astype(np.int32)
        for op, exp in (("vf_add", a + b), ("vf_multiply", a * b)):
            d, s = a.copy(), b.copy()
            getattr(lib, op + ty)(d.ctypes.data_as(ctypes.c_void_p), s.ctypes.data_as(ctypes.c_void_p), n)
            g.calls += 1
            g.close(d, exp, 1e-15, op)
            g.check((s == b).all(), op + ":source")
