"""Whole simulations on two levels of refinement: what a refined region
computes, and what regridding does to the fields."""
import copy
import numpy as np
import itertools
from vf import models
from vf import quat as Q
from specs.amr import nearest
from specs.sim import H, go, simspec


def bothspec(prop, w2, w3):
    """a run in 3D costs several in 2D"""
    def deco(fn):
        simspec(prop, dims=(2,), weight=w2)(fn)

        def fn3(g):
            return fn(g)
        fn3.__name__, fn3.__doc__ = fn.__name__ + "_3d", fn.__doc__
        simspec(prop, dims=(3,), weight=w3)(fn3)
        return fn
    return deco


def amr(m, thr, quat=None, interval=1):
    tag = dict(Phi=dict(threshold_tagged=thr, threshold_untagged=thr))
    if quat is not None:
        tag["Orient"] = dict(threshold_tagged=quat, threshold_untagged=quat)
    return dict(Amr=dict(Regrid=dict(interval=interval, interval_type="step"), TaggingCriteria=tag,
                         GriddingAlgorithm=dict(max_levels=2)),
                PatchHierarchy=dict(max_levels=2, ratio_to_coarser=dict(level_1=[2] * m.dim)))


def model(g, families=("pure", "multi", "three", "quadratic", "quadratic1", "sintering", "wang", "dilute", "heat", "orient"),
          local=True, **kw):
    """a model with a phase field to refine by"""
    for _ in range(20):
        m = models.make(g, families=list(families), **kw)
        if m.nphi:
            break
    else:
        return None
    models.boundaries(g, m)
    if m.nphi > 1:
        m.bc.pop("Phase", None)     # the order parameters sum to one at the boundary too
    if "MovingFrame" in m.mp:
        m.mp["MovingFrame"]["adapt"] = False
    if not local:
        models.rigid(g, m)
    return m


def finer(m):
    """the same model on the grid of level 1 everywhere"""
    q = copy.copy(m)
    q.n = tuple(2 * k for k in m.n)
    q.dx = tuple(h / 2 for h in m.dx)
    q.fields = {}
    return q


def comps(m):
    o = []
    if m.nphi:
        o.append(("phase", m.phinames))
    if m.nq:
        o.append(("quat", ["quat%d" % (i + 1) for i in range(m.nq)]))
    if m.heat:
        o.append(("temperature", ["temperature"]))
    if m.nconc:
        o.append(("concentration", m.cnames))
    return o


def whole(W, id, l, n):
    """level l of a field on the whole domain, NaN where it has no patch"""
    out = None
    for p, (a, b) in enumerate(W.boxes(l)):
        x, xl = W.raw(id, l, p)
        if out is None:
            out = np.full(list(n) + [x.shape[-1]], np.nan)
        s = tuple(slice(a[k], b[k] + 1) for k in range(len(n)))
        t = tuple(slice(a[k] - xl[k], b[k] - xl[k] + 1) for k in range(len(n)))
        out[s] = x[t]
    return out


def put(W, id, l, v):
    for p, (a, b) in enumerate(W.boxes(l)):
        x, xl = W.raw(id, l, p)
        s = tuple(slice(a[k], b[k] + 1) for k in range(len(a)))
        t = tuple(slice(a[k] - xl[k], b[k] - xl[k] + 1) for k in range(len(a)))
        x[t] = v[s]


def looker(n):
    def look(W, t, h, Y, F):
        R = []
        for l in range(W.levels()):
            k = [2 ** l * x for x in n]
            R.append(([whole(W, i, l, k) for i in Y], [whole(W, i, l, k) for i in F], W.boxes(l)))
        return t, h, R, whole(W, W.id("temperature"), W.levels() - 1, [2 ** (W.levels() - 1) * x for x in n])
    return look


def down(a, unit=False):
    """average over the 2^d children of each coarse cell"""
    d = a.ndim - 1
    for k in range(d):
        a = 0.5 * (np.take(a, range(0, a.shape[k], 2), k) + np.take(a, range(1, a.shape[k], 2), k))
    if unit:
        r = np.sqrt((a ** 2).sum(-1, keepdims=True))
        a = a / np.where(r > 0, r, 1)
    return a


def coarsened(a, name, m):
    """what the coarser level holds under the fine cells of one field"""
    if name != "quat" or not getattr(m, "symm", False):
        return down(a, name == "quat" and m.nq > 1)
    ch = [a[tuple(slice(k, None, 2) for k in s)] for s in itertools.product((0, 1), repeat=m.dim)]
    return Q.normalise(sum([ch[0]] + [nearest(ch[0], c)[0] for c in ch[1:]]) / len(ch))


def later(g, m, k, move=True):
    """k further sets of fine fields, the initial ones moved about"""
    z = []
    for name, _ in comps(m):
        a = m.array(name)
        if name == "temperature" and getattr(m, "rescaled", False):
            a = a / m.mp["Temperature"]["meltingT"]
        for d in range(m.dim):
            a = np.repeat(a, 2, axis=d)
        z.append(a)
    out = []
    for _ in range(k):
        sh = [g.int(0, 2 * m.n[d] - 1) * move for d in range(m.dim)]
        fl = [bool(g.bool()) and move for _ in range(m.dim)]
        def T(a):
            for d in range(m.dim):
                a = np.roll(a, sh[d], axis=d)
                if fl[d]:
                    a = np.flip(a, axis=d)
            return np.ascontiguousarray(a)
        out.append([T(a) for a in z])
    return out


def mover(m, Z):
    name = [c[0] for c in comps(m)]

    def replace(W, k, t, h, Y):
        if k >= len(Z):
            return
        fine = W.field(Y[0]).shape[0] != m.n[0]
        for j, i in enumerate(Y):
            if fine:
                put(W, i, 0, Z[k][j])
            else:
                put(W, i, 0, coarsened(Z[k][j], name[j], m))
                if W.levels() > 1:
                    put(W, i, 1, Z[k][j])
    return replace


def cutfine(g, m):
    # like SAMRAI, no patch is smaller than the widest ghost layer
    return dict(block=g.int(2, 3), cuts=[[c for c in [2 * g.int(1, m.n[d] - 1)] if g.bool() and 4 <= c <= 2 * m.n[d] - 4]
                                         for d in range(m.dim)])


def initial(q, order, R):
    """the fields of a state as the initial data of model q"""
    for (name, cs), a in zip(order, R):
        if name == "temperature" and getattr(q, "rescaled", False):
            a = a * q.mp["Temperature"]["meltingT"]
        for i, c in enumerate(cs):
            q.fields[c] = a[..., i].copy()


def lines(out):
    seen = {}
    for l in out.splitlines():
        if "=" in l:
            k, v = l.split("=", 1)
            try:
                seen.setdefault(" ".join(k.split()), []).append(float(v))
            except ValueError:
                pass
    return seen


@bothspec("C43", 0.3, 0.08)
def amr_everywhere(g):
    """refined everywhere, a run is the run on the finer grid"""
    m = model(g, local=False, maxn=8 if g.dim == 2 else 5)
    if m is None:
        return
    order = comps(m)
    n = 3
    # the rotations between symmetric orientations follow the changes of a step,
    # but are found again only when levels change
    Z = later(g, m, n) if g.bool() and not getattr(m, "symm", False) else None
    if Z:
        g.label("fields replaced")
    diag = dict(ScalarDiagnostics=dict(interval=1, interval_type="step", include_first_step=True))
    A = go(g, m, "amr", inp=m.inp(n, **diag, **amr(m, 0., 0. if m.nq else None)), fixed=H, cuts=models.cuts(g, m), fine=cutfine(g, m),
           observe=looker(m.n), maxstates=n + 1, replace=mover(m, Z) if Z else None)
    for s in A.states:
        g.check(len(s[2]) == 2 and not np.isnan(s[2][1][0][0]).any(), "amr", "%s model: all cells are tagged but level 1 is %s" %
                (m.family, [r[2] for r in s[2]]))
    q = finer(m)
    initial(q, order, A.states[0][2][1][0])
    if "temperature" in m.fields and not m.heat:
        q.fields["temperature"] = A.states[0][3][..., 0].copy()
    B = go(g, q, "amr", inp=q.inp(n, **diag), fixed=H, observe=looker(q.n), maxstates=n + 1, replace=mover(m, Z) if Z else None)
    g.check(len(A.states) == len(B.states), "amr", "%d states against %d" % (len(A.states), len(B.states)))
    for i, (a, b) in enumerate(zip(A.states, B.states)):
        for w in (0, 1):
            for j, (name, _) in enumerate(order):
                x, y = a[2][1][w][j], b[2][0][w][j]
                g.close(x, y, 1e-9 * max(np.abs(y).max(), 1e-30), "amr", "%s model: %s%s of cycle %d, level 1 against the same grid without levels" %
                        (m.family, "time derivative of " * w, name, i))
    la, lb = lines(A.out), lines(B.out)
    for k in sorted(lb):
        if "[" in k or "fraction" in k:
            g.check(len(la.get(k, [])) == len(lb[k]), "amr-reported", "%s model: %s reported %d times, without levels %d times" %
                    (m.family, k, len(la.get(k, [])), len(lb[k])))
            g.label("reported")
            x, y = np.array(la[k]), np.array(lb[k])
            if np.isnan(y).any():       # no energy is defined for this model
                continue
            g.close(x, y, 1e-4 * np.abs(y).max() + 1e-9, "amr-reported", "%s model: %s as reported, with levels and without" % (m.family, k))
    g.nontrivial = True


def grown(a, r, per):
    """cells within r of a True cell, diagonals included"""
    for d in range(a.ndim):
        o = a.copy()
        for k in range(1, r + 1):
            for s in (k, -k):
                b = np.roll(a, s, axis=d)
                if not per[d]:
                    i = [slice(None)] * a.ndim
                    i[d] = slice(0, s) if s > 0 else slice(s, None)
                    b[tuple(i)] = False
                o |= b
        a = o
    return a


def steepness(m, a):
    """what the tags are decided by: the change of the first order parameter
    across a cell, from centred differences"""
    s = 0.0
    bc = m.bc.get("Phase", {})
    for d in range(m.dim):
        lo, hi = np.take(a, [0], d), np.take(a, [-1], d)
        if m.per[d]:
            gl, gh = hi, lo
        else:
            def ghost(x, i):
                k, v = bc.get(i, ["slope", "0"])
                return x + m.dx[d] * float(v) if k == "slope" else 2 * float(v) - x
            gl, gh = ghost(lo, 2 * d), ghost(hi, 2 * d + 1)
        e = np.concatenate([gl, a, gh], d)
        n = a.shape[d]
        s = s + (0.5 * (np.take(e, range(2, n + 2), d) - np.take(e, range(n), d))) ** 2
    return np.sqrt(s)


def threshold(g, m, Z):
    """one between the values the fields of the run will have, and between the
    tags of no cell and of all cells"""
    s = [steepness(m, down(z[0])[..., 0]) for z in Z]
    v = np.sort(np.concatenate([x.ravel() for x in s]))
    k = int(g.pick([0.6, 0.8, 0.9, 0.95]) * (len(v) - 1))
    # some cell is steep at every cycle: a level that disappears is another story
    return float(min([0.5 * (v[k] + v[min(k + 1, len(v) - 1)])] + [0.9 * x.max() for x in s]))


def refined(s, n):
    a = np.zeros([2 * k for k in n], bool)
    for lo, hi in s[2][1][2] if len(s[2]) > 1 else []:
        a[tuple(slice(p, q + 1) for p, q in zip(lo, hi))] = True
    return a


def near(x, y):
    return (np.abs(x - y) <= 1e-12 * max(np.nanmax(np.abs(y)), 1e-30)).all(-1)


def run_partly(g, m, n, Z, thr, **kw):
    return go(g, m, "amr", inp=m.inp(n, **amr(m, thr, **kw)), fixed=H, cuts=models.cuts(g, m), fine=cutfine(g, m),
              observe=looker(m.n), maxstates=n + 1, replace=mover(m, Z))


@bothspec("C43", 0.3, 0.08)
def amr_partly(g):
    """away from the edges of the refined region, its cells see what they would
    on the finer grid, and the others what they would without refinement"""
    m = model(g, aniso=True, maxn=14 if g.dim == 2 else 7, minn=7 if g.dim == 2 else 6)
    if m is None:
        return
    order = comps(m)
    n = 3
    Z = later(g, m, n, move=not getattr(m, "symm", False))       # see above
    A = run_partly(g, m, n, Z, threshold(g, m, Z))
    q = finer(m)
    initial(q, order, Z[0])
    if "temperature" in m.fields and not m.heat:
        q.fields["temperature"] = m.fields["temperature"]
        for d in range(m.dim):
            q.fields["temperature"] = np.repeat(q.fields["temperature"], 2, axis=d)
    B = go(g, q, "amr", inp=q.inp(n), fixed=H, observe=looker(q.n), maxstates=n + 1, replace=mover(m, Z))
    C = go(g, m, "amr", inp=m.inp(n), fixed=H, observe=looker(m.n), maxstates=n + 1, replace=mover(m, Z))
    per = m.per
    for i in range(len(A.states)):
        a = A.states[i]
        R = refined(a, m.n)
        g.label("refined %d%%" % (10 * round(10 * R.mean())))
        for what, l, X, r in (("finer", 1, B, 4), ("coarser", 0, C, 3)):
            if l and len(a[2]) < 2:
                continue
            b = X.states[i]
            ok = R if l else ~down(R[..., None].astype(float))[..., 0].astype(bool)
            for j in range(len(order)):
                ok = ok & near(a[2][l][0][j], b[2][0][0][j])
            ok = ~grown(~ok, r, per)
            if not ok.any():
                continue
            g.label("compared " + what)
            g.nontrivial = True
            for j, (name, _) in enumerate(order):
                x, y = a[2][l][1][j], b[2][0][1][j]
                g.close(np.where(ok[..., None], x, y), y, 1e-9 * max(np.abs(y).max(), 1e-30), "amr-" + what,
                        "%s model: time derivative of %s of cycle %d, %d cells or more from where the refinement changes, against the %s grid alone" %
                        (m.family, name, i, r, what))


@bothspec("C44", 0.3, 0.08)
def amr_regrid(g):
    """regridding keeps the cells it keeps, fills new ones from the coarser
    level, and refines where the fields are steep"""
    m = model(g, local=False, maxn=14 if g.dim == 2 else 7, minn=5)
    if m is None:
        return
    order = comps(m)
    n = 4
    Z = later(g, m, n)
    thr = threshold(g, m, Z)
    A = run_partly(g, m, n, Z, thr)
    was = None
    for i, a in enumerate(A.states):
        R = refined(a, m.n)
        c = [coarsened(z, name, m) for z, (name, _) in zip(Z[i - 1], order)] if i else None
        if i:
            for j, (name, _) in enumerate(order):
                z = Z[i - 1][j]
                s = max(np.abs(z).max(), 1e-30)
                w = "%s model: %s after regridding at cycle %d: " % (m.family, name, i)
                f = a[2][1][0][j] if len(a[2]) > 1 else None
                fresh = down((R & ~was)[..., None].astype(float))[..., 0] > 0
                co = a[2][0][0][j]
                g.close(np.where(fresh[..., None], c[j], co), c[j], 1e-12 * s, "regrid-coarse", w + "the coarser level")
                if f is None:
                    continue
                g.close(np.where(fresh[..., None], co, c[j]), np.where(fresh[..., None], coarsened(f, name, m), c[j]),
                        1e-12 * s, "regrid-coarse", w + "the coarser level under newly refined cells against their average")
                keep = R & was
                if keep.any():
                    g.label("kept")
                    g.nontrivial = True
                g.close(np.where(keep[..., None], f, z), z, 1e-12 * s, "regrid-kept", w + "cells refined before and after")
                new = R & ~was
                if new.any():
                    g.label("new")
                    symm = name == "quat" and getattr(m, "symm", False)
                    e = interpolated_equivalents(c[j], m) if symm else interpolated(c[j], m)
                    if name == "quat" and m.nq > 1:
                        # the plain operator interpolates components: only directions
                        e, f = Q.normalise(e), Q.normalise(np.where(R[..., None], f, 1))
                    inner = new & ~edge(m)
                    g.close(np.where(inner[..., None], f, e), e, 1e-12 * s, "regrid-new", w + "cells newly refined")
                    if name == "quat" and (symm or m.nq > 1):
                        continue
                    lo, hi = around(c[j], m)
                    b = new & inner
                    g.check(bool((f[b] >= lo[b] - 1e-9 * s).all() and (f[b] <= hi[b] + 1e-9 * s).all()), "regrid-new",
                            w + "values of newly refined cells outside those around them")
            st = steepness(m, c[0][..., 0])
            if np.abs(st - thr).min() > 1e-9:
                T = st >= thr
                g.check(bool((down(R[..., None].astype(float))[..., 0][T] > 0).all()), "regrid-tags",
                        "%s model: steep cells not refined at cycle %d: %s" % (m.family, i, np.argwhere(T & (down(R[..., None].astype(float))[..., 0] == 0))[:3].tolist()))
                far = ~grown(T, 1 + 4, m.per)
                g.check(not (down(R[..., None].astype(float))[..., 0][far] > 0).any(), "regrid-tags",
                        "%s model: cells far from any steep one refined at cycle %d" % (m.family, i))
        was = R


def edge(m):
    """fine cells whose interpolation reaches beyond a physical boundary"""
    a = np.zeros([2 * k for k in m.n], bool)
    for d in range(m.dim):
        if not m.per[d]:
            i = [slice(None)] * m.dim
            i[d] = [0, -1]
            a[tuple(i)] = True
    return a


def interpolated(c, m):
    """linear between the centres of the coarse cells"""
    for d in range(m.dim):
        up, dn = np.roll(c, -1, d), np.roll(c, 1, d)
        e = np.stack([0.75 * c + 0.25 * dn, 0.75 * c + 0.25 * up], d + 1)
        c = e.reshape(c.shape[:d] + (2 * c.shape[d],) + c.shape[d + 1:])
    return c


def interpolated_equivalents(c, m):
    """the same from the equivalents of the orientations around a coarse cell
    which are nearest to its own"""
    e = np.zeros([2 * k for k in c.shape[:-1]] + [c.shape[-1]])
    for child in itertools.product((0, 1), repeat=m.dim):
        acc = 0.0
        for t in itertools.product((0, 1), repeat=m.dim):
            x, w = c, 1.0
            for d in range(m.dim):
                w *= 0.25 if t[d] else 0.75
                if t[d]:
                    x = np.roll(x, -1 if child[d] else 1, d)
            acc = acc + w * nearest(c, x)[0]
        e[tuple(slice(k, None, 2) for k in child)] = acc
    return e


def around(c, m):
    lo, hi = c, c
    for d in range(m.dim):
        lo = np.minimum(lo, np.minimum(np.roll(lo, 1, d), np.roll(lo, -1, d)))
        hi = np.maximum(hi, np.maximum(np.roll(hi, 1, d), np.roll(hi, -1, d)))
    for d in range(m.dim):
        lo, hi = np.repeat(lo, 2, d), np.repeat(hi, 2, d)
    return lo, hi
