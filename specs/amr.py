"""Orientation transfer between refinement levels, and refinement tagging."""
import itertools
import numpy as np
from vf import quat as Q
from vf.core import BOX, LH, LLHH, LOHI, NG, Region
from vf.registry import spec

GROUP = {4: Q.group4, 2: Q.group2, 1: Q.group1}


def nearest(ref, q):
    """equivalent of q nearest to ref, and whether it is the only nearest one"""
    n = q.shape[-1]
    al = Q.rot(q[..., None, :], GROUP[n]())
    d = Q.dist(ref[..., None, :], al) if n > 1 else np.abs(ref[..., None, :] - al)[..., 0]
    k = d.argmin(-1)
    s = np.sort(d, -1)
    sure = (s[..., 1] - s[..., 0]) > 1e-7
    return np.take_along_axis(al, k[..., None, None], -2)[..., 0, :], sure


def size_ok(v):
    return np.ones(v.shape[:-1], bool) if v.shape[-1] == 1 else np.sqrt((v ** 2).sum(-1)) > 1e-3


def ext(R):
    return [list(R.lo), list(R.hi)]


def los_his(R):
    return [int(x) for x in R.lo] + [int(x) for x in R.hi]


def lohi_pairs(R):
    return [int(x) for p in zip(R.lo, R.hi) for x in p]


def ratios(g):
    m = 4 if g.dim == 2 else 3
    if g.bool():
        return [g.int(2, m)] * g.dim
    return [g.int(1, m) for _ in range(g.dim)]


@spec("C21", generic="mem")
def orientation_coarsening(g):
    """average of the fine orientations, each replaced (when symmetry-aware) by
    its equivalent nearest to the first one, normalised"""
    dim = g.dim
    cb = g.box(maxsize=4 if dim == 2 else 3)
    rr = ratios(g)
    depth = g.pick([4, 1] if dim == 3 else [4, 2, 1])
    fb = Region([l * r for l, r in zip(cb.lo, rr)], [(h + 1) * r - 1 for h, r in zip(cb.hi, rr)])
    qf = g.cell("qfine", need=0, comps=(depth,), kind=Q.field(depth), box=fb)
    qc = g.out("qcoarse", comps=(depth,))
    dxf = g.dx()
    dxc = dxf * np.array(rr)
    sym = g.int(0, 1)
    rot = g.side("rot", ng=g.int(0, 1), dtype=np.int32, role="out")
    for f in rot:
        f.data[...] = 1
    R0 = rot[0].region.lo, rot[0].region.hi

    def ref(E):
        ch = []
        for s in itertools.product(*[range(r) for r in rr]):
            ix = tuple(slice(a, None, r) for a, r in zip(s, rr))
            ch.append(qf(fb)[ix])
        q0 = ch[0]
        care = np.ones(cb.shape, bool)
        acc = 0.0
        for i, c in enumerate(ch):
            if sym and i:
                c, sure = nearest(q0, c)
                care &= sure
            acc = acc + c
        acc = acc / len(ch)
        care &= size_ok(acc)
        E.put(qc, cb, Q.normalise(acc), care=care[..., None] & np.ones(depth, bool))

    ig = rot[0].ng
    rb = cb.grow(ig)
    g.call("quatcoarsen",
           los_his(cb) + los_his(qf.region) + los_his(qc.region)
           + [np.array(rr, np.int32), dxf, dxc, qf, qc, depth, sym] + rot + lohi_pairs(rb), ref, tile=False)
    g.label("symmetry-aware" if sym else "plain")


@spec("C21", generic="mem")
def orientation_coarsening_equivalents(g):
    """one grain described by arbitrary equivalents coarsens to that grain"""
    dim = g.dim
    cb = g.box(maxsize=3)
    rr = ratios(g)
    depth = g.pick([4, 1] if dim == 3 else [4, 2, 1])
    fb = Region([l * r for l, r in zip(cb.lo, rr)], [(h + 1) * r - 1 for h, r in zip(cb.hi, rr)])
    q = Q.draw(g, depth)
    G = GROUP[depth]()
    # angles: only pairs that the nine stored rotations connect
    G = G[:4] if depth == 1 else G
    lab = {}

    def kind(g, f, valid):
        k = g.rng().randint(0, len(G), valid.shape)
        lab["k"] = k
        return Q.rot(np.broadcast_to(q, valid.shape + (depth,)), G[k])

    qf = g.cell("qfine", need=0, comps=(depth,), kind=kind, box=fb)
    qc = g.out("qcoarse", comps=(depth,))
    dxf = g.dx()
    g.call("quatcoarsen",
           los_his(cb) + los_his(qf.region) + los_his(qc.region)
           + [np.array(rr, np.int32), dxf, dxf * np.array(rr), qf, qc, depth, 1]
           + [np.ones(2 * 6 ** 3, np.int32) for _ in range(dim)] + lohi_pairs(Region([0] * dim, [4] * dim)),
           lambda E: E.put(qc, cb, 0, care=False), tile=False)
    if g.mode != "ref":
        return
    al = Q.rot(q, GROUP[depth]())
    if depth == 1:
        al = np.concatenate([q + k * np.pi / 2 for k in range(-9, 10)])[:, None]
    got = qc.data[qc.sl(cb)]
    near = np.abs(got[..., None, :] - al).max(-1).min(-1)
    g.close(near, 0 * near, 1e-12, "coarsen:one-grain:depth%d" % depth)
    if (lab["k"] != lab["k"].flat[0]).any():
        g.label("mixed equivalents")
        g.nontrivial = True


@spec("C21", weight=1.3, generic="mem")
def orientation_refinement(g):
    """multilinear interpolation of the coarse orientations, each replaced by its
    equivalent nearest to the coarse cell holding the fine one, normalised"""
    dim = g.dim
    cb = g.box(maxsize=4 if dim == 2 else 3)
    rr = ratios(g)
    depth = g.pick([4, 4, 2, 1] if dim == 2 else [4, 4, 1])
    full = Region([l * r for l, r in zip(cb.lo, rr)], [(h + 1) * r - 1 for h, r in zip(cb.hi, rr)])
    lo = [g.int(l, h) for l, h in zip(full.lo, full.hi)]
    hi = [g.int(l, h) for l, h in zip(lo, full.hi)]
    fb = Region(lo, hi)
    qc = g.cell("qcoarse", need=1, comps=(depth,), kind=Q.field(depth))
    qf = g.out("qfine", comps=(depth,), box=fb)
    dxf = g.dx()
    dxc = dxf * np.array(rr)

    def ref(E):
        base, wt, cell = [], [], []
        for d in range(dim):
            i = np.arange(fb.lo[d], fb.hi[d] + 1)
            c = i // rr[d]
            x = (i + 0.5) / rr[d] - 0.5          # in coarse cells
            k = np.floor(x).astype(int)
            # a fine centre on a coarse centre may use either pair of cells
            base.append(k)
            wt.append(x - k)
            cell.append(c)

        def take(ix):
            m = np.ix_(*[a - l for a, l in zip(ix, qc.region.lo)])
            return qc.read[m]

        q0 = take(cell)
        acc = 0.0
        care = np.ones(fb.shape, bool)
        for s in itertools.product((0, 1), repeat=dim):
            w = 1.0
            for d in range(dim):
                v = wt[d] if s[d] else 1 - wt[d]
                w = w * v.reshape([-1 if e == d else 1 for e in range(dim)])
            # neighbours of zero weight may lie outside the stencil
            ix = [np.clip(base[d] + s[d], qc.region.lo[d], qc.region.hi[d]) for d in range(dim)]
            c, sure = nearest(q0, take(ix))
            used = np.broadcast_to(w > 1e-13, fb.shape)
            care &= sure | ~used
            acc = acc + np.where(used[..., None], c * np.broadcast_to(w, fb.shape)[..., None], 0.0)
        care &= size_ok(acc)
        E.put(qf, fb, Q.normalise(acc), care=care[..., None] & np.ones(depth, bool))

    g.call("quatlinrefine%dd" % dim,
           los_his(fb) + los_his(qc.region) + los_his(qf.region)
           + [np.array(rr, np.int32), dxc, dxf, qc, qf, depth]
           + [np.ones(2 * 7 ** 3, np.int32) for _ in range(dim)] + lohi_pairs(Region([0] * dim, [4] * dim)),
           ref, tile=False)


def tagging(g, name, depth):
    b = g.box()
    dim = g.dim
    h = g.dx()
    gng = g.int(0, 2)
    grads = [g.cell("grad%d" % d, need=0, comps=(depth,) if depth else (), kind="real", ng=gng) for d in range(dim)]
    tags = g.icell("tags", ng=g.int(0, 2), role="inout", lo=0, hi=2)
    mag = 0.0
    for d in range(dim):
        m = (grads[d](b) * h[d]) ** 2
        mag = mag + (m.sum(-1) if depth else m)
    mag = np.sqrt(mag)
    k = g.src.pick(5)
    # thresholds among the magnitudes present, exact ones included
    tol = [0.0, float(mag.max()), float(np.median(mag)), g.real(0, 3), 1e3][k]
    val = g.pick([1, 7, -1])

    def ref(E):
        t = E.cur(tags, b)
        care = np.abs(mag - tol) > 1e-12 * (1 + tol) if k not in (0, 4) else np.ones(b.shape, bool)
        E.put(tags, b, np.where(mag >= tol, val, t), care=care)
        if ((mag >= tol) & care).any() and ((mag < tol) & care).any():
            g.label("some cells tagged")

    args = [BOX] + grads + [LH(grads[0])] + ([depth] if depth else []) + [h, tags, LH(tags), val, float(tol)]
    g.call(name, args, ref)


@spec("C22")
def phase_gradient_tagging(g):
    tagging(g, "tagfromgrads", 0)


@spec("C22")
def orientation_gradient_tagging(g):
    tagging(g, "tagfromquatgrads", g.int(1, 4))
