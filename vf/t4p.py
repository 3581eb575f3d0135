"""numpy model of the thermodynamic double in /verif/t4p/t4p.h"""
import numpy as np


class T4P:
    """strictly convex free energies of three phases, one or two components"""

    def __init__(self, g, nc=1, scale=None):
        r = g.rng()
        s = scale if scale is not None else g.pick([1.0, 20.0, 1e4])
        self.nc = nc
        self.a = r.uniform(1.0, 4.0, (3, 2)) * s
        self.e = r.uniform(0.1, 0.9, (3, 2))
        self.b = r.uniform(0.0, 2.0, (3, 2)) * s
        self.r = r.uniform(0.0, 1e-3, (3, 2)) * s
        self.x = (r.uniform(-0.6, 0.6, 3) * s) if nc == 2 else np.zeros(3)
        self.s = r.uniform(-1e-3, 1e-3, 3) * s
        self.g = r.uniform(-1, 1, 3) * s
        self.ceq = r.uniform(0.05, 0.95, 8)
        self.ceq_ok = 1
        self.fail = 0

    def send(self, sc):
        v = np.concatenate([self.a.ravel(), self.e.ravel(), self.b.ravel(), self.r.ravel(), self.x, self.s,
                            self.g, self.ceq, [self.ceq_ok, self.fail]]).astype(float)
        import ctypes
        sc.so.vd_t4p(ctypes.c_void_p(v.ctypes.data))

    # c has shape (..., nc)
    def f(self, p, c, T):
        v = self.s[p] * T + self.g[p]
        for k in range(self.nc):
            d = c[..., k] - self.e[p, k]
            v = v + self.a[p, k] * d ** 2 + self.b[p, k] * d ** 4 + self.r[p, k] * T * c[..., k] ** 2
        if self.nc == 2:
            v = v + self.x[p] * c[..., 0] * c[..., 1]
        return v

    def df(self, p, c, T):
        o = []
        for k in range(self.nc):
            d = c[..., k] - self.e[p, k]
            v = 2 * self.a[p, k] * d + 4 * self.b[p, k] * d ** 3 + 2 * self.r[p, k] * T * c[..., k]
            if self.nc == 2:
                v = v + self.x[p] * c[..., 1 - k]
            o.append(v)
        return np.stack(o, -1)

    def d2f(self, p, c, T):
        n = self.nc
        o = np.zeros(c.shape[:-1] + (n, n))
        for k in range(n):
            d = c[..., k] - self.e[p, k]
            o[..., k, k] = 2 * self.a[p, k] + 12 * self.b[p, k] * d ** 2 + 2 * self.r[p, k] * T
            if n == 2:
                o[..., k, 1 - k] = self.x[p]
        return o

    def invert(self, p, mu, T, c0=None):
        """c_p with df_p(c_p) = mu"""
        c = np.full(mu.shape, 0.5) if c0 is None else c0.copy()
        for _ in range(80):
            res = self.df(p, c, T) - mu
            st = np.linalg.solve(self.d2f(p, c, T), res[..., None])[..., 0]
            m = np.abs(st).max() if st.size else 0.0
            c = c - st * (0.5 / m if m > 0.5 else 1.0)
            if m < 1e-15:
                break
        return c


class Quad(T4P):
    """f_p = sum_k A_pk (c_k - ceq_pk - (T-Tref) m_p)^2"""

    def __init__(self, g, nc=1):
        r = g.rng()
        s = g.pick([1.0, 1e4])
        self.nc = nc
        self.A = r.uniform(1.0, 5.0, (3, 2)) * s
        self.c = r.uniform(0.05, 0.95, (3, 2))
        self.m = r.uniform(-1e-3, 1e-3, 3) if nc == 1 else np.zeros(3)
        self.T0 = float(r.uniform(500, 1500)) if nc == 1 else 0.0

    def d(self, p, c, T, k):
        return c[..., k] - self.c[p, k] - (T - self.T0) * self.m[p]

    def f(self, p, c, T):
        return sum(self.A[p, k] * self.d(p, c, T, k) ** 2 for k in range(self.nc))

    def df(self, p, c, T):
        return np.stack([2 * self.A[p, k] * self.d(p, c, T, k) for k in range(self.nc)], -1)

    def d2f(self, p, c, T):
        o = np.zeros(c.shape[:-1] + (self.nc, self.nc))
        for k in range(self.nc):
            o[..., k, k] = 2 * self.A[p, k]
        return o

    def send(self, sc):
        pass

    def db2(self):
        return dict(T_ref=self.T0, A_liquid=self.A[0, 0], Ceq_liquid=self.c[0, 0], m_liquid=self.m[0],
                    A_solid=self.A[1, 0], Ceq_solid=self.c[1, 0], m_solid=self.m[1])

    def db3(self):
        return dict(A_liquid=self.A[0], Ceq_liquid=self.c[0], A_solid_A=self.A[1], Ceq_solid_A=self.c[1],
                    A_solid_B=self.A[2], Ceq_solid_B=self.c[2])
