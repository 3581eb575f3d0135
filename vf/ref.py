"""Oracle functions written from the model's mathematics (docs/, the papers the
sources cite), vectorised over numpy arrays."""
import numpy as np

GAMMA = 10.0


def clip(p):
    return np.clip(p, 0.0, 1.0)


def interp(phi, t):
    t = t[0]
    p = clip(phi)
    q = np.maximum(phi, 0.0)
    if t == "q":
        return q ** 2
    if t == "p":
        return p ** 3 * (10 - 15 * p + 6 * p ** 2)
    if t == "h":
        return p ** 2 * (3 - 2 * p)
    if t == "w":
        return q ** 2 * (2 - q)
    if t == "l":
        return p
    if t == "m":
        return p ** 2 / (p ** 2 + (1 - p) ** 2)
    if t == "3":
        return q ** 3
    if t == "s":
        return np.log(np.cosh(GAMMA * q)) / np.log(np.cosh(GAMMA))
    if t == "c":
        return np.ones_like(p)
    raise AssertionError(t)


def dinterp(phi, t):
    t = t[0]
    p = clip(phi)
    q = np.maximum(phi, 0.0)
    if t == "q":
        return 2 * q
    if t == "p":
        return 30 * p ** 2 * (1 - p) ** 2
    if t == "h":
        return 6 * p * (1 - p)
    if t == "w":
        return 4 * q - 3 * q ** 2
    if t == "l":
        return np.where((phi >= 0) & (phi <= 1), 1.0, 0.0)
    if t == "m":
        return 2 * p * (1 - p) / (p ** 2 + (1 - p) ** 2) ** 2
    if t == "3":
        return 3 * q ** 2
    if t == "s":
        return GAMMA * np.tanh(GAMMA * q) / np.log(np.cosh(GAMMA))
    if t == "c":
        return np.zeros_like(p)
    raise AssertionError(t)


def d2interp_inner(p, t):
    """second derivative strictly inside (0,1)"""
    t = t[0]
    return {"q": 2 + 0 * p, "p": 60 * p * (1 - 3 * p + 2 * p ** 2), "h": 6 - 12 * p,
            "w": 4 - 6 * p, "l": 0 * p, "c": 0 * p}[t]


INTERP = ["q", "p", "h", "w", "l", "m", "3", "s", "c"]
# full names as they come from the input files
NAMES = {"q": "quadratic", "p": "pbg", "h": "harmonic", "w": "wang", "l": "linear",
         "m": "moelans", "3": "3", "s": "smooth", "c": "constant", "d": "double",
         "a": "arithmetic"}


def well(p, t):
    if t[0] == "d":
        return 16 * p ** 2 * (1 - p) ** 2
    if t[0] == "s":
        return (1 - p) ** 2
    raise AssertionError(t)


def dwell(p, t):
    if t[0] == "d":
        return 32 * p * (1 - p) * (1 - 2 * p)
    if t[0] == "s":
        return -2 * (1 - p)
    raise AssertionError(t)


def d2well(p, t):
    if t[0] == "d":
        return 32 * (1 - 6 * p + 6 * p ** 2)
    if t[0] == "s":
        return 2 + 0 * p
    raise AssertionError(t)


def avg(a, b, t):
    if t[0] == "a":
        return 0.5 * (a + b)
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    ok = (a >= 1e-16) & (b >= 1e-16)
    with np.errstate(all="ignore"):
        return np.where(ok, 2 * a * b / np.where(ok, a + b, 1.0), 0.0)


def davg(p, a, t):
    """derivative of avg(p, .) with respect to p, given a = avg(p, .)"""
    if t[0] == "a":
        return 0.5 + 0 * np.asarray(p, float)
    p = np.asarray(p, float)
    ok = p >= 1e-16
    return np.where(ok, 0.5 * a ** 2 / np.where(ok, p, 1.0) ** 2, 0.0)


def triple_dwell(p, q, r):
    """(dF/dp - mean over phases), F = sum of 16 p^2(1-p)^2"""
    g = [dwell(x, "d") for x in (p, q, r)]
    return g[0] - (g[0] + g[1] + g[2]) / 3.0


def limited_inverse(v):
    v = np.asarray(v, float)
    big = np.abs(v) > 1e-4
    return np.where(big, 1.0 / np.where(big, v, 1.0), 1e4)
