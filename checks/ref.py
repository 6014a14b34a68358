"""Reference model of splines, written independently of the code under test (numpy float64 only)."""

import numpy as np


def default_knots(n, k, xr, interior=None):
    t = np.linspace(xr[0], xr[1], n - k + 2) if interior is None else np.asarray(interior, float)
    dx = t[1] - t[0]
    pad = dx * np.arange(1, k)
    return np.concatenate([xr[0] - pad[::-1], t, xr[1] + pad])


def bspline(x, knots, k, xr):
    """All B-splines of order k (degree k-1) on these knots at x, zero outside xr: de Boor triangle, bottom up."""
    x = np.asarray(x, float)
    t = np.asarray(knots, float)
    shape = x.shape
    x = x.ravel()
    m = len(t) - 1
    B = np.array([(x >= t[i]) & (x < t[i + 1]) for i in range(m)], float).reshape(m, -1)
    for d in range(2, k + 1):
        C = np.zeros((m + 1 - d, x.size))
        for i in range(m + 1 - d):
            a, b = t[i + d - 1] - t[i], t[i + d] - t[i + 1]
            if a > 0:
                C[i] += (x - t[i]) / a * B[i]
            if b > 0:
                C[i] += (t[i + d] - x) / b * B[i + 1]
        B = C
    B[:, (x < xr[0]) | (x > xr[1])] = 0.0
    return B.reshape((len(t) - k,) + shape)


def mscale(knots, k):
    t = np.asarray(knots, float)
    return k / (t[k:] - t[:-k])


def integrate(f, a, b, breaks=(), n=24):
    """Composite Gauss-Legendre between the breakpoints; f vectorised."""
    e = np.unique(np.concatenate([[a, b], [t for t in breaks if a < t < b]]))
    u, w = np.polynomial.legendre.leggauss(n)
    tot = 0.0
    for lo, hi in zip(e[:-1], e[1:]):
        x = 0.5 * (hi - lo) * u + 0.5 * (hi + lo)
        tot = tot + 0.5 * (hi - lo) * np.sum(w * f(x), -1)
    return tot


def natural_cubic(xk, yk, x):
    """Natural cubic interpolant from scipy-free tridiagonal solve in the second derivatives (float64)."""
    xk, yk, x = (np.asarray(v, float) for v in (xk, yk, x))
    n = len(xk)
    h = np.diff(xk)
    A, r = np.zeros((n, n)), np.zeros(n)
    A[0, 0] = A[-1, -1] = 1
    for i in range(1, n - 1):
        A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1] / 6, (h[i - 1] + h[i]) / 3, h[i] / 6
        r[i] = (yk[i + 1] - yk[i]) / h[i] - (yk[i] - yk[i - 1]) / h[i - 1]
    M = np.linalg.solve(A, r)
    j = np.clip(np.searchsorted(xk, x, side="right") - 1, 0, n - 2)
    a, b = (xk[j + 1] - x) / h[j], (x - xk[j]) / h[j]
    return a * yk[j] + b * yk[j + 1] + ((a**3 - a) * M[j] + (b**3 - b) * M[j + 1]) * h[j] ** 2 / 6
