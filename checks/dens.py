"""Reference densities (numpy float64 / scipy.special closed forms), independent of the code under test."""

import numpy as np
from scipy import special


def powerlaw(x, a, lo, hi, floor=0.0):
    x, a, lo, hi = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, a, lo, hi)))
    with np.errstate(all="ignore"):
        L = np.log(hi / lo)
        # (1+a)/(hi^(1+a)-lo^(1+a)) written through expm1 so that a -> -1 is the continuous limit
        t = (1 + a) * L
        n = np.where(np.isfinite(L), hi ** (-(1 + a)) * np.where(np.abs(t) < 1e-12, 1 / L, (1 + a) / (-np.expm1(-t))), (1 + a) / hi ** (1 + a))
        p = x**a * n
    return np.where((x < lo) | (x > hi), floor, p)


def powerlaw_inv_norm(a, lo, hi):
    return np.where(np.abs(a + 1) < 1e-12, np.log(hi / lo), (hi ** (1 + a) - lo ** (1 + a)) / np.where(a == -1, 1, 1 + a))


def truncnorm(x, mu, sig, lo, hi):
    x, mu, sig, lo, hi = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, mu, sig, lo, hi)))
    d = special.ndtr((hi - mu) / sig) - special.ndtr((lo - mu) / sig)
    p = np.exp(-0.5 * ((x - mu) / sig) ** 2) / (sig * np.sqrt(2 * np.pi)) / d
    return np.where((x < lo) | (x > hi), 0.0, p)


def trunclognorm(x, mu, sig, lo, hi):
    with np.errstate(all="ignore"):
        return np.where((x < lo) | (x > hi), 0.0, truncnorm(np.log(x), mu, sig, np.log(lo), np.log(hi)) / x)


def beta(x, a, b, scale=1.0, floor=0.0):
    x, a, b, s = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, a, b, scale)))
    with np.errstate(all="ignore"):
        l = special.xlogy(a - 1, x / s) + special.xlogy(b - 1, 1 - x / s) - special.betaln(a, b) - np.log(s)
    return np.where((x < 0) | (x > s), floor, np.exp(l))


def window(dx, x, xmin):
    """0 below, 1 above, the Planck taper in between."""
    x, dx, xmin = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, dx, xmin)))
    t = x - xmin
    with np.errstate(all="ignore"):
        w = special.expit(-(dx / t + dx / (t - dx)))
    return np.where(t <= 0, 0.0, np.where(t >= dx, 1.0, w))


def logistic(x, x0, sgn, sc):
    return special.expit(-sgn * sc * (np.asarray(x, float) - x0))


def plpeak(m, a, lo, hi, mu, sig, lam, delta=None):
    w = 1.0 if delta is None else window(delta, m, lo)
    return (1 - lam) * powerlaw(m, a, lo, hi) * w + lam * truncnorm(m, mu, sig, lo, hi)


def tilt(ct, xi, sig):
    return np.where(np.abs(ct) > 1, 0.0, (1 - xi) / 2) + xi * truncnorm(ct, 1.0, sig, -1.0, 1.0)
