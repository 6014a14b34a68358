"""Flat Lambda-CDM reference by high-order quadrature (float64)."""

import numpy as np

LVK = dict(H0=67.90, Om=0.3065)
P15 = dict(H0=67.74, Om=0.3089)
C = 299792.458  # km/s


def E(z, p):
    r = p.get("Or", 0.0)
    return np.sqrt(r * (1 + z) ** 4 + p["Om"] * (1 + z) ** 3 + 1 - p["Om"] - r)


def Dc(z, p):
    """comoving distance [Mpc]; substitution u = ln(1+z) keeps the integrand smooth to high redshift."""
    z = np.asarray(z, float)
    u, w = np.polynomial.legendre.leggauss(120)
    top = np.log1p(z)[..., None]
    s = np.expm1(0.5 * top * (u + 1))
    return C / p["H0"] * np.sum(0.5 * top * w * (1 + s) / E(s, p), -1)


def dVcdz(z, p):
    return 4 * np.pi * Dc(z, p) ** 2 * C / p["H0"] / E(np.asarray(z, float), p)


def DL(z, p):
    return (1 + np.asarray(z, float)) * Dc(z, p)


def Vc(z, p):
    return 4 * np.pi / 3 * Dc(z, p) ** 3
