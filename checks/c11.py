"""C11: parametric densities are correct, normalised and zero outside their bounds."""

import itertools

import numpy as np
from checks import dens, ref
from mc.core import Shard

PROPERTY = "C11"
BOUNDS = dict(
    power_law="10 slopes incl. -1 and its neighbourhood x 6 ranges x floors x 20+ points per range",
    truncated="means inside/outside, 4 widths, 4 ranges, linear and log form",
    beta="shapes {1,1.5,2,5,30}^2 (and 0.03, 0.5, 0.7 away from the edges), 3 scales, floors",
    logistic="slopes x signs x arguments up to +-400 e-folds (log form to 1e5)",
    models="all hyper-parameter combinations over three-valued alphabets for the mass, mass-ratio, spin magnitude and tilt models",
)
ASSUMPTIONS = ["only shape parameters for which the density is finite at the edge are judged at the edge"]


def D():
    from gwinferno import distributions

    return distributions


def P():
    from gwinferno.models.parametric import parametric

    return parametric


def pts(lo, hi):
    w = hi - lo
    return np.concatenate([lo + w * np.array([0, 1e-3, 0.01, 0.1, 0.25, 1 / 3, 0.5, 0.7, 0.9, 0.99, 1 - 1e-3, 1]), [lo - 1e-3 * w, lo - 0.4 * w, lo - 3 * w, hi + 1e-3 * w, hi + 0.4 * w, hi + 10 * w]])


def tol(ctx):
    return (1e-9, 1e-12) if ctx.x64 else (2e-3, 1e-6)


def J(*v):
    import jax.numpy as jnp

    return [jnp.asarray(np.asarray(x, float)) for x in v]


def distinct(ctx, f, args, exp, what, kw=None, mask=None):
    """Call once with arrays; and once per leading hyper-parameter row with plain python floats for some rows."""
    rt, at = tol(ctx)
    if ctx.x64 and ("beta" in what or "magnitude" in what):
        rt = 1e-6  # accuracy of the log-beta function
    got = f(*J(*args), **(kw or {}))
    ctx.step()
    ctx.trace(exp.size)
    ctx.front(exp.size)
    top = np.nanmax(np.where(np.isfinite(exp), np.abs(exp), 0)) or 1.0
    ctx.close(got, exp, what, rtol=rt, atol=at * top + (0 if ctx.x64 else 1e-30), mask=mask)
    ctx.outcome((what, round(float(np.sum(np.where(np.isfinite(exp), exp, 0))), 6)))
    return np.asarray(got, float)


def power(ctx):
    al = np.array([-4, -2.35, -1.001, -1, -0.999, -0.5, 0, 1, 2.5, 7.0])
    for (lo, hi), floor in itertools.product(((1.0, 2.0), (5.0, 100.0), (0.05, 1.0), (2.0, 2.5), (0.5, 0.9), (30.0, 31.0)), (0.0, 1e-3)):
        with ctx.at(lo=lo, hi=hi, floor=floor):
            x = pts(lo, hi)
            x = x[x > 0]
            A, X = np.meshgrid(al, x, indexing="ij")
            E = dens.powerlaw(X, A, lo, hi, floor)
            near = np.abs(A + 1) < 0.01
            rt = (1e-9, 1e-4)[not ctx.x64]
            distinct(ctx, D().powerlaw_pdf, (X, A, lo, hi), E, "power law", dict(floor=floor), mask=~near if not ctx.x64 else None)
            if floor == 0.0:
                distinct(ctx, D().powerlaw_pdf, (X, A, np.full_like(X, lo), np.full_like(X, hi)), E, "power law, array bounds", mask=~near if not ctx.x64 else None)
            for a in al:  # python scalars
                if not ctx.x64 and abs(a + 1) < 0.01 and a != -1:
                    continue
                g = np.asarray(D().powerlaw_pdf(J(x)[0], float(a), lo, hi, floor), float)
                ctx.step()
                ctx.close(g, dens.powerlaw(x, a, lo, hi, floor), "power law, scalar slope", rtol=tol(ctx)[0])
                n = ref.integrate(lambda u: np.asarray(D().powerlaw_pdf(J(u)[0], float(a), lo, hi), float), lo, hi, breaks=lo * (hi / lo) ** np.linspace(0, 1, 9), n=12)
                ctx.close(n, 1.0, "power law integrates to one", rtol=1e-8 if ctx.x64 else 2e-3)
            ctx.sample(lo=lo, hi=hi, slopes=al)
    with ctx.at(lo=0.0):
        x = np.linspace(0, 1.2, 25)
        for a in (0.0, 1.0, 2.5):
            distinct(ctx, D().powerlaw_pdf, (x, np.full_like(x, a), 0.0, 1.0), dens.powerlaw(x, a, 0.0, 1.0), "power law from zero")


def tapered(ctx):
    x = np.array([0.5, 1, 2, 3, 4.9, 5, 5.1, 10, 40, 64, 65, 66, 100.0])
    for a, lo, hi, lf, hf in itertools.product((-3.5, -1.0, 0.0, 2.0), (None, 0.0, 5.0), (None, 0.0, 65.0), (4.0, 0.5), (4.0, 1.5)):
        with ctx.at(a=a, lo=lo, hi=hi, lf=lf, hf=hf):
            E = x**a
            if lo is not None:
                E = E * dens.logistic(x, lo, -1, lf)
            if hi is not None:
                E = E * dens.logistic(x, hi, 1, hf)
            distinct(ctx, D().powerlaw_logit_pdf, (x, a), E, "tapered power law", dict(low=lo, high=hi, low_fall_off=lf, high_fall_off=hf))
    with ctx.at(defaults=True):
        distinct(ctx, D().powerlaw_logit_pdf, (x, -2.0), x**-2.0 * dens.logistic(x, 5.0, -1, 4.0) * dens.logistic(x, 65.0, 1, 4.0), "tapered power law, default falloff", dict(low=5.0, high=65.0))


def logistics(ctx):
    t = np.array([-400, -80, -30, -5, -1, -1e-3, 0, 1e-3, 1, 5, 30, 80, 400.0])
    t = t if ctx.x64 else t[1:-1]
    for x0, sgn, sc in itertools.product((-2.0, 0.0, 30.0), (1, -1, 1.0), (4, 0.5, 1.0)):
        with ctx.at(x0=x0, sgn=sgn, sc=sc):
            x = x0 + t / sc
            distinct(ctx, D().logistic_unit, (x, x0), dens.logistic(x, x0, sgn, sc), "logistic", dict(sgn=sgn, sc=sc))
            E = -np.logaddexp(0, sgn * sc * (x - x0))
            g = np.asarray(D().log_logistic_unit(J(x)[0], x0, sgn=sgn, sc=sc), float)
            ctx.step()
            ctx.trace(len(x))
            ctx.close(g, E, "log logistic", rtol=1e-9 if ctx.x64 else 1e-3, atol=1e-12 if ctx.x64 else 1e-5)
            far = np.array([-1e5, -3000.0, -900.0, 900.0, 3000.0, 1e5])
            g = np.asarray(D().log_logistic_unit(J(x0 + far / sc)[0], x0, sgn=sgn, sc=sc), float)
            ctx.close(g, -np.logaddexp(0, sgn * far), "log logistic far from its midpoint", rtol=1e-9 if ctx.x64 else 1e-3, atol=1e-12)
            ctx.step()
            ctx.trace(len(far))
            for L, k in ((1.0, 1.0), (2.5, -3.0), (0.5, 10.0)):
                distinct(ctx, D().logistic_function, (x, L, k / sc, x0), L / (1 + np.exp(np.clip(-k / sc * (x - x0), -600, 600))), "logistic function")


def truncated(ctx):
    for (lo, hi), mu, sig in itertools.product(((0.0, 1.0), (-1.0, 1.0), (5.0, 100.0), (2.0, 3.0)), (-1.0, 0.0, 0.4, 1.0, 2.5, 35.0), (0.1, 0.5, 4.0, 30.0)):
        d = abs(np.clip(mu, lo, hi) - mu) / sig
        if d > 3:
            continue
        with ctx.at(lo=lo, hi=hi, mu=mu, sig=sig):
            x = pts(lo, hi)
            distinct(ctx, D().truncnorm_pdf, (x, mu, sig, lo, hi), dens.truncnorm(x, mu, sig, lo, hi), "truncated normal")
            n = ref.integrate(lambda u: np.asarray(D().truncnorm_pdf(J(u)[0], mu, sig, lo, hi), float), lo, hi, breaks=np.concatenate([np.linspace(lo, hi, 20), mu + sig * np.linspace(-8, 8, 33)]), n=10)
            ctx.close(n, 1.0, "truncated normal integrates to one", rtol=1e-8 if ctx.x64 else 2e-3)
            m = np.array([mu, mu + 0.1])
            distinct(ctx, D().truncnorm_pdf, (x[:, None], m[None], np.full((1, 2), sig), lo, hi), dens.truncnorm(x[:, None], m[None], sig, lo, hi), "truncated normal, arrays")
    for (lo, hi), mu, sig in itertools.product(((0.5, 2.0), (5.0, 100.0), (0.01, 1.0)), (-0.5, 0.0, 1.0, 3.0), (0.3, 1.0, 2.0)):
        if abs(np.clip(mu, np.log(lo), np.log(hi)) - mu) / sig > 3:
            continue
        with ctx.at(lo=lo, hi=hi, mu=mu, sig=sig, log=True):
            x = pts(lo, hi)
            x = x[x > 0]
            distinct(ctx, D().truncnorm_pdf, (x, mu, sig, lo, hi), dens.trunclognorm(x, mu, sig, lo, hi), "truncated log-normal", dict(log=True))


def betas(ctx):
    for a, b, s, fl in itertools.product((1.0, 1.5, 2.0, 5.0, 30.0), (1.0, 1.5, 2.0, 5.0, 30.0), (1.0, 0.8, 2.0), (0.0, 1e-4)):
        with ctx.at(a=a, b=b, scale=s, floor=fl):
            x = pts(0.0, s)
            if not ctx.x64:
                x = x[np.abs(x - s) > 1e-6] if s == 0.8 else x
            E = dens.beta(x, a, b, s, fl)
            distinct(ctx, D().betadist, (x, a, b), E, "beta", dict(scale=s, floor=fl))
    for a, b, s in itertools.product((0.03, 0.5, 0.7, 1.0, 3.0), (0.03, 0.5, 1.0, 3.0), (1.0, 0.7)):
        with ctx.at(a=a, b=b, scale=s, interior=True):
            x = s * np.linspace(0.01, 0.99, 21)
            distinct(ctx, D().betadist, (x, a, b), dens.beta(x, a, b, s), "beta inside", dict(scale=s))
            distinct(ctx, P().beta_spin_magnitude, (x, a, b), dens.beta(x, a, b, s), "beta spin magnitude", dict(amax=s))
    with ctx.at(defaults=True):
        x = pts(0.0, 1.0)
        distinct(ctx, D().betadist, (x, 2.0, 5.0), dens.beta(x, 2.0, 5.0), "beta, default scale")
        distinct(ctx, P().beta_spin_magnitude, (x, 2.0, 5.0), dens.beta(x, 2.0, 5.0), "beta spin magnitude, default maximum")
        distinct(ctx, P().iid_spin_magnitude, (x[:, None], x[None], 2.0, 5.0), dens.beta(x[:, None], 2.0, 5.0) * dens.beta(x[None], 2.0, 5.0), "identical spin magnitudes, default maximum")
        distinct(ctx, P().independent_spin_magnitude_beta_dist, (x[:, None], x[None], 2.0, 5.0, 3.0, 1.5), dens.beta(x[:, None], 2.0, 5.0) * dens.beta(x[None], 3.0, 1.5), "independent spin magnitudes, default maxima")


def spins(ctx):
    x = np.array([-0.1, 0, 0.05, 0.2, 0.5, 0.7, 0.79, 0.81, 0.95, 1.0, 1.1])
    A, B = np.meshgrid(x, x, indexing="ij")
    al = (1.0, 1.5, 3.0)
    for a1, b1, a2, b2 in itertools.product(al, al, al, al):
        for s1, s2 in ((1.0, 1.0), (0.8, 1.0), (1.0, 0.8)):
            with ctx.at(a1=a1, b1=b1, a2=a2, b2=b2, s1=s1, s2=s2):
                distinct(
                    ctx,
                    P().independent_spin_magnitude_beta_dist,
                    (A, B, a1, b1, a2, b2),
                    dens.beta(A, a1, b1, s1) * dens.beta(B, a2, b2, s2),
                    "independent spin magnitudes",
                    dict(amax1=s1, amax2=s2),
                )
                if (a1, b1) == (a2, b2) and s1 <= s2:
                    distinct(ctx, P().iid_spin_magnitude, (A, B, a1, b1), dens.beta(A, a1, b1, s1) * dens.beta(B, a1, b1, s1), "identical spin magnitudes", dict(amax=s1))
    x = np.array([-1.2, -1.0, -0.7, 0.0, 0.3, 0.9, 1.0, 1.001])
    A, B = np.meshgrid(x, x, indexing="ij")
    for xi1, xi2, s1, s2 in itertools.product((0.0, 0.3, 1.0), (0.0, 0.6, 1.0), (0.03, 0.1, 0.7, 4.0), (0.05, 0.2, 1.5)):
        with ctx.at(xi1=xi1, xi2=xi2, s1=s1, s2=s2):
            distinct(ctx, P().independent_spin_tilt, (A, B, xi1, xi2, s1, s2), dens.tilt(A, xi1, s1) * dens.tilt(B, xi2, s2), "independent tilts")
            distinct(ctx, P().iid_spin_tilt, (A, B, xi1, s1), dens.tilt(A, xi1, s1) * dens.tilt(B, xi1, s1), "identical tilts")
            distinct(ctx, P().mixture_isoalign_spin_tilt, (x, xi1, s1), dens.tilt(x, xi1, s1), "tilt mixture")
            iso = np.where((np.abs(A) > 1) | (np.abs(B) > 1), 0.0, 0.25)
            E = (1 - xi1) * iso + xi1 * dens.truncnorm(A, 1, s1, -1, 1) * dens.truncnorm(B, 1, s1, -1, 1)
            distinct(ctx, P().default_spin_tilt, (A, B, xi1, s1), E, "default tilts")


def windows(ctx):
    for xmin, dx in itertools.product((2.0, 5.0, 0.3), (0.1, 1.0, 5.0, 10.0) + ((5e-4,) if ctx.x64 else ())):
        with ctx.at(xmin=xmin, dx=dx):
            f = np.array([-2, -0.5, -1e-3, 1e-3, 0.02, 0.1, 0.25, 0.5, 0.75, 0.9, 0.98, 0.999, 1.001, 1.5, 4])
            x = xmin + dx * f
            got = distinct(ctx, D().smooth, (dx, x, xmin), dens.window(dx, x, xmin), "smoothing window")
            ctx.check(np.all(got[:3] == 0) and np.all(got[-3:] == 1), "0 below and 1 above the smoothing region", observed=got)
            ctx.check(np.all(np.diff(got) >= -1e-7), "non-decreasing", observed=got)
            e = np.asarray(D().smooth(J(dx)[0], J([xmin, xmin + dx])[0], J(xmin)[0]), float)
            ctx.check(e[0] == 0 and abs(e[1] - 1) < 1e-6, "continuous at both ends", [0, 1], e)
            # far above the region it stays one, far below zero, whatever the scale
            far = np.asarray(D().smooth(J(dx)[0], J([xmin + 1e3 * dx, xmin - 1e3 * dx])[0], J(xmin)[0]), float)
            ctx.check(far[0] == 1 and far[1] == 0, "limits", [1, 0], far)


def masses(ctx, part):
    m = np.array([1.0, 2.9, 3.1, 3.5, 5.0, 6.0, 9.0, 20.0, 35.0, 49.0, 51.0, 79.9, 80.1, 120.0])
    q = np.array([0.01, 0.05, 0.1, 0.3, 0.5, 0.61, 0.9, 0.99, 1.0, 1.01])
    M, Q = np.meshgrid(m, q, indexing="ij")
    al = (-3.5, -1.0, 0.0, 2.0)
    for mmin, mmax in ((3.0, 80.0), (5.5, 50.0)):
        for a, b in itertools.product(al, (-2.0, -1.0, 0.0, 1.5)):
            pq = dens.powerlaw(Q, b, mmin / M, 1.0)
            if part == 0:
                with ctx.at(mmin=mmin, mmax=mmax, a=a, b=b):
                    distinct(ctx, P().powerlaw_primary_ratio_pdf, (M, Q, a, b, mmin, mmax), pq * dens.powerlaw(M, a, mmin, mmax), "power-law masses")
                    ok = M > mmin + 1e-9
                    for fo in (4.0, 1.5, 9.0):  # the falloff is that of the low-mass end, the high-mass end has the default one
                        E = M**a * dens.logistic(M, mmin, -1, fo) * dens.logistic(M, mmax, 1, 4.0)
                        distinct(ctx, P().powerlaw_primary_ratio_falloff_pdf, (M, Q, a, b, mmin, mmax, fo), np.where(ok, pq, 0) * E, "power-law masses with falloff")
                continue
            for mu, sig, lam, delta in itertools.product((10.0, 35.0), (1.0, 5.0), (0.0, 0.2, 1.0), (None, 0.5, 4.0)):
                with ctx.at(mmin=mmin, mmax=mmax, a=a, b=b, mu=mu, sig=sig, lam=lam, delta=delta):
                    pm = dens.plpeak(M, a, mmin, mmax, mu, sig, lam, delta)
                    w = 1.0 if delta is None else dens.window(delta, M * Q, mmin)
                    distinct(ctx, P().plpeak_primary_ratio_pdf, (M, Q, a, b, mmin, mmax, mu, sig, lam), pq * pm * w, "power law plus peak masses", dict(delta=delta))
                    if b == 0.0:
                        distinct(ctx, P().plpeak_primary_pdf, (m, a, mmin, mmax, mu, sig, lam), dens.plpeak(m, a, mmin, mmax, mu, sig, lam, delta), "power law plus peak", dict(delta=delta))


def shards(tier):
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        for f in (power, tapered, logistics, truncated, betas, spins, windows):
            out.append(Shard(f.__name__ + b, f, x, 3))
        out.append(Shard("masses%s-0" % b, masses, x, 2, part=0))
        out.append(Shard("masses%s-1" % b, masses, x, 5, part=1))
    return out
