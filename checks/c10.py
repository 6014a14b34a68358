"""C10: redshift models follow comoving volume, normalised by the surveyed volume."""

import itertools

import numpy as np
from checks import cosmo, ref
from checks.c06 import expected, integral, vectors
from mc.core import Shard

PROPERTY = "C10"
BOUNDS = dict(
    power_law="slopes {-3,-1,0,1,2.7,5} x five overlaps of event and injection redshift ranges x every sample",
    spline="every coefficient vector over {-1,0,1}^4 (one-hot and ramps for 6, 9) x slopes x overlaps; spline rate model with normalised and unnormalised bases",
    distribution="slopes x maxima x grids of different length x redshifts inside, at and beyond the maximum",
)
ASSUMPTIONS = [
    "comoving volume of the code comes from tables: compared to 2e-4 (64-bit) / 5e-3 (32-bit), its integral to 1e-3",
    "with a logarithmic variable the spline factor at the exact ends of its range is not judged",
]
P = cosmo.LVK
LAM = (-3.0, -1.0, 0.0, 1.0, 2.7, 5.0)
# (event range, injection range)
OVER = (((0.01, 2.0), (0.02, 1.9)), ((0.05, 1.0), (0.01, 2.3)), ((0.01, 2.3), (0.2, 0.9)), ((0.1, 1.2), (0.01, 0.8)), ((0.03, 0.5), (0.1, 2.0)))


def data(o):
    (a, b), (c, d) = o
    pe = np.concatenate([np.linspace(a, b, 12)]).reshape(3, 4)
    inj = np.linspace(c, d, 17)
    return pe, inj, max(a, c), min(b, d)


def tol(ctx):
    return 3e-4 if ctx.x64 else 6e-3


def vol(f, lo, hi):
    return ref.integrate(f, lo, hi, breaks=lo * (hi / lo) ** np.linspace(0, 1, 9), n=12)


def powerlaw(ctx):
    import jax.numpy as jnp
    from gwinferno.models.parametric.parametric import PowerlawRedshiftModel

    for o in OVER:
        pe, inj, lo, hi = data(o)
        mod = PowerlawRedshiftModel(jnp.asarray(pe), jnp.asarray(inj))
        ctx.step()
        for lam in LAM:
            with ctx.at(overlap=o, lam=lam):
                f = lambda z: cosmo.dVcdz(z, P) * (1 + z) ** (lam - 1)  # noqa: E731
                Z = vol(f, lo, hi)
                ctx.close(mod.normalization(lam), Z, "normalisation is the volume integral", rtol=1e-3 if ctx.x64 else 8e-3)
                for what, z in (("events", pe), ("injections", inj)):
                    for mk in (jnp.asarray, np.asarray):
                        got = np.asarray(mod(mk(z), lam), float)
                        ctx.step()
                        ctx.trace()
                        ctx.front(z.size)
                        edge = np.abs(z - hi) < 1e-5
                        E = np.where(z > hi, 0.0, f(z) / Z)
                        ctx.close(got, E, "density at " + what, rtol=1.5e-3 if ctx.x64 else 1e-2, mask=~edge)
                        if ctx.x64:  # the shape is not limited by the normalisation integral
                            n = np.asarray(mod.normalization(lam), float)
                            ctx.close(got * n, np.where(z > hi, 0.0, f(z)), "volume element times power of 1+z at " + what, rtol=tol(ctx), mask=~edge)
                        ctx.check(np.all(got[z > hi + 1e-5] == 0), "zero beyond the maximum redshift")
                        lp = np.asarray(mod.log_prob(mk(z), lam), float)
                        ctx.step()
                        ctx.close(np.exp(lp), got, "log density at " + what, rtol=1e-9 if ctx.x64 else 2e-4, mask=~edge)
                        ctx.check(not np.isnan(lp).any(), "log density never NaN")
                        ctx.check(np.all(np.exp(lp[z > hi + 1e-5]) == 0), "log density beyond the maximum redshift is that of zero", observed=lp[z > hi + 1e-5][:4])
                        e = np.asarray(mod(mk(np.where(edge, hi, z)), lam), float)[edge]
                        if ctx.x64 and edge.any():
                            ctx.close(e, (f(z) / Z)[edge], "density at the maximum redshift itself", rtol=1.5e-3)
                ctx.outcome((o, lam, round(float(Z) / 1e9, 6)))
        ctx.sample(overlap=o, events=pe.shape, injections=inj.shape)


def perturbed(ctx, n):
    import jax
    import jax.numpy as jnp
    from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel

    C = np.array(list(itertools.product((-1.0, 0.0, 1.0), repeat=4))) if n == 4 else vectors(n, True, False)
    for o in OVER:
        pe, inj, lo, hi = data(o)
        mod = PowerlawSplineRedshiftModel(n, jnp.asarray(pe), jnp.asarray(inj))
        knots = ref.default_knots(n, 4, (np.log(lo), np.log(hi)))
        vr = (np.log(lo), np.log(hi))
        for lam in LAM if ctx.thorough else (-1.0, 0.0, 2.7):
            with ctx.at(overlap=o, lam=lam, n=n):
                f = lambda z: cosmo.dVcdz(z, P) * (1 + z) ** (lam - 1) * np.exp(C @ ref.bspline(np.log(z), knots, 4, vr))  # noqa: E731
                inner = np.exp(knots[3:-3])
                Z = ref.integrate(f, lo, hi, breaks=inner, n=20)
                nz = np.asarray(jax.vmap(lambda c: mod.normalization(lam, c))(jnp.asarray(C)), float)
                ctx.close(nz, Z, "normalisation is the integral of the unnormalised density", rtol=3e-3 if ctx.x64 else 1.2e-2)
                for what, z in (("events", pe), ("injections", inj)):
                    got = np.asarray(jax.vmap(lambda c: mod(jnp.asarray(z), lam, c))(jnp.asarray(C)), float).reshape(len(C), -1)
                    zz = z.ravel()
                    ctx.step(len(C))
                    ctx.trace(len(C))
                    ctx.front(len(C) * zz.size)
                    edge = (np.abs(zz - hi) < 1e-5) | (np.abs(zz - lo) < 1e-5)
                    raw = np.where(zz > hi, 0.0, f(zz))
                    ctx.close(got * nz[:, None], raw, "volume x power x exp(spline) at " + what, rtol=tol(ctx) if ctx.x64 else 2e-2, mask=~edge[None])
                    ctx.check(np.all(got[:, zz > hi + 1e-5] == 0), "zero beyond the maximum redshift")
                    if n == 4:
                        flat = np.asarray(mod(jnp.asarray(z), lam, jnp.zeros(n)), float).ravel()
                        E = np.where(zz > hi, 0, cosmo.dVcdz(zz, P) * (1 + zz) ** (lam - 1) / vol(lambda y: cosmo.dVcdz(y, P) * (1 + y) ** (lam - 1), lo, hi))
                        ctx.close(flat, E, "vanishing coefficients give the power law", rtol=2e-3 if ctx.x64 else 1e-2, mask=None if ctx.x64 else ~edge)
                ctx.outcome((o, lam, n, round(float(Z.sum()) / 1e9, 6)))


def spline_rate(ctx, n):
    import jax
    import jax.numpy as jnp
    from gwinferno.interpolation import BSpline, LogXBSpline
    from gwinferno.models.bsplines.single import BSplineRedshift

    C = np.array(list(itertools.product((-1.0, 0.5, 1.0), repeat=4))) if n == 4 else vectors(n, True, False)
    for o in OVER:
        pe, inj, lo, hi = data(o)
        dp, di = cosmo.dVcdz(pe, P), cosmo.dVcdz(inj, P)
        for bname, basis, kw, xr in (
            ("LogXBSpline", LogXBSpline, dict(normalize=False), (1e-4, 2.3 + 0.1)),
            ("LogXBSpline", None, dict(normalize=False, zmax=3.0), (1e-4, 3.0)),
            ("BSpline", BSpline, dict(xrange=(0.0, 2.5)), (0.0, 2.5)),
            ("LogXBSpline", None, dict(), (1e-4, 2.3)),
        ):
            kw = dict(kw)
            if basis is not None:
                kw["basis"] = basis
                if "xrange" not in kw:
                    kw["xrange"] = xr
            normd = bname == "LogXBSpline" and "normalize" not in kw
            if normd and max(pe.max(), inj.max()) >= 2.3:
                continue
            with ctx.at(overlap=o, basis=bname, n=n, kw=str(sorted(kw))):
                mod = BSplineRedshift(n, jnp.asarray(pe), jnp.asarray(inj), jnp.asarray(dp), jnp.asarray(di), **kw)
                logx = bname == "LogXBSpline"
                vr = tuple(np.log(xr)) if logx else xr
                knots = ref.default_knots(n, 4, vr)
                Cn = C
                if normd:  # the default basis is normalised before it is exponentiated
                    Cn = C[np.abs(integral("LogXBSpline", C, knots, 4, vr)) > 0.15]
                zn = integral("LogXBSpline", Cn, knots, 4, vr)[:, None] if normd else 1.0
                s = lambda z: Cn @ ref.bspline(np.log(z) if logx else z, knots, 4, vr) / zn  # noqa: E731
                f = lambda z: cosmo.dVcdz(z, P) / (1 + z) * np.exp(s(z))  # noqa: E731
                brk = np.exp(knots) if logx else knots
                Z = ref.integrate(f, lo, hi, breaks=brk, n=20)
                nz = np.asarray(jax.vmap(mod.normalization)(jnp.asarray(Cn)), float)
                loose = 3e-2 if normd else (3e-3 if ctx.x64 else 1.5e-2)
                ctx.close(nz, Z, "normalisation integrates the evaluated density", rtol=loose)
                for what, z, flag in (("events", pe, True), ("injections", inj, False)):
                    got = np.asarray(jax.vmap(lambda c: mod(c, pe_samples=flag))(jnp.asarray(Cn)), float)
                    ctx.step(len(Cn))
                    ctx.trace(len(Cn))
                    ctx.front(len(Cn) * z.size)
                    if not ctx.check(got.shape == (len(Cn),) + z.shape, "shape", observed=got.shape):
                        continue
                    got = got.reshape(len(Cn), -1)
                    ctx.close(got * nz[:, None], f(z.ravel()), "volume/(1+z) x exp(spline) at " + what, rtol=loose if (normd or not ctx.x64) else 1e-6)
                ctx.outcome((o, bname, n, round(float(Z.sum()) / 1e9, 5)))


def distribution(ctx):
    import jax.numpy as jnp
    from gwinferno.numpyro_distributions import PowerlawRedshift

    for zmax, npts in itertools.product((0.5, 1.0, 2.3, 5.0), (400, 1000)):
        zg = np.linspace(1e-9, zmax, npts)
        dv = cosmo.dVcdz(zg, P)
        z = np.concatenate([zmax * np.array([0.02, 0.1, 0.33, 0.5, 0.77, 0.999]), zmax * np.array([1.01, 1.5, 4.0])])
        for lam in LAM:
            with ctx.at(zmax=zmax, npts=npts, lam=lam):
                d = PowerlawRedshift(lamb=lam, maximum=zmax, zgrid=jnp.asarray(zg), dVcdz=jnp.asarray(dv))
                Z = ref.integrate(lambda y: cosmo.dVcdz(y, P) * (1 + y) ** (lam - 1), 0, zmax, breaks=np.linspace(0, zmax, 5), n=20)
                ctx.close(d.norm, Z, "normalisation is the surveyed volume", rtol=1e-4 if ctx.x64 else 1e-3)
                E = np.where(z > zmax, 0.0, cosmo.dVcdz(z, P) * (1 + z) ** (lam - 1) / Z)
                for kw in ({}, dict(dVdc=jnp.asarray(cosmo.dVcdz(z, P)))):
                    lp = np.asarray(d.log_prob(jnp.asarray(z), **kw), float)
                    ctx.step()
                    ctx.trace()
                    ctx.front(len(z))
                    ctx.close(np.exp(lp), E, "density" + (" with supplied volume element" if kw else ""), rtol=2e-3 if not kw else 1e-3)
                ctx.outcome((zmax, lam, round(float(Z) / 1e9, 6)))


def shards(tier):
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        out += [Shard("powerlaw" + b, powerlaw, x, 4), Shard("distribution" + b, distribution, x, 3)]
        for n in (4, 6) + ((9, 14) if tier == "thorough" else ()):
            if x or tier == "thorough" or n == 4:
                out += [Shard("perturbed%s-%d" % (b, n), perturbed, x, 5, n=n), Shard("rate%s-%d" % (b, n), spline_rate, x, 5, n=n)]
    return out
