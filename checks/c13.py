"""C13: sampler distributions have matching density, CDF, quantile and draws."""

import itertools

import numpy as np
from checks import cosmo, ref
from mc.core import Shard

PROPERTY = "C13"
BOUNDS = dict(
    supports="declared support and the sampler's map into it for every placement of density bounds and support bounds over three intervals, and the defaults",
    distributions="Sine, Cosine, Powerlaw, PowerlawRedshift, PowerlawSmoothedPowerlaw, BSplineDistribution, PSplineCoeficientPrior",
    parameters="every combination of the bound and slope alphabets (slopes include -1, 0 and their neighbours), given as plain numbers, arrays and batches of up to two dimensions",
    points="lattice of values below, at, inside and above the bounds; probabilities 0, 1/16, ..., 1",
    draws="3 keys x 3 sample shapes; 2000 draws of a fixed stream against the CDF (Kolmogorov distance below 2.5/sqrt(N))",
)
ASSUMPTIONS = [
    "power laws are judged at positive arguments only",
    "grid-based CDFs (redshift, spline) are judged to within two cells of their grid",
    "minus infinity and the most negative finite number are both accepted as a vanishing log density",
    "the smoothed power law offers no draws (the code returns a placeholder) and the smoothing prior's draws are a placeholder fixed by the repository's tests",
]
U = np.linspace(0, 1, 17)


def floor(v):
    return np.asarray(v, float) < -1e30


def dist(ctx, make, name, pdf, cdf, lo, hi, pts, exact=True, cell=0.0, draws=True, tol=None, outside=True, atol=0.0):
    """one distribution object against the reference density/CDF; pts inside (lo, hi)."""
    import jax

    rt = tol or (1e-8 if ctx.x64 else 1e-3)
    d = make()
    x = np.asarray(pts, float)
    got = np.asarray(d.log_prob(x), float)
    ctx.step()
    ctx.close(np.exp(got), pdf(x), name + ": density", rtol=rt, atol=atol + 1e-12 if ctx.x64 else 1e-6)
    w = hi - lo
    if outside:
        o = np.array([lo - 0.3 * w - 0.01, lo - 1e-3 * w, hi + 1e-3 * w, hi + 0.4 * w])
        o = o[(o > 0) | (name != "powerlaw")]
        g = np.asarray(d.log_prob(o), float)
        ctx.check(floor(g).all(), name + ": log density outside the bounds", "-inf", g)
        if cdf is not None:
            c = np.asarray(d.cdf(o), float)
            ctx.close(c, np.where(o < lo, 0.0, 1.0), name + ": CDF outside the bounds", atol=cell + 1e-6)
        ctx.step(2)
    if cdf is not None:
        c = np.asarray(d.cdf(x), float)
        ctx.close(c, cdf(x), name + ": CDF is the integral of the density", rtol=rt, atol=cell + (1e-9 if ctx.x64 else 3e-6))
        ctx.check(np.all(np.diff(c) >= -1e-9 if ctx.x64 else np.diff(c) >= -1e-5), name + ": CDF increases", observed=c)
        q = np.asarray(d.icdf(U), float)
        ctx.check(np.all(q >= lo - 1e-5 * w) and np.all(q <= hi + 1e-5 * w), name + ": quantiles in the support", (lo, hi), (q.min(), q.max()))
        ctx.close(np.asarray(d.cdf(q), float), U, name + ": CDF of the quantile", atol=cell + (1e-9 if ctx.x64 else 2e-4), mask=(U > 0) & (U < 1))
        ctx.close(cdf(q), U, name + ": quantile inverts the integral of the density", atol=cell + (1e-8 if ctx.x64 else 2e-4))
        ctx.step(3)
    if draws:
        for seed, shape in itertools.product((0, 1, 7), ((), (5,), (2, 3))):
            s = np.asarray(d.sample(jax.random.PRNGKey(seed), shape), float)
            ctx.step()
            ctx.check(s.shape == shape + tuple(d.batch_shape), name + ": shape of draws", shape, s.shape)
            ctx.check(np.all(s >= lo - 1e-5 * w) and np.all(s <= hi + 1e-5 * w), name + ": draws in the support", (lo, hi), s)
            ctx.check(len(np.unique(s)) == s.size, name + ": independent draws", observed=s)
        s = np.sort(np.asarray(d.sample(jax.random.PRNGKey(3), (2000,)), float).ravel())
        N = s.size
        ks = np.abs(cdf(s) - (np.arange(N) + 0.5) / N).max()
        ctx.check(ks < 2.5 / np.sqrt(N) + cell, name + ": draws follow the CDF", "< %.3f" % (2.5 / np.sqrt(N)), ks)
    ctx.trace()
    ctx.front(x.size)
    ctx.outcome((name, round(float(np.sum(got[np.isfinite(got)])), 4)))


def lattice(lo, hi):
    return lo + (hi - lo) * np.array([1e-3, 0.01, 0.1, 0.25, 0.4, 0.5, 0.63, 0.77, 0.9, 0.99, 0.999])


def forms(ctx, *vals):
    """plain numbers and arrays"""
    import jax.numpy as jnp

    yield "plain", vals
    yield "array", tuple(jnp.asarray(v) for v in vals)


def trig(ctx):
    from gwinferno.numpyro_distributions import Cosine, Sine

    b = np.pi * np.array([0, 0.1, 0.25, 0.4, 0.5, 0.6, 0.8, 0.95, 1.0])
    for (a, c), kind in itertools.product(itertools.combinations(b, 2), ("sin", "cos")):
        if kind == "sin":
            lo, hi, cls, prim = a, c, Sine, lambda x: -np.cos(x)
            den = np.sin
        else:
            lo, hi, cls, prim = a - np.pi / 2, c - np.pi / 2, Cosine, np.sin
            den = np.cos
        lo, hi = float(lo), float(hi)
        Z = prim(hi) - prim(lo)
        for form, (l_, h_) in forms(ctx, lo, hi):
            with ctx.at(kind=kind, lo=lo, hi=hi, form=form):
                dist(ctx, lambda: cls(l_, h_), kind, lambda x: den(x) / Z, lambda x: (prim(x) - prim(lo)) / Z, lo, hi, lattice(lo, hi), draws=form == "plain" or ctx.thorough, tol=None if ctx.x64 else 5e-3)
    import jax

    for sh in ((3,), (3, 2)):  # arrays of bounds
        lo = (0.2 + 0.3 * np.arange(3)).reshape((3,) + (1,) * (len(sh) - 1))
        hi = (2.0 + 0.4 * np.arange(sh[-1])).reshape((sh[-1],))
        for name, mk, prim, den, off in (("sin", Sine, lambda x: -np.cos(x), np.sin, 0.0), ("cos", Cosine, np.sin, np.cos, -np.pi / 2)):
            l_, h_ = lo + off, hi + off
            with ctx.at(kind=name, batch=sh):
                d = mk(J(l_), J(h_))
                ctx.check(tuple(d.batch_shape) == sh, "one distribution per pair of bounds", sh, tuple(d.batch_shape))
                L, H = np.broadcast_to(l_, sh), np.broadcast_to(h_, sh)
                for t in (0.1, 0.5, 0.9):
                    x = L + t * (H - L)
                    Z = prim(H) - prim(L)
                    ctx.close(np.exp(np.asarray(d.log_prob(J(x)), float)), den(x) / Z, "batched density", rtol=1e-8 if ctx.x64 else 5e-3)
                    ctx.close(np.asarray(d.cdf(J(x)), float), (prim(x) - prim(L)) / Z, "batched CDF", atol=1e-8 if ctx.x64 else 5e-3)
                    ctx.close(prim(np.asarray(d.icdf(t), float)) - prim(L), t * Z, "batched quantile", atol=1e-8 if ctx.x64 else 5e-3)
                    ctx.step(3)
                for seed, shape in itertools.product((0, 5), ((), (4,), (2, 3))):
                    s = np.asarray(d.sample(jax.random.PRNGKey(seed), shape), float)
                    ctx.step()
                    if ctx.check(s.shape == shape + sh, "shape of batched draws", shape + sh, s.shape):
                        ctx.check(np.all((s >= L - 1e-5) & (s <= H + 1e-5)) and len(np.unique(s)) == s.size, "batched draws are independent and inside", observed=s)
                ctx.trace()
    with ctx.at(kind="defaults"):
        x = lattice(0, np.pi)
        ctx.close(np.exp(np.asarray(Sine().log_prob(x), float)), np.sin(x) / 2, "default sine", rtol=1e-3)
        ctx.close(np.exp(np.asarray(Cosine().log_prob(x - np.pi / 2), float)), np.sin(x) / 2, "default cosine", rtol=1e-3, atol=1e-6)


def pl(a, lo, hi):
    if abs(a + 1) < 1e-13:
        Z = np.log(hi / lo)
        return (lambda x: 1 / x / Z), (lambda x: np.log(np.maximum(x, lo) / lo) / Z)
    Z = (hi ** (a + 1) - lo ** (a + 1)) / (a + 1)
    return (lambda x: x**a / Z), (lambda x: (np.maximum(x, lo) ** (a + 1) - lo ** (a + 1)) / (a + 1) / Z)


SLOPES = (-9.0, -4.0, -2.35, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 3.0, 8.0)


def powerlaw(ctx, lo, hi):
    import jax.numpy as jnp
    from gwinferno.numpyro_distributions import Powerlaw

    slopes = SLOPES + ((-0.9, -1.1, 2.0, 6.0) if ctx.thorough else ())
    for a in slopes:
        if lo == 0.0 and a <= -1:
            continue
        p, c = pl(a, lo, hi)
        for form, (aa, l_, h_) in forms(ctx, a, lo, hi):
            with ctx.at(alpha=a, lo=lo, hi=hi, form=form):
                dist(ctx, lambda: Powerlaw(aa, l_, h_, low=lo, high=hi), "powerlaw", p, c, lo, hi, lattice(lo, hi), draws=form == "plain" or ctx.thorough, tol=None if ctx.x64 else 5e-3)
    with ctx.at(batch="slopes"):
        sl = [a for a in slopes if lo > 0 or a > -1]
        d = Powerlaw(jnp.asarray(sl), lo, hi)
        for x in lattice(lo, hi):
            g = np.asarray(d.log_prob(x), float)
            ctx.step()
            ctx.close(np.exp(g), np.array([pl(a, lo, hi)[0](x) for a in sl]), "batched slopes", rtol=1e-8 if ctx.x64 else 5e-3)
        s = np.asarray(d.sample(__import__("jax").random.PRNGKey(0), (4,)))
        ctx.check(s.shape == (4, len(sl)) and len(np.unique(s)) == s.size, "batched draws", (4, len(sl)), s.shape)
    with ctx.at(batch="bounds"):
        h = np.array([hi, hi * 1.5, hi * 2])
        d = Powerlaw(1.5, lo, jnp.asarray(h))
        for x in lattice(lo, hi):
            ctx.close(np.exp(np.asarray(d.log_prob(x), float)), np.array([pl(1.5, lo, v)[0](x) for v in h]), "batched bounds", rtol=1e-8 if ctx.x64 else 5e-3)
            ctx.step()
    if lo == 0.0 and hi == 1.0:
        with ctx.at(defaults=True):
            x = lattice(0, 1)
            ctx.close(np.exp(np.asarray(Powerlaw(2.0).log_prob(x), float)), 3 * x**2, "default bounds", rtol=1e-5)


def redshift(ctx, zmax):
    from gwinferno.numpyro_distributions import PowerlawRedshift

    for lamb, n in itertools.product((-2.0, 0.0, 1.0, 2.7, 5.0) + ((-4.0, 8.0) if ctx.thorough else ()), (300, 1000)):
        zs = np.linspace(1e-4, zmax, n)
        dv = cosmo.dVcdz(zs, cosmo.LVK) / 1e9
        f = lambda z: cosmo.dVcdz(z, cosmo.LVK) / 1e9 * (1 + z) ** (lamb - 1)  # noqa: E731
        gridcdf(ctx, lambda: PowerlawRedshift(lamb, zmax, J(zs), J(dv), high=100.0), "redshift", f, zs, dict(lamb=lamb, zmax=zmax, n=n), above=zmax)
        with ctx.at(lamb=lamb, zmax=zmax, n=n, cut=True):
            # a maximum below the end of the grid still cuts the density
            d = PowerlawRedshift(lamb, zmax / 2, J(zs), J(dv))
            g = np.asarray(d.log_prob(np.array([zmax * 0.4, zmax * 0.51, zmax * 0.9, zmax * 1.2])), float)
            ctx.check(np.array_equal(floor(g), [False, True, True, True]), "redshift: nothing beyond the maximum", observed=g)
            # an explicitly supplied volume element replaces the tabulated one
            g2 = np.asarray(d.log_prob(zs[3:60:7], dVdc=J(2 * dv[3:60:7])), float)
            ctx.close(g2, np.asarray(d.log_prob(zs[3:60:7]), float) + np.log(2), "redshift: supplied volume element", rtol=1e-6 if ctx.x64 else 1e-3, atol=1e-6 if ctx.x64 else 1e-3)
            ctx.step(3)


def supports(ctx):
    """the declared support, through which a sampler moves: exactly the interval given, for every placement of the bounds"""
    from gwinferno import numpyro_distributions as N
    from numpyro.distributions import biject_to

    zs = np.linspace(1e-4, 2.3, 50)
    dm = np.abs(np.sin(np.arange(4)[:, None] + np.linspace(0, 3, 40)))
    pairs = ((0.5, 2.0), (1.0, 7.0), (3.0, 4.0))
    cases = []
    for lo, hi in pairs:
        cases += [("sine", (lo, hi), N.Sine(lo / 3, hi / 3), (lo / 3, hi / 3)), ("cosine", (lo, hi), N.Cosine(lo / 5, hi / 5), (lo / 5, hi / 5))]
        cases += [("spline, wider grid", (lo, hi), N.BSplineDistribution(lo, hi, J(np.array([0.1, 0.5, 1.0, -0.3])), J(np.linspace(lo - 0.3, hi + 1, 40)), J(dm)), (lo, hi))]
        cases += [("spline", (lo, hi), N.BSplineDistribution(lo, hi, J(np.array([0.1, 0.5, 1.0, -0.3])), J(np.linspace(lo, hi, 40)), J(dm)), (lo, hi))]
        for sl, (mn, mx) in itertools.product((-2.0, -1.0, 1.5), pairs):
            cases += [("power law", (sl, mn, mx, lo, hi), N.Powerlaw(sl, mn, mx, low=lo, high=hi), (lo, hi))]
        for l_, mx in itertools.product((0.0, 2.7), (1.0, 2.3)):
            cases += [("redshift", (l_, mx, lo, hi), N.PowerlawRedshift(l_, mx, J(zs), J(1 + zs), low=lo, high=hi), (lo, hi))]
        cases += [("smoothed", (lo, hi), N.PowerlawSmoothedPowerlaw(-2.0, lo * 1.1, hi * 0.9, 3.0, 2.0, lo, hi), (lo, hi))]
    for sl in (-0.5, 2.0):
        cases += [("power law", "default", N.Powerlaw(sl), (0.0, 1.0)), ("redshift", "default", N.PowerlawRedshift(sl, 2.0, J(zs), J(1 + zs)), (0.0, 1000.0))]
    cases += [("sine", "default", N.Sine(), (0.0, np.pi)), ("cosine", "default", N.Cosine(), (-np.pi / 2, np.pi / 2))]
    # a batch over any one argument: one independent draw per element
    b, f = (lambda v: J(np.full(3, v))), float
    for which in range(3):
        w = [b if i == which else f for i in range(3)]
        for name, d in (("sine", N.Sine(w[0](0.5), w[1](2.0))), ("cosine", N.Cosine(w[0](-0.5), w[1](1.0))), ("power law", N.Powerlaw(w[2](1.5), w[0](1.0), w[1](7.0), low=1.0, high=7.0))):
            if d.batch_shape == ():
                continue
            for shape in ((), (1,), (4,), (2, 3)):
                with ctx.at(dist=name, batched=which, shape=shape):
                    s = np.asarray(d.sample(__import__("jax").random.PRNGKey(5), shape), float)
                    ctx.check(s.shape == shape + (3,), "shape of batched draws", shape + (3,), s.shape)
                    ctx.check(len(np.unique(s)) == s.size, "draws of a batch are not copies of one another", s.size, len(np.unique(s)))
                    ctx.step()
    for name, path, d, (lo, hi) in cases:
        with ctx.at(dist=name, bounds=path):
            w = hi - lo
            x = np.array([lo - w, lo - 0.01 * w, lo + 0.01 * w, lo + 0.5 * w, hi - 0.01 * w, hi + 0.01 * w, hi + w])
            ctx.check(np.array_equal(np.asarray(d.support(J(x))), (x > lo) & (x < hi)), "declared support", (lo, hi), np.asarray(d.support(J(x))))
            y = np.asarray(biject_to(d.support)(J(np.array([-30.0, -2.0, 0.0, 2.0, 30.0]))), float)
            ctx.check(np.all(np.diff(y) > 0 if ctx.x64 else np.diff(y) >= 0), "sampler's map into the support increases", observed=y)
            ctx.close(y[[0, 2, 4]], [lo, lo + w / 2, hi], "sampler's map covers the support", rtol=1e-5, atol=1e-5 * w)
            ctx.step(2)
            ctx.trace()
            ctx.outcome((name, lo, hi))


def J(x):
    import jax.numpy as jnp

    return jnp.asarray(x)


def gridcdf(ctx, make, name, f, grid, path, above=None):
    lo, hi = float(grid[0]), float(grid[-1])
    fine = np.unique(np.concatenate([np.linspace(lo, hi, 20001)]))
    y = f(fine)
    F = np.concatenate([[0], np.cumsum(np.diff(fine) * (y[1:] + y[:-1]) / 2)])
    Z = F[-1]
    cell = 2.0 * np.max(np.diff(grid)) * y.max() / Z
    with ctx.at(**path):
        dist(ctx, make, name, lambda x: f(x) / Z, lambda x: np.interp(x, fine, F / Z), lo, hi, lattice(lo, hi), cell=cell, tol=3 * (hi - lo) / len(grid) / 10 + 1e-3 + 10.0 / len(grid) ** 1.5, outside=False, atol=1e-3 * y.max() / Z)
        gf = f(grid)
        Zg = np.sum(np.diff(grid) * (gf[1:] + gf[:-1]) / 2)
        i = np.arange(1, len(grid) - 1, 7)
        ctx.close(np.exp(np.asarray(make().log_prob(J(grid[i])), float)), gf[i] / Zg, name + ": density at the grid points", rtol=1e-8 if ctx.x64 else 1e-3)
        ctx.close(np.asarray(make().cdf(J(grid[[0, -1]])), float), [0.0, 1.0], name + ": CDF at the ends of the grid", atol=1e-12 if ctx.x64 else 1e-6)
        ctx.close(np.asarray(make().icdf(J([1.0])), float), [hi], name + ": largest quantile", rtol=1e-9 if ctx.x64 else 1e-5)
        if above is not None:
            d = make()
            g = np.asarray(d.log_prob(above * np.array([1.001, 1.5])), float)
            ctx.check(floor(g).all(), name + ": nothing beyond the maximum", observed=g)


def smoothed(ctx):
    from gwinferno.numpyro_distributions import PowerlawSmoothedPowerlaw

    for al, (mn, mx), ax, an, (lo, hi) in itertools.product((-3.5, -2.0, 0.0, 1.5), ((5.0, 40.0), (6.5, 90.0), (5.0, 80.0)), (3.0, 10.0), (2.0, 8.0), ((2.0, 100.0), (3.0, 150.0))):
        def shape(x):
            a = np.where(x < mn, (x / mn) ** an * mn**al, np.where(x > mx, (x / mx) ** (-ax) * mx**al, x**al))
            return a

        Z = float(ref.integrate(shape, lo, hi, breaks=[mn, mx] + list(np.geomspace(lo, hi, 12)), n=24))
        x = np.unique(np.concatenate([lattice(lo, hi), [mn - 0.4, mn, mn + 0.1, mx - 0.1, mx, mx + 0.5]]))
        for form, v in forms(ctx, al, mn, mx, ax, an):
            with ctx.at(alpha=al, minimum=mn, maximum=mx, alpha_max=ax, alpha_min=an, low=lo, high=hi, form=form):
                dist(ctx, lambda: PowerlawSmoothedPowerlaw(*v, lo, hi), "smoothed power law", lambda t: shape(t) / Z, None, lo, hi, x, draws=False, outside=False, tol=None if ctx.x64 else 1e-2)


def spline(ctx, n, k):
    from gwinferno.numpyro_distributions import BSplineDistribution

    for (lo, hi), N in itertools.product(((0.0, 1.0), (-1.0, 1.0), (2.0, 10.0)), (400, 1001)):
        grid = np.linspace(lo, hi, N)
        kn = ref.default_knots(n, k, (lo, hi))
        dm = ref.bspline(grid, kn, k, (lo, hi))
        for c in [np.zeros(n)] + list(1.5 * np.eye(n)) + [np.linspace(-1, 2, n), np.cos(3.0 * np.arange(n))]:
            f = lambda x: np.exp(c @ ref.bspline(x, kn, k, (lo, hi)))  # noqa: E731
            gridcdf(ctx, lambda: BSplineDistribution(lo, hi, J(c), J(grid), J(dm)), "spline", f, grid, dict(n=n, k=k, lo=lo, hi=hi, N=N, c=c))
        # grid points without any basis function are marked by NaN and carry no probability
        with ctx.at(n=n, k=k, lo=lo, hi=hi, N=N, nan=True):
            cut = grid < lo + 0.25 * (hi - lo)
            dn = np.where(cut, np.nan, dm)
            c = np.linspace(-1, 2, n)
            d = BSplineDistribution(lo, hi, J(c), J(grid), J(dn))
            w = np.where(cut, 0.0, np.exp(c @ dm))
            Z = np.sum(np.diff(grid) * (w[1:] + w[:-1]) / 2)
            got = np.asarray(d.log_prob(J(grid)), float)
            ctx.step()
            i = np.flatnonzero(cut)[:-1]
            ctx.check(floor(got[i]).all() , "no density where the basis is not defined", observed=got[i][:3])
            j = np.flatnonzero(~cut)[1:]
            ctx.close(np.exp(got[j]), w[j] / Z, "density where the basis is defined", rtol=1e-6 if ctx.x64 else 1e-3)
            s = np.asarray(d.sample(__import__("jax").random.PRNGKey(0), (200,)), float)
            ctx.check(np.all(s >= grid[cut][-1] - 2 * (grid[1] - grid[0])), "draws only where the basis is defined", grid[cut][-1], s.min())
            ctx.trace()


def coefs(ctx):
    from gwinferno.numpyro_distributions import PSplineCoeficientPrior

    for N in (3, 4, 5) + ((6, 7) if ctx.thorough else ()):
        vecs = np.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=N)))
        for tau, deg in itertools.product((0.5, 1.0, 25.0), (1, 2, 3)):
            if deg >= N:
                continue
            with ctx.at(N=N, inv_var=tau, order=deg):
                d = PSplineCoeficientPrior(N, tau, diff_order=deg)
                fn = __import__("jax").vmap(d.log_prob)
                got = np.asarray(fn(J(vecs)), float)
                dd = vecs
                for _ in range(deg):
                    dd = dd[:, 1:] - dd[:, :-1]
                ctx.close(got, -0.5 * tau * (dd**2).sum(1), "smoothing prior is the squared difference penalty", atol=1e-12)
                ctx.check(tuple(d.event_shape) == (N,), "one coefficient per spline", N, d.event_shape)
                ctx.step(len(vecs))
                ctx.trace(len(vecs))
                ctx.front(len(vecs))
        with ctx.at(N=N, default_order=True):
            v = np.arange(N) ** 2.0
            ctx.close(float(PSplineCoeficientPrior(N, 2.0).log_prob(J(v))), -float(np.sum(np.diff(v, n=2) ** 2)), "default order is two")


def shards(tier):
    out = [Shard("trig64", trig, True, 5), Shard("trig32", trig, False, 5)]
    for i, (lo, hi) in enumerate(((0.0, 1.0), (1.0, 2.0), (5.0, 100.0), (0.1, 3.0))):
        out.append(Shard("powerlaw64-%d" % i, powerlaw, True, 3, lo=lo, hi=hi))
    out.append(Shard("powerlaw32-0", powerlaw, False, 3, lo=0.5, hi=4.0))
    for zm in (1.0, 2.3):
        out.append(Shard("redshift64-%g" % zm, redshift, True, 4, zmax=zm))
    out.append(Shard("smoothed64", smoothed, True, 3))
    out.append(Shard("smoothed32", smoothed, False, 3))
    for n, k in ((5, 4), (7, 3)) + (((10, 4), (8, 5)) if tier == "thorough" else ()):
        out.append(Shard("spline64-%d-%d" % (n, k), spline, True, 5, n=n, k=k))
    out += [Shard("supports64", supports, True, 2), Shard("supports32", supports, False, 2)]
    out += [Shard("coefs64", coefs, True, 2), Shard("coefs32", coefs, False, 2)]
    return out
