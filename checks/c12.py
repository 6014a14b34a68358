"""C12: perturbed power-law models multiply the power law by the exponentiated spline."""

import itertools

import numpy as np
from checks import dens, ref
from checks.c06 import vectors
from mc.core import Shard

PROPERTY = "C12"
BOUNDS = dict(
    models="perturbed primary mass with power-law ratio; perturbed primary mass and ratio (the perturbed redshift model is decided by C10 as well as here for vanishing coefficients)",
    options="spline numbers 4..9, orders 3, 4, 5, two mass ranges, secondary minimum below/equal to/above the primary's, B-spline and M-spline bases",
    coefficients="every vector over {-1,0,1}^4, one-hot/ramps beyond; slopes {-1,0,1,2.35,4} x {-1,0,1.5}; power-law bounds inside, equal to and outside the spline range",
    samples="all pairs of primary masses (outside, at, inside the bounds) and mass ratios; 2-D events and 1-D injections",
)
ASSUMPTIONS = ["the normalisation is numerical in the code: compared up to one cell of its grid at each sharp edge", "masses exactly at the ends of the logarithmic range are not judged"]
M = np.array([1.0, 2.05, 2.9, 3.2, 5.1, 8.0, 15.0, 34.0, 49.0, 64.0, 81.0, 99.0, 130.0])
Q = np.array([0.01, 0.04, 0.1, 0.35, 0.6, 0.95, 1.0, 1.1])


def grids():
    m, q = (v.ravel() for v in np.meshgrid(M, Q, indexing="ij"))
    perm = np.roll(np.arange(len(m)), 11)
    return m, q, perm, (len(M), len(Q))


def coef_set(n):
    return np.array(list(itertools.product((-1.0, 0.0, 1.0), repeat=4))) if n == 4 else vectors(n, True, False) / 2.0


def logspline(x, n, k, lo, hi, C, basis="BSpline"):
    vr = (np.log(lo), np.log(hi))
    kn = ref.default_knots(n, k, vr)
    B = ref.bspline(np.log(x), kn, k, vr)
    return C @ B


def primary(ctx, n, k):
    import jax
    import jax.numpy as jnp
    from gwinferno.models.spline_perturbation import PowerlawBasisSplinePrimaryPowerlawRatio as Mod

    m, q, perm, shp = grids()
    C = coef_set(n)
    for o, lo, hi, m2 in (({}, 3.0, 100.0, 3.0), (dict(mmin=2.0, mmax=80.0, m2min=2.0), 2.0, 80.0, 2.0), (dict(mmin=5.0, m2min=2.5), 5.0, 100.0, 2.5), (dict(mmin=3.0, m2min=6.5), 3.0, 100.0, 6.5)):
        with ctx.at(n=n, k=k, opts=o):
            mod = Mod(n, jnp.asarray(m.reshape(shp)), jnp.asarray(m[perm]), k=k, **o)
            for alpha, beta, (a, b) in itertools.product((-1.0, 1.0, 2.35, 4.0), (-1.0, 0.0, 1.5), ((lo, hi), (lo + 1, 60.0), (lo, 60.0))):
                if not ctx.thorough and beta != 0.0 and alpha != 2.35:
                    continue
                with ctx.at(alpha=alpha, beta=beta, bounds=(a, b)):
                    fn = lambda mm, qq: jax.vmap(lambda c: mod(mm, qq, alpha=alpha, mmin=a, mmax=b, cs=c, beta=beta))(jnp.asarray(C))  # noqa: E731
                    nz = np.asarray(jax.vmap(lambda c: mod.norm_p_m1(alpha=alpha, mmin=a, mmax=b, cs=c))(jnp.asarray(C)), float)
                    f = lambda x: dens.powerlaw(x, -alpha, a, b) * np.exp(logspline(x, n, k, lo, hi, C))  # noqa: E731
                    kn = np.exp(ref.default_knots(n, k, (np.log(lo), np.log(hi))))
                    Z = ref.integrate(f, a, b, breaks=np.concatenate([kn, np.geomspace(a, b, 8)]), n=16)
                    cell = (hi - lo) / 999.0
                    edge = f(np.array([a * (1 + 1e-9), b * (1 - 1e-9)])).sum(1)
                    ctx.check(np.all(np.abs(nz - Z) <= 2e-3 * Z + cell * edge), "normalisation integrates power law x exp(spline)", Z[:3], nz[:3])
                    ctx.step(1)
                    for what, mm, qq in (("events", m.reshape(shp), q.reshape(shp)), ("injections", m[perm], q[perm])):
                        got = np.asarray(fn(jnp.asarray(mm), jnp.asarray(qq)), float)
                        ctx.step(len(C))
                        ctx.trace(len(C))
                        ctx.front(got.size)
                        if not ctx.check(got.shape == (len(C),) + mm.shape, "shape", observed=got.shape):
                            continue
                        x, y = mm.ravel(), qq.ravel()
                        ok = x > m2 * (1 + 1e-9)
                        pq = np.where(ok, dens.powerlaw(y, beta, m2 / x, 1.0), 0.0)
                        E = f(x) * pq
                        G = got.reshape(len(C), -1) * nz[:, None]
                        G = np.where(ok[None] | np.isfinite(G), G, 0.0)
                        top = E.max(1, keepdims=True)
                        rt, at = (1e-9, 1e-12) if ctx.x64 else (1e-2, 1e-3)
                        ctx.close(G / top, E / top, "power law x exp(spline) x ratio power law at " + what, rtol=rt, atol=at)
                        if n == 4:
                            g0 = np.asarray(mod(jnp.asarray(mm), jnp.asarray(qq), alpha=alpha, mmin=a, mmax=b, cs=jnp.zeros(n), beta=beta), float).ravel()
                            E0 = dens.powerlaw(x, -alpha, a, b) * pq
                            tl = 3e-3 + float(cell * dens.powerlaw(np.array([a, b]), -alpha, a, b).sum())
                            g0 = np.where(ok | np.isfinite(g0), g0, 0.0)
                            ctx.close(g0, E0, "vanishing coefficients give the power law", rtol=tl, atol=1e-9)
                    ctx.outcome((n, k, lo, alpha, beta, a, b, round(float(Z.sum()), 5)))
        ctx.sample(n=n, k=k, vectors=len(C))


def both(ctx, n, nq, k, lo, hi, default):
    import jax
    import jax.numpy as jnp
    from gwinferno.models.spline_perturbation import PowerlawBasisSplinePrimaryRatio as Mod

    m, q, perm, shp = grids()
    o = {} if default else dict(mmin=lo, mmax=hi)
    mod = Mod(n, nq, jnp.asarray(m.reshape(shp)), jnp.asarray(q.reshape(shp)), jnp.asarray(m[perm]), jnp.asarray(q[perm]), k=k, **o)
    cs = [np.zeros(n)] + list(np.eye(n)) + [np.linspace(-1, 1, n)]
    vs = [np.zeros(nq)] + list(-0.8 * np.eye(nq)) + [np.linspace(1, -0.5, nq)]
    pairs = [(c, v) for i, c in enumerate(cs) for j, v in enumerate(vs) if ctx.thorough or i in (0, len(cs) - 1) or j in (0, len(vs) - 1)]
    CS, VS = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
    knq = ref.default_knots(nq, k, (0.0, 1.0))
    sq = lambda y: VS @ ref.bspline(y, knq, k, (0.0, 1.0))  # noqa: E731
    for alpha, beta, (a, b) in ((2.35, 1.5, (None, hi)), (1.0, -1.0, (lo, hi)), (-1.0, 0.0, (lo + 1.5, 60.0))):
        with ctx.at(n=n, nq=nq, k=k, lo=lo, hi=hi, alpha=alpha, beta=beta, bounds=(a, b)):
            kw = dict(alpha=alpha, mmax=b) if a is None else dict(alpha=alpha, mmax=b, mmin=a)
            a = lo if a is None else a
            norm = jax.jit(jax.vmap(lambda c, v: mod.norm_pm1q(alpha=alpha, mmin=a, mmax=b, cs=c, beta=beta, vs=v)))
            nz = np.array([float(norm(jnp.asarray(CS[i : i + 1]), jnp.asarray(VS[i : i + 1]))[0]) for i in range(len(CS))])
            fm = lambda x: dens.powerlaw(x, -alpha, a, b) * np.exp(logspline(x, n, k, lo, hi, CS))  # noqa: E731
            # reference normalisation on a fine tensor grid in (log m, q/qmin)
            u, w = np.polynomial.legendre.leggauss(40)
            x = np.exp(0.5 * (np.log(b / a)) * (u + 1) + np.log(a))
            wx = 0.5 * np.log(b / a) * w * x
            qm = a / x
            y = qm[:, None] + (1 - qm[:, None]) * 0.5 * (u + 1)[None]
            wy = (1 - qm[:, None]) * 0.5 * w[None]
            Z = np.array([np.sum(wx * fm(x)[i] * np.sum(wy * dens.powerlaw(y, beta, qm[:, None], 1.0) * np.exp(VS[i] @ ref.bspline(y.ravel(), knq, k, (0, 1))).reshape(y.shape), 1)) for i in range(len(CS))])
            cell = (hi - lo) / 999.0
            edge = fm(np.array([a * (1 + 1e-9), b * (1 - 1e-9)])).sum(1) * np.exp(np.abs(VS).max())
            ctx.check(np.all(np.abs(nz - Z) <= 2e-2 * Z + 2 * cell * edge), "normalisation of the joint density", Z[:4], nz[:4])
            for what, mm, qq in (("events", m.reshape(shp), q.reshape(shp)), ("injections", m[perm], q[perm])):
                for i in range(len(CS)):
                    g = np.asarray(mod(jnp.asarray(mm), jnp.asarray(qq), beta=beta, vs=jnp.asarray(VS[i]), cs=jnp.asarray(CS[i]), **kw), float)
                    ctx.step()
                    ctx.trace()
                    ctx.front(g.size)
                    if not ctx.check(g.shape == mm.shape, "shape", observed=g.shape):
                        continue
                    xx, yy = mm.ravel(), qq.ravel()
                    ok = xx > a * (1 + 1e-9)
                    pq = np.where(ok, dens.powerlaw(yy, beta, a / xx, 1.0), 0.0)
                    E = fm(xx)[i] * pq * np.exp(sq(yy)[i])
                    G = g.ravel() * nz[i]
                    G = np.where(ok | np.isfinite(G), G, 0.0)
                    ctx.close(G / E.max(), E / E.max(), "both perturbed power laws at " + what, rtol=1e-4 if ctx.x64 else 1e-2, atol=1e-12 if ctx.x64 else 1e-3)
                    # (the grid normalisation may move by a cell between compiled and eager runs; the shape may not)
                    ctx.close(G / G.sum(), E / E.sum(), "shape of both perturbed power laws at " + what, rtol=1e-9 if ctx.x64 else 1e-2, atol=1e-13 if ctx.x64 else 1e-3)
            ctx.outcome((n, nq, k, lo, alpha, beta, round(float(Z.sum()), 4)))


def windows(ctx):
    """The low-mass window of the perturbed model."""
    import jax.numpy as jnp
    from gwinferno.models.spline_perturbation import PowerlawBasisSplinePrimaryPowerlawRatio as Mod

    mod = Mod(5, jnp.asarray([[5.0, 6.0]]), jnp.asarray([7.0, 8.0]))
    for mmin, dm in itertools.product((2.0, 5.0), (0.5, 3.0, 8.0)):
        with ctx.at(mmin=mmin, delta=dm):
            x = mmin + dm * np.array([-1, -0.01, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.8, 0.95, 0.999, 1.001, 1.5, 8])
            got = np.asarray(mod.smoothing(jnp.asarray(x), mmin, dm), float)
            ctx.step()
            ctx.trace()
            ctx.close(got, dens.window(dm, x, mmin), "low-mass window", rtol=1e-8 if ctx.x64 else 1e-2, atol=1e-9 if ctx.x64 else 1e-3)
            e = np.asarray(mod.smoothing(jnp.asarray([mmin, mmin + dm]), mmin, dm), float)
            ctx.close(e, np.array([0.0, 1.0]), "window at both ends", atol=1e-6)


def bases(ctx):
    """The perturbation uses the basis it is given: other spline classes, normalised or not."""
    import jax.numpy as jnp
    from gwinferno import interpolation
    from gwinferno.models.spline_perturbation import PowerlawBasisSplinePrimaryPowerlawRatio as Mod

    m, q, perm, shp = grids()
    lo, hi = 3.0, 100.0
    vr = (np.log(lo), np.log(hi))
    ok = m > lo * (1 + 1e-9)
    for (name, norm), n, k in itertools.product((("BSpline", True), ("BSpline", False), ("BasisSpline", True), ("BasisSpline", False)), (5, 7), (3, 4)):
        kn = ref.default_knots(n, k, vr)
        B = ref.bspline(np.log(m), kn, k, vr)
        if name == "BasisSpline":
            B = B * ref.mscale(kn, k)[:, None]
        V = ref.integrate(lambda u: ref.bspline(u, kn, k, vr) * (ref.mscale(kn, k)[:, None] if name == "BasisSpline" else 1.0), vr[0], vr[1], breaks=kn, n=8)
        with ctx.at(basis=name, normalize=norm, n=n, k=k):
            mod = Mod(n, jnp.asarray(m.reshape(shp)), jnp.asarray(m[perm]), k=k, basis=getattr(interpolation, name), normalize=norm)
            for c in [np.ones(n)] + list(np.eye(n) + 0.1) + [np.linspace(0.2, 2.0, n)]:
                w = c / c.sum() if name == "BasisSpline" else c
                s = w @ B / (w @ V if norm else 1.0)
                E = dens.powerlaw(m, -2.35, lo, hi) * np.exp(s) * np.where(ok, dens.powerlaw(q, 1.5, lo / m, 1.0), 0.0)
                for what, mm, qq, e, o in (("events", m.reshape(shp), q.reshape(shp), E, ok), ("injections", m[perm], q[perm], E[perm], ok[perm])):
                    g = np.asarray(mod(jnp.asarray(mm), jnp.asarray(qq), alpha=2.35, beta=1.5, mmin=lo, mmax=hi, cs=jnp.asarray(c)), float).ravel()
                    g = np.where(o | np.isfinite(g), g, 0.0)
                    ctx.step()
                    ctx.trace()
                    ctx.front(g.size)
                    t = 1e-4 if norm else 1e-9  # the basis is normalised on a grid
                    ctx.close(g / g.sum(), e / e.sum(), "shape with the given basis at " + what, rtol=t, atol=1e-12)
                ctx.outcome((name, norm, n, k, round(float(E.sum()), 6)))


def redshift(ctx):
    """Vanishing and one-hot coefficients of the perturbed redshift model against the unperturbed one."""
    import jax.numpy as jnp
    from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
    from gwinferno.models.spline_perturbation import PowerlawSplineRedshiftModel

    pe, inj = np.linspace(0.02, 1.6, 12).reshape(3, 4), np.linspace(0.04, 1.8, 15)
    base = PowerlawRedshiftModel(jnp.asarray(pe), jnp.asarray(inj))
    lo, hi = max(pe.min(), inj.min()), min(pe.max(), inj.max())
    for n, lam in itertools.product((4, 6, 9), (-2.0, 0.0, 1.0, 3.0)):
        mod = PowerlawSplineRedshiftModel(n, jnp.asarray(pe), jnp.asarray(inj))
        kn = ref.default_knots(n, 4, (np.log(lo), np.log(hi)))
        for c in [np.zeros(n)] + list(np.eye(n)) + [np.linspace(-1, 1, n)]:
            with ctx.at(n=n, lam=lam, c=c):
                for z in (pe, inj):
                    r = np.asarray(mod(jnp.asarray(z), lam, jnp.asarray(c)), float) * float(mod.normalization(lam, jnp.asarray(c)))
                    b = np.asarray(base(jnp.asarray(z), lam), float) * float(base.normalization(lam))
                    E = b * np.exp(c @ ref.bspline(np.log(z.ravel()), kn, 4, (np.log(lo), np.log(hi)))).reshape(z.shape)
                    ctx.step(2)
                    ctx.trace()
                    inside = (np.abs(z - lo) > 1e-6) & (np.abs(z - hi) > 1e-6) | (not np.any(c))
                    ctx.close(r, E, "redshift: power law x exp(spline)", rtol=1e-8, mask=inside)


def shards(tier):
    th = tier == "thorough"
    out = []
    for n, k in ((4, 4), (4, 3), (6, 4), (7, 5)) + (((5, 4), (9, 4), (9, 3), (5, 5)) if th else ()):
        out.append(Shard("primary64-%d-%d" % (n, k), primary, True, 6, n=n, k=k))
    out.append(Shard("primary32-5-4", primary, False, 4, n=5, k=4))
    for i, a in enumerate(((5, 4, 4, 2.0, 100.0, True), (4, 6, 3, 3.0, 80.0, False)) + (((6, 5, 4, 5.0, 60.0, False), (5, 5, 5, 2.0, 100.0, False)) if th else ())):
        out.append(Shard("both64-%d" % i, both, True, 8, **dict(zip(("n", "nq", "k", "lo", "hi", "default"), a))))
    out += [Shard("windows64", windows, True, 1), Shard("windows32", windows, False, 1), Shard("redshift64", redshift, True, 4), Shard("bases64", bases, True, 4)]
    return out
