"""C16: spin and beta-shape conversions are exact, invertible and elementwise."""

import itertools
import math

import numpy as np
from mc.core import Shard

PROPERTY = "C16"
BOUNDS = dict(
    spins="all combinations of 7 mass ratios, 6^2 spin magnitudes, 9^2 tilts; plain numbers, numpy and jax arrays (also compiled and vectorised), 0- to 3-dimensional, integer arrays, broadcast pairs",
    beta="all shapes {0.5,1,1.5,2,5,30}^2 x maxima {0.5,1,2,10}; all admissible (mean, variance) lattice points; scalars and arrays; arrays of maxima",
)
ASSUMPTIONS = ["moments are judged where the variance is below mean*(1-mean)"]
QS = (0.01, 0.1, 1 / 3, 0.5, 0.8, 0.95, 1.0)
AS = (0.0, 0.05, 0.3, 0.7, 0.99, 1.0)
CT = (-1.0, -0.9, -0.5, -0.1, 0.0, 0.2, 0.6, 0.99, 1.0)


def conv():
    from gwinferno.preprocess import conversions

    return conversions


def effective(q, a1, a2, c1, c2):
    return (a1 * c1 + q * a2 * c2) / (1 + q)


def precessing(q, a1, a2, c1, c2):
    return max(a1 * math.sqrt(1 - c1 * c1), q * (3 + 4 * q) / (4 + 3 * q) * a2 * math.sqrt(1 - c2 * c2))


def spins(ctx, q):
    import jax.numpy as jnp

    C = conv()
    rows = list(itertools.product((q,), AS, AS, CT, CT))
    E = np.array([effective(*r) for r in rows])
    P = np.array([precessing(*r) for r in rows])
    cols = [np.array(c) for c in zip(*rows)]
    with ctx.at(q=q, form="arrays"):
        keep = [c.copy() for c in cols]
        ge, gp = C.chieff_from_q_component_spins(*cols), C.chip_from_q_component_spins(*cols)
        ctx.close(ge, E, "effective spin", rtol=1e-12, atol=1e-14)
        ctx.close(gp, P, "effective precession", rtol=1e-12, atol=1e-14)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, cols)), "arguments are left unchanged")
        ctx.check(np.all(np.abs(ge) <= 1 + 1e-12) and np.all((gp >= 0) & (gp <= 1 + 1e-12)), "physical spins give physical effective spins")
        ctx.step(2)
        ctx.front(len(rows))
        ctx.trace(len(rows))
        # exchange symmetry of equal masses, reflection of all spins
        ctx.close(C.chieff_from_q_component_spins(cols[0], cols[1], cols[2], -cols[3], -cols[4]), -ge, "effective spin is odd under reflection", rtol=1e-12)
        ctx.close(C.chip_from_q_component_spins(cols[0], cols[1], cols[2], -cols[3], -cols[4]), gp, "effective precession is even under reflection", rtol=1e-12)
    with ctx.at(q=q, form="shapes"):
        for shp in ((-1, 1), (len(AS), -1), (len(AS), len(AS), -1), (1, -1, 3)):
            r = [c.reshape(shp) for c in cols]
            ctx.close(C.chieff_from_q_component_spins(*r), E.reshape(shp), "effective spin of arrays of any shape", rtol=1e-12, atol=1e-14)
            ctx.close(C.chip_from_q_component_spins(*r), P.reshape(shp), "effective precession of arrays of any shape", rtol=1e-12, atol=1e-14)
            ctx.step(2)
    with ctx.at(q=q, form="jax"):
        tol = 1e-11 if ctx.x64 else 2e-6
        j = [jnp.asarray(c) for c in cols]
        ctx.close(np.asarray(C.chieff_from_q_component_spins(*j), float), E, "effective spin of jax arrays", rtol=tol, atol=tol)
        at = tol if ctx.x64 else 1e-3
        ctx.close(np.asarray(C.chip_from_q_component_spins(*j, math=jnp), float), P, "effective precession of jax arrays", rtol=tol, atol=at)
        ctx.step(2)
        # as part of compiled and vectorised computations
        import jax

        jp = lambda *a: C.chip_from_q_component_spins(*a, math=jnp)  # noqa: E731
        for form, w in (("compiled", jax.jit), ("vectorised", jax.vmap)):
            ctx.close(np.asarray(w(C.chieff_from_q_component_spins)(*j), float), E, "effective spin, " + form, rtol=tol, atol=tol)
            ctx.close(np.asarray(w(jp)(*j), float), P, "effective precession, " + form, rtol=tol, atol=at)
            ctx.step(2)
    with ctx.at(q=q, form="broadcast"):
        ct = np.array(CT)
        b = C.chieff_from_q_component_spins(q, 0.7, 0.3, ct[:, None], ct[None])
        ctx.close(b, np.array([[effective(q, 0.7, 0.3, x, y) for y in CT] for x in CT]), "effective spin broadcasts", rtol=1e-12, atol=1e-14)
        b = C.chip_from_q_component_spins(q, 0.7, 0.3, ct[:, None], ct[None])
        ctx.close(b, np.array([[precessing(q, 0.7, 0.3, x, y) for y in CT] for x in CT]), "effective precession broadcasts", rtol=1e-12, atol=1e-14)
        ctx.step(2)
    for r, e, p in list(zip(rows, E, P))[:: 1 if ctx.thorough else 7]:
        with ctx.at(scalar=r):
            ctx.close(float(C.chieff_from_q_component_spins(*r)), e, "effective spin of numbers", rtol=1e-12, atol=1e-14)
            ctx.close(float(C.chip_from_q_component_spins(*r)), p, "effective precession of numbers", rtol=1e-12, atol=1e-14)
            ctx.step(2)
    with ctx.at(q=q, form="integers"):
        one, zero = np.array([1, 1, 1]), np.array([1, 0, -1])
        ctx.close(C.chieff_from_q_component_spins(q, one, one, zero, one), np.array([effective(q, 1, 1, c, 1) for c in (1, 0, -1)]), "integer spins", rtol=1e-12, atol=1e-14)
        ctx.close(C.chip_from_q_component_spins(q, one, one, zero, one), np.array([precessing(q, 1, 1, c, 1) for c in (1, 0, -1)]), "integer spins", rtol=1e-12, atol=1e-14)
    ctx.outcome((q, round(float(E.sum()), 6), round(float(P.sum()), 6)))
    ctx.sample(q=q, combinations=len(rows))


def moments(ctx):
    import jax.numpy as jnp

    C = conv()
    S = (0.5, 1.0, 1.5, 2.0, 5.0, 30.0) + ((0.1, 3.3, 100.0) if ctx.thorough else ())
    xs = (0.5, 1.0, 2.0, 10.0)
    A, B, X = (np.array(v) for v in zip(*itertools.product(S, S, xs)))
    mu = A / (A + B) * X
    var = A * B / ((A + B) ** 2 * (A + B + 1)) * X**2
    tol = 1e-9
    for (a, b, x), m, v in zip(zip(A, B, X), mu, var):
        with ctx.at(alpha=a, beta=b, xmax=x):
            for form, f in (("number", float), ("numpy", np.array), ("jax", jnp.asarray)):
                t = tol if (form != "jax" or ctx.x64) else 5e-4
                g = C.mu_var_from_alpha_beta(f(a), f(b), f(x))
                ctx.close(np.array([float(k) for k in g]), np.array([m, v]), "moments of the beta distribution", rtol=t, form=form)
                h = C.alpha_beta_from_mu_var(f(m), f(v), f(x))
                ctx.close(np.array([float(k) for k in h]), np.array([a, b]), "shapes from moments invert moments from shapes", rtol=t if t < 1e-5 else 2e-2, form=form)
                ctx.step(2)
            if x == 1.0:
                ctx.close(np.array([float(k) for k in C.mu_var_from_alpha_beta(a, b)]), np.array([m, v]), "default maximum", rtol=tol)
                ctx.close(np.array([float(k) for k in C.alpha_beta_from_mu_var(m, v)]), np.array([a, b]), "default maximum", rtol=tol)
            ctx.trace()
    with ctx.at(arrays=True):
        for args, fn, exp in (((A, B, X), C.mu_var_from_alpha_beta, (mu, var)), ((mu, var, X), C.alpha_beta_from_mu_var, (A, B))):
            keep = [c.copy() for c in args]
            for rnd in range(3):
                g = fn(*args)
                ctx.step()
                ctx.close(g[0], exp[0], "array of parameters, repeated call", rtol=tol)
                ctx.close(g[1], exp[1], "array of parameters, repeated call", rtol=tol)
                ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, args)), "arguments are left unchanged")
            shp = (len(S), len(S), len(xs))
            g = fn(*[c.reshape(shp) for c in args])
            ctx.close(g[0], exp[0].reshape(shp), "array of any shape", rtol=tol)
            ctx.close(g[1], exp[1].reshape(shp), "array of any shape", rtol=tol)
            # one maximum for many parameters
            k = X == 2.0
            kw = [c[k].copy() for c in args[:2]]
            g = fn(kw[0], kw[1], xmax=2.0)
            ctx.close(g[0], exp[0][k], "shared maximum", rtol=tol)
            ctx.check(np.array_equal(kw[0], args[0][k]) and np.array_equal(kw[1], args[1][k]), "arguments are left unchanged")
    # every admissible mean and variance
    for x, f, r in itertools.product(xs, (0.0005, 0.005, 0.05, 0.2, 0.5, 0.7, 0.95, 0.995, 0.9995), (0.0001, 0.01, 0.1, 0.3, 0.6, 0.9)):
        with ctx.at(xmax=x, mean=f, ratio=r):
            m, v = f * x, r * f * (1 - f) * x * x
            a, b = C.alpha_beta_from_mu_var(m, v, x)
            nu = 1 / r - 1
            ctx.close(np.array([a, b]), np.array([f * nu, (1 - f) * nu]), "shapes of a mean and variance", rtol=1e-7)
            ctx.close(np.array(C.mu_var_from_alpha_beta(a, b, x)), np.array([m, v]), "moments of these shapes", rtol=1e-8)
            ctx.step(2)
            ctx.trace()


def shards(tier):
    return [Shard("spins64-%g" % q, spins, True, 1, q=q) for q in QS] + [Shard("spins32-0.5", spins, False, 1, q=0.5), Shard("moments64", moments, True, 1), Shard("moments32", moments, False, 1)]
