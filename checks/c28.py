"""C28: the MAP search returns the maximum of the model's joint density, by the requested number of steps of the requested size."""

import itertools

import numpy as np
from checks import lik
from mc.core import Shard

PROPERTY = "C28"
BOUNDS = dict(
    models="normal, vector, positive, unit-interval and two-scale latents with every combination of prior and data values over the alphabets; the hierarchical likelihood itself with one and two hyper-parameters",
    search="several keys, learning rates 0.001-0.1, every number of steps 1..6 and converged runs",
)
ASSUMPTIONS = [
    "unimodal targets: the search is local",
    "the path of the first steps is compared with the Adam rule (documented optimiser) on quadratic targets",
]


def fm():
    from gwinferno.pipeline.analysis import find_map

    return find_map


def value(params, site):
    """the entry of one latent site, whatever suffix the guide gives it"""
    ks = [k for k in params if k == site or k.startswith(site + "_auto")]
    assert len(ks) == 1, (site, sorted(params))
    return np.asarray(params[ks[0]], float)


def quad_model(mu, s, y, t):
    import numpyro
    import numpyro.distributions as dist

    x = numpyro.sample("x", dist.Normal(mu, s))
    numpyro.factor("data", -0.5 * ((x - y) / t) ** 2)


def adam(x, grad, lr, n):
    m = v = 0.0
    for i in range(1, n + 1):
        g = grad(x)
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        x = x - lr * (m / (1 - 0.9**i)) / (np.sqrt(v / (1 - 0.999**i)) + 1e-8)
    return x


def steps(ctx, lrs):
    """number and size of the steps: the first step of Adam has length lr, the next ones follow its rule"""
    import jax

    f = fm()
    for mu, y, lr in itertools.product((-3.0, 5.0), (-1.0, 4.0), lrs):
        with ctx.at(mu=mu, y=y, lr=lr):
            s, t = 2.0, 0.5
            best = (mu / s**2 + y / t**2) / (1 / s**2 + 1 / t**2)
            grad = lambda x: (x - mu) / s**2 + (x - y) / t**2  # noqa: E731
            key = jax.random.PRNGKey(3)
            xs = [float(value(f(key, quad_model, mu, s, y, t, Niter=n, lr=lr), "x")) for n in range(1, 7)]
            ctx.step(6)
            start = xs[0] + lr * np.sign(xs[0] - best)
            ref = [adam(start, grad, lr, n) for n in range(1, 7)]
            ctx.close(np.array(xs), np.array(ref), "path of the first six steps", rtol=1e-6 if ctx.x64 else 1e-3, atol=1e-6 if ctx.x64 else 1e-3 * max(lr, 0.01))
            ctx.trace(6)
            ctx.outcome((mu, y, lr, round(xs[-1], 4)))
    with ctx.at(defaults=True):
        key = jax.random.PRNGKey(1)
        a = value(f(key, quad_model, 0.0, 1.0, 9.0, 1.0), "x")
        b = value(f(key, quad_model, 0.0, 1.0, 9.0, 1.0, Niter=100, lr=0.01), "x")
        ctx.close(a, b, "defaults are 100 steps of 0.01", rtol=1e-9)
        ctx.step(2)
        ctx.trace(2)


def normal(ctx, mus):
    import jax

    f = fm()
    for mu, s, y, t, k in itertools.product(mus, (0.5, 2.0), (-1.0, 4.0), (0.5, 2.0), (0, 7)):
        with ctx.at(mu=mu, s=s, y=y, t=t, key=k):
            p = f(jax.random.PRNGKey(k), quad_model, mu, s, y, t, Niter=1500, lr=0.05)
            q = f(jax.random.PRNGKey(k), quad_model, mu, s, y, t, Niter=1500, lr=0.05) if k else p
            ctx.step(1 + bool(k))
            ctx.check(len(p) == 1, "one entry per latent", 1, sorted(p))
            ctx.close(value(p, "x"), (mu / s**2 + y / t**2) / (1 / s**2 + 1 / t**2), "maximum of the joint density", rtol=0, atol=2e-3)
            ctx.close(value(q, "x"), value(p, "x"), "the same call gives the same answer", rtol=1e-12)
            ctx.trace(2)


def shapes(ctx):
    import jax
    import jax.numpy as jnp
    import numpyro
    import numpyro.distributions as dist

    f = fm()

    def gamma(a, b):
        numpyro.sample("g", dist.Gamma(a, b))

    def unit(a, b):
        numpyro.sample("u", dist.Beta(a, b))

    def bounded(y):
        x = numpyro.sample("b", dist.Uniform(-2.0, 3.0))
        numpyro.factor("d", -((x - y) ** 2))

    def vector(mu, y):
        x = numpyro.sample("v", dist.Normal(jnp.zeros(3), 1.0))
        s = numpyro.sample("w", dist.Normal(mu, 0.1))
        numpyro.deterministic("twice", 2 * x)
        numpyro.sample("obs", dist.Normal(x + s, 0.5), obs=y)

    K = jax.random.PRNGKey(0)
    for a, b in itertools.product((2.0, 5.0), (1.0, 3.0)):
        with ctx.at(model="gamma", a=a, b=b):
            p = f(K, gamma, a, b, Niter=2000, lr=0.05)
            ctx.close(value(p, "g"), (a - 1) / b, "mode of a positive latent", rtol=0, atol=5e-3)
            ctx.step()
            ctx.trace()
    for a, b in itertools.product((2.0, 4.0), (2.0, 3.0)):
        with ctx.at(model="beta", a=a, b=b):
            p = f(K, unit, a, b, Niter=2000, lr=0.05)
            ctx.close(value(p, "u"), (a - 1) / (a + b - 2), "mode of a unit-interval latent", rtol=0, atol=3e-3)
            ctx.step()
            ctx.trace()
    for y in (-1.5, 0.2, 2.6):
        with ctx.at(model="bounded", y=y):
            p = f(K, bounded, y, Niter=2000, lr=0.05)
            ctx.close(value(p, "b"), y, "mode of a bounded latent", rtol=0, atol=5e-3)
            ctx.step()
            ctx.trace()
    for mu, y in itertools.product((-1.0, 2.0), itertools.permutations((0.5, -2.0, 3.0))):
        with ctx.at(model="vector", mu=mu, y=y):
            p = f(K, vector, mu, jnp.array(y), Niter=2500, lr=0.02)
            # joint maximum of sum x_i^2/2 + (w-mu)^2/(2*.01) + sum (y_i-x_i-w)^2/(2*.25)
            A, r = np.zeros((4, 4)), np.zeros(4)
            for i in range(3):
                A[i, i] = 1 + 4
                A[i, 3] = A[3, i] = 4
                r[i] = 4 * y[i]
            A[3, 3], r[3] = 100 + 12, 100 * mu + 4 * sum(y)
            e = np.linalg.solve(A, r)
            ctx.check(len(p) == 2, "one entry per latent", 2, sorted(p))
            ctx.close(value(p, "v"), e[:3], "joint maximum, elements in order", rtol=0, atol=5e-3)
            ctx.close(value(p, "w"), e[3], "joint maximum", rtol=0, atol=5e-3)
            ctx.step()
            ctx.trace()


def hierarchical(ctx):
    """the likelihood of the package: the answer maximises prior times likelihood over a fine grid of the reference"""
    import jax
    import jax.numpy as jnp
    import numpyro
    import numpyro.distributions as dist
    from gwinferno.pipeline.analysis import hierarchical_likelihood

    f = fm()
    nobs, ns = 3, 40
    u = ((np.arange(nobs * ns) * 37) % 101 / 101.0).reshape(nobs, ns)
    inj = (np.arange(600) * 7 % 601) / 601.0

    def model(x, xi, total, n, centre, log):
        al = numpyro.sample("alpha", dist.Normal(centre, 1.0))
        lw, li = al * jnp.log(0.05 + x), al * jnp.log(0.05 + xi)
        hierarchical_likelihood(lw if log else jnp.exp(lw), li if log else jnp.exp(li), total_inj=total, Nobs=n, Tobs=1.0, surveyed_hypervolume=1.0, reconstruct_rate=False, min_neff_cut=False, log=log)

    grid = np.linspace(-4, 4, 4001)
    for centre, power, log in itertools.product((-1.0, 0.5), (0.5, 2.0), (False, True)):
        with ctx.at(centre=centre, power=power, log=log):
            x = u**power
            L = grid[:, None, None]
            r = lik.reference(np.exp(L * np.log(0.05 + x)), np.exp(grid[:, None] * np.log(0.05 + inj)), 5000, nobs)
            best = grid[np.argmax(lik.ref_loglik(r, nobs) - 0.5 * (grid - centre) ** 2)]
            p = f(jax.random.PRNGKey(2), model, jnp.asarray(x), jnp.asarray(inj), 5000, nobs, centre, log, Niter=1500, lr=0.03)
            ctx.close(value(p, "alpha"), best, "maximum of the population posterior", rtol=0, atol=1e-2)
            ctx.front(len(grid))
            ctx.step()
            ctx.trace()
            ctx.outcome(round(float(best), 3))


def shards(tier):
    t = tier == "thorough"
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        out.append(Shard("steps" + b, steps, x, 5, lrs=(0.001, 0.01, 0.1) if t or x else (0.01,)))
        for mu in (-2.0, 0.0, 3.0) if x or t else (3.0,):
            out.append(Shard("normal%s-%g" % (b, mu), normal, x, 5, mus=(mu,)))
        out.append(Shard("shapes" + b, shapes, x, 6))
        out.append(Shard("hierarchical" + b, hierarchical, x, 6))
    return out
