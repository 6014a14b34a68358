"""C07: natural cubic spline interpolates its knots smoothly with natural end conditions."""

import itertools

import numpy as np
from checks import ref
from mc.core import Shard

PROPERTY = "C07"
BOUNDS = dict(
    knots="every spacing over {1,2,5}^(n-1), n = 4, 5, 6 knots (thorough 7), three offsets/scales and knots 1e-3 and 1e3 apart; 12 and 40 equally spaced knots",
    values="every vector over {-1,0,2}^n for n <= 5, unit vectors and ramps beyond (the spline is linear in its values)",
    points="every knot, mid, quarter and near-knot points of every interval; 0-D, 1-D, 2-D, reversed order",
    transformations="eager, compiled, mapped over values, mapped over knots, passed through compiled function as argument, flattened and rebuilt",
)
ASSUMPTIONS = ["extrapolation beyond the outermost knots is not judged"]


def spline():
    from gwinferno.interpolation import NaturalCubicUnivariateSpline

    return NaturalCubicUnivariateSpline


def knot_sets(n, thorough):
    for sp in itertools.product((1.0, 2.0, 5.0), repeat=n - 1):
        yield np.concatenate([[0.0], np.cumsum(sp)])


def lattice(xk):
    d = np.diff(xk)
    return np.sort(np.concatenate([xk[:-1] + f * d for f in (0, 1e-4, 0.25, 0.5, 0.8, 1 - 1e-4)] + [[xk[-1]]]))


def values(n):
    if n <= 5:
        return np.array(list(itertools.product((-1.0, 0.0, 2.0), repeat=n)))
    return np.vstack([np.eye(n), -2 * np.eye(n), np.arange(n)[None] * 0.5, (np.arange(n)[None] - 2.0) ** 2, np.ones((1, n))])


def explore(ctx, n, off, scale):
    import jax
    import jax.numpy as jnp

    S = spline()
    Y = values(n)
    rt, at = (1e-9, 1e-9) if ctx.x64 else (2e-3, 2e-3)
    sets = np.array(list(knot_sets(n, ctx.thorough)))
    pts = np.array([lattice(k) for k in sets])
    f = jax.jit(jax.vmap(jax.vmap(lambda x, y, p: S(x, y)(p), (None, 0, None)), (0, None, 0)))
    with ctx.at(n=n, off=off, scale=scale):
        got = np.asarray(f(jnp.asarray(off + scale * sets), jnp.asarray(Y), jnp.asarray(off + scale * pts)), float)
        ctx.step(len(sets) * len(Y))
        ctx.trace(len(sets) * len(Y))
        ctx.front(len(sets) * len(Y))
        for k, p, g in zip(sets, pts, got):
            # the interpolant is linear in the values: reference from unit vectors
            U = np.array([ref.natural_cubic(k, e, p) for e in np.eye(n)])
            E = Y @ U
            with ctx.at(knots=list(k)):
                ctx.close(g, E, "natural cubic interpolant", rtol=rt, atol=at * (1 if abs(off) < 10 else 20))
                at_knots = np.searchsorted(p, k)
                ctx.close(g[:, at_knots], Y, "passes through the knots", rtol=rt, atol=at * (1 if abs(off) < 10 else 20))
                ctx.outcome((tuple(k), round(float(g.sum()), 6)))
        ctx.sample(n=n, knots=len(sets), values=len(Y))


def eager(ctx, n):
    """Eager, compiled and rebuilt splines agree; order and shape of the points do not matter."""
    import jax
    import jax.numpy as jnp

    S = spline()
    t = 1e-9 if ctx.x64 else 2e-3
    Y = values(n)
    Y = Y[:: max(1, len(Y) // 8)]
    for i, k in enumerate(knot_sets(n, False) if n <= 6 else [np.linspace(-1, 3, n)]):
        if n <= 6 and i % (9 if n < 6 else 40) and not ctx.thorough:
            continue
        p = lattice(k)
        P = jnp.asarray(p)
        call = jax.jit(lambda s, x: s(x))
        build = jax.jit(lambda x, y: S(x, y))
        for y in Y:
            with ctx.at(knots=k, y=y):
                E = ref.natural_cubic(k, y, p)
                s = S(jnp.asarray(k), jnp.asarray(y))
                flat, tree = jax.tree_util.tree_flatten(s)
                obs = {
                    "eager": s(P),
                    "numpy points": s(p),
                    "numpy knots": S(k, y)(P),
                    "compiled call": call(s, P),
                    "built in compiled code": build(jnp.asarray(k), jnp.asarray(y))(P),
                    "rebuilt": jax.tree_util.tree_unflatten(tree, flat)(P),
                    "reversed": s(P[::-1])[::-1],
                    "2-D": s(P[: len(p) // 2 * 2].reshape(2, -1)).ravel(),
                    "mapped": jax.vmap(s)(P),
                    "one by one": jnp.array([s(P[j]) for j in (0, len(p) // 2, len(p) - 1)]),
                }
                ctx.step(len(obs))
                ctx.trace(len(obs))
                for name, v in obs.items():
                    e = E[: len(p) // 2 * 2] if name == "2-D" else (E[[0, len(p) // 2, len(p) - 1]] if name == "one by one" else E)
                    ctx.close(v, e, name, rtol=t, atol=t)


def smooth(ctx, n):
    """Slope and curvature are continuous across every interior knot, curvature vanishes at both ends (from derivatives of the real code)."""
    import jax
    import jax.numpy as jnp

    S = spline()
    g0 = lambda o: jax.jit(  # noqa: E731
        jax.vmap(lambda y, p, k: jax.vmap(o(lambda q: S(k, y)(q)))(p), (0, None, None))
    )
    comp = {name: g0(o) for name, o in (("value", lambda q: q), ("slope", jax.grad), ("curvature", lambda q: jax.grad(jax.grad(q))))}
    for k in list(knot_sets(n, False)):
        Y = np.vstack([np.eye(n), np.arange(n)[None] ** 2 * 1.0])
        h = 1e-9
        l, r = k[1:-1] - h, k[1:-1] + h
        with ctx.at(knots=k):
            for name, g in comp.items():
                a, b = (np.asarray(g(jnp.asarray(Y), jnp.asarray(v), jnp.asarray(k))) for v in (l, r))
                ctx.close(a, b, name + " continuous", rtol=1e-6, atol=1e-6)
            e = np.asarray(comp["curvature"](jnp.asarray(Y), jnp.asarray([k[0], k[-1]]), jnp.asarray(k)))
            ctx.close(e, np.zeros_like(e), "curvature vanishes at the ends", atol=1e-7)
            ctx.step(4 * len(Y))
            ctx.trace(len(Y))
            ctx.front(len(Y))


def shards(tier):
    out = []
    big = (4, 5, 6) if tier == "quick" else (4, 5, 6, 7)
    for n in big:
        for off, sc in ((0.0, 1.0), (-3.0, 0.1), (50.0, 2.0)):
            out.append(Shard("explore64-%d-%g" % (n, off), explore, True, 2, n=n, off=off, scale=sc))
            if off != 50.0:
                out.append(Shard("explore32-%d-%g" % (n, off), explore, False, 2, n=n, off=off, scale=sc))
        if n < 6:
            for sc in (1e-3, 1e3):
                out.append(Shard("scale64-%d-%g" % (n, sc), explore, True, 2, n=n, off=0.0, scale=sc))
        out.append(Shard("smooth64-%d" % n, smooth, True, 3, n=n))
    for n in (4, 5, 6, 12, 40):
        out.append(Shard("eager64-%d" % n, eager, True, 3, n=n))
    out.append(Shard("eager32-5", eager, False, 3, n=5))
    return out
