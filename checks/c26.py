"""C26: compiled, mapped and eager evaluation agree and gradients are finite and correct."""

import numpy as np
from checks import ops
from mc.core import Shard

PROPERTY = "C26"
BOUNDS = dict(
    operations="58 public operations: parametric densities, splines and spline models, perturbed models, sampler distributions, smoothing priors, the likelihood with every cut",
    hyper_parameters="every point of the per-operation lattice; every single hyper-parameter (and coefficient) is differentiated",
    transformations="every sequence of up to two of {eager, compile, map over the lattice, scalar loop}; forward- and reverse-mode derivatives, compiled and eager",
    sizes="data repeated to 72000 samples: every sample has the value it has among twelve",
)
ASSUMPTIONS = [
    "derivatives are judged per sample where the density is finite and nonzero and not within a finite-difference step of a sharp edge of the support",
    "a basis spline object called on new points rebuilds its basis functions in Python and is not compiled; evaluation of precomputed bases is",
    "slope exactly -1 is not differentiated (the closed form switches branch there)",
]


def J(t):
    import jax.numpy as jnp

    return {k: jnp.asarray(np.asarray(v, float)) for k, v in t.items()}


def stack(lattice):
    return {k: np.stack([np.asarray(h[k], float) for h in lattice]) for k in lattice[0]}


def explore(ctx, group, part=0, parts=1):
    import jax

    for name, op in list(ops.load(group).items())[part::parts]:
        f, d, L = op["f"], J(op["data"]), op["lattice"]
        rt, at = (1e-10, 1e-13) if ctx.x64 else (2e-4, 1e-6)
        if op["cosmo"] or name.startswith("likelihood"):
            rt = max(rt, 1e-9)
        with ctx.at(operation=name):
            eager = [np.asarray(f(J(h), d), float) for h in L]
            ctx.step(len(L))
            E = np.stack(eager)
            ctx.check(np.isfinite(E).any(), "some value is finite", observed=E.ravel()[:5])
            top = np.abs(np.where(np.isfinite(E), E, 0)).max()
            at_ = at * (top if top > 0 else 1)
            H = J(stack(L))
            g = lambda h: f(h, d)  # noqa: E731
            seqs = {
                ("jit",): lambda: np.stack([np.asarray(jax.jit(g)(J(h)), float) for h in L]),
                ("jit", "data"): lambda: np.stack([np.asarray(jax.jit(f)(J(h), d), float) for h in L[:2]]),
                ("vmap",): lambda: jax.vmap(g)(H),
                ("jit", "vmap"): lambda: jax.jit(jax.vmap(g))(H),
                ("vmap", "jit"): lambda: jax.vmap(jax.jit(g))(H),
                ("jit", "jit"): lambda: np.stack([np.asarray(jax.jit(jax.jit(g))(J(h)), float) for h in L[:1]]),
                ("scalars",): lambda: np.stack([np.asarray(f({k: (float(v) if np.ndim(v) == 0 else v) for k, v in h.items()}, d), float) for h in L]),
                ("scan",): lambda: jax.lax.map(g, H),
            }
            if not ctx.thorough:
                seqs.pop(("jit", "jit"))
            for s, run in seqs.items():
                if op["nojit"] and s not in (("vmap",), ("scalars",)):
                    continue
                with ctx.at(transformations=s):
                    got = np.asarray(run(), float)
                    ctx.step(len(got))
                    ctx.close(got, E[: len(got)], name + " evaluated through " + "-".join(s), rtol=rt, atol=at_)
                    ctx.trace(len(got))
            ctx.outcome((name, round(float(np.nansum(np.where(np.isfinite(E), E, 0))), 6)))
        with ctx.at(operation=name, gradient=True):
            gradients(ctx, name, op, g, H, E)


def gradients(ctx, name, op, g, H, E):
    """forward derivative of every sample with respect to every hyper-parameter at every lattice point"""
    import jax
    import jax.numpy as jnp

    jit = (lambda f: f) if op["nojit"] else jax.jit
    fwd = jit(jax.vmap(jax.jacfwd(g)))(H)
    rev = jit(jax.vmap(jax.jacrev(g)))(H)
    ctx.step(2 * len(E))
    val = np.isfinite(E) & (E != 0) & (E > -1e30)
    if name.startswith("log_") or "log_prob" in name or "likelihood" in name:
        val = np.isfinite(E) & (E > -1e30)
    for k in H:
        a, b = np.asarray(fwd[k], float), np.asarray(rev[k], float)
        extra = a.ndim - E.ndim
        m = val.reshape(val.shape + (1,) * extra)
        mm = np.broadcast_to(m, a.shape)
        for mode, v in (("forward", a), ("reverse", b)):
            bad = mm & ~np.isfinite(v)
            ctx.check(not bad.any(), "%s: %s derivative with respect to %s is finite where the value is" % (name, mode, k), observed=dict(where=np.argwhere(bad)[:3].tolist(), values=E[val][:3]))
        fin = mm & np.isfinite(a) & np.isfinite(b)
        top = max(np.abs(a[fin]).max() if fin.any() else 0, 1e-30)
        ctx.close(np.where(fin, b, 0) / top, np.where(fin, a, 0) / top, name + ": forward and reverse derivatives of " + k, rtol=1e-7 if ctx.x64 else 5e-3, atol=1e-9 if ctx.x64 else 2e-3)
        if ctx.x64:  # slope of the value, Richardson-extrapolated central differences
            flat = np.asarray(H[k], float).reshape(len(E), -1)
            D = np.zeros(a.shape).reshape(E.shape + (flat.shape[1],))
            smooth = np.ones(D.shape, bool)
            for j in range(flat.shape[1]):
                step = 1e-4 * np.maximum(1.0, np.abs(flat[:, j])) * (0.02 if k in op["edge"] else 1.0)
                vs = {}
                for s in (-2, -1, 1, 2):
                    P = flat.copy()
                    P[:, j] += s * step
                    vs[s] = np.asarray(jax.vmap(g)(dict(H, **{k: jnp.asarray(P.reshape(np.shape(H[k])))})), float)
                    ctx.step(len(E))
                st = step.reshape((-1,) + (1,) * (E.ndim - 1))
                D[..., j] = (8 * (vs[1] - vs[-1]) - (vs[2] - vs[-2])) / (12 * st)
                fwdd, bwdd = (vs[1] - E) / st, (E - vs[-1]) / st
                sc = np.abs(E) / st * 1e-2
                # a jump within the stencil: one-sided slopes disagree by a finite fraction of the value over a step
                smooth[..., j] = (np.abs(fwdd - bwdd) < sc) & (np.abs((vs[2] - vs[1]) / st - fwdd) < sc) & (np.abs((vs[-1] - vs[-2]) / st - bwdd) < sc)
            A = a.reshape(D.shape)
            ok = np.isfinite(A) & np.isfinite(D) & smooth & np.broadcast_to(val[..., None], D.shape)
            scale = max(np.abs(D[ok]).max() if ok.any() else 0, np.abs(E[val]).max() * 1e-3 if val.any() else 0, 1e-30)
            tol = 1e-4 if k in op["edge"] else 1e-5
            ctx.close(np.where(ok, A, 0) / scale, np.where(ok, D, 0) / scale, name + ": derivative with respect to %s equals the slope of the value" % k, rtol=tol, atol=tol)
            ctx.front(int(ok.sum()))
        ctx.trace(len(E))


PARTS = dict(splines=4, parametric=2, perturbed=2, samplers=1, likelihood=1)


def shards(tier):
    tiles = 25000 if tier == "thorough" else 6000
    out = [Shard("large64-" + g, ops.large, True, 3, group=g, tiles=tiles) for g in ("parametric", "splines", "perturbed", "samplers")]
    return out + [Shard("%s%d-%d" % (g, bits, i), explore, bits == 64, 8 if bits == 64 else 6, group=g, part=i, parts=n) for bits in (64, 32) for g, n in PARTS.items() for i in range(n)]
