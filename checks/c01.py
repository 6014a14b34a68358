"""C01: the log-likelihood is the importance-sampling estimator, for every weight table and option."""

import numpy as np
from checks import lik
from mc.core import Shard

PROPERTY = "C01"
BOUNDS = dict(
    event_tables="all tables over a small weight alphabet, shapes " + ", ".join(lik.SPACES),
    injections="all patterns over a small alphabet, tiled, with several totals",
    options="log/linear x selection marginalisation x cuts off; all option conflicts; all 2-population assignments of up to 4 events",
    sizes="structured tables up to 300 events, 20000 samples and 300000 injections; log weights of every event and of the injections shifted independently by up to 5000",
)
ASSUMPTIONS = [
    "weights are finite and non-negative (log weights finite or -inf)",
    "agreement is to 1e-9 relative in 64-bit and 2e-3 absolute-or-relative in 32-bit arithmetic",
]


def tol(ctx):
    return dict(rtol=1e-9, atol=1e-9) if ctx.x64 else dict(rtol=1e-4, atol=2e-3)


def bulk_space(ctx, name):
    for rep, total, pe, pats, nobs in lik.space(name):
        P, I = lik.cross(pe, pats)
        for log in (False, True):
            for marg in (False, True):
                with ctx.at(space=name, rep=rep, total=total, log=log, marg=marg):
                    with np.errstate(divide="ignore"):
                        p, i = (np.log(P), np.log(I)) if log else (P, I)
                    ll, sites = lik.bulk(p, i, total, nobs, dict(min_neff_cut=False, marginalize_selection=marg), log)
                    r = lik.reference(P, I, total, nobs)
                    exp = lik.ref_loglik(r, nobs, marg)
                    d = lik.dead(r)
                    # with every injection found and equally weighted the Monte Carlo error vanishes: Neff is infinite
                    fuzzy = ~d & (np.abs(r["inv_neff"]) < (1e-12 if ctx.x64 else 1e-5)) & marg
                    ctx.close(ll, exp, "log-likelihood", mask=~d & ~fuzzy, **tol(ctx))
                    ctx.check(np.all(lik.is_floor(ll[d])), "likelihood without any support must be a finite floor", observed=ll[d][:5])
                    ctx.check(np.all(np.isfinite(ll) | fuzzy), "log-likelihood must be finite", observed=ll[~np.isfinite(ll)][:5])
                    ctx.front(len(ll))
                    ctx.step(len(ll))
                    ctx.trace(len(ll))
                    ctx.outcome((np.round(np.unique(exp[~d])[:50], 6)).tolist())
                    ctx.sample(pe=P[len(P) // 2], inj=I[len(P) // 2], total=total, log=log, marg=marg, expected=float(exp[len(P) // 2]))


def default_path(ctx):
    """Eager, through the public call with default options and with rates: agrees with the estimator too."""
    import jax.numpy as jnp

    for nobs, ns, nf, total in [(1, 2, 6, 50), (2, 5, 40, 41), (3, 8, 64, 5000), (10, 50, 400, 10**6)]:
        for log in (False, True):
            for marg in (False, True):
                for rate in (False, True):
                    for kind in range(3):
                        with ctx.at(nobs=nobs, ns=ns, nf=nf, total=total, log=log, marg=marg, rate=rate, kind=kind):
                            pe = 1.0 + 0.25 * ((np.arange(nobs * ns) * (7 + kind)) % 5).reshape(nobs, ns)
                            inj = 1.0 + 0.5 * ((np.arange(nf) * (3 + kind)) % 4)
                            if kind == 2:
                                pe[0, 0] = 0.0
                                inj[::2] = 0.0
                            with np.errstate(divide="ignore"):
                                p, i = (np.log(pe), np.log(inj)) if log else (pe, inj)
                            kw = dict(
                                pe_weights=jnp.asarray(p),
                                inj_weights=jnp.asarray(i),
                                total_inj=total,
                                Nobs=nobs,
                                Tobs=2.0,
                                surveyed_hypervolume=3e9,
                                reconstruct_rate=rate,
                                marginalize_selection=marg,
                                log=log,
                            )
                            r = lik.reference(pe, inj, total, nobs)
                            ok = r["neff_inj"] >= 4 * nobs * 1.001 and r["neffs"].min() > nobs * 1.001
                            bad = r["neff_inj"] < 4 * nobs * 0.999 or r["neffs"].min() < nobs * 0.999
                            sites, ll, ret, latent = lik.run_sites(kw)
                            if ok:
                                ctx.close(ll, lik.ref_loglik(r, nobs, marg), "log-likelihood (default cuts pass)", **tol(ctx))
                            elif bad:
                                ctx.check(lik.is_floor(np.asarray(ll, float)), "default cuts fail: floor", observed=ll)
                            ctx.check(set(latent) == ({"unscaled_rate"} if rate else set()), "only the rate is latent", observed=sorted(latent))
                            ctx.step()
                            ctx.trace()


def precise(ctx):
    """nearly every injection found with equal weight: very large effective sizes, with selection marginalisation"""
    import jax.numpy as jnp

    for nobs, nf, total in ((1, 40, 41), (2, 200, 201), (3, 200, 203)) + (((3, 1000, 1001), (40, 3000, 3001)) if ctx.x64 else ()):
        pe = 1.0 + 0.25 * ((np.arange(nobs * 60) * 7) % 5).reshape(nobs, 60)
        inj = np.full(nf, 0.7)
        r = lik.reference(pe, inj, total, nobs)
        for log in (False, True):
            for marg in (False, True):
                for cut in (False, True):
                    with ctx.at(nobs=nobs, nf=nf, total=total, log=log, marg=marg, cut=cut):
                        p, i = (np.log(pe), np.log(inj)) if log else (pe, inj)
                        kw = dict(pe_weights=jnp.asarray(p), inj_weights=jnp.asarray(i), total_inj=total, Nobs=nobs, Tobs=1.0, surveyed_hypervolume=1.0)
                        sites, ll, _, _ = lik.run_sites(dict(kw, marginalize_selection=marg, min_neff_cut=cut, log=log))
                        ctx.close(ll, lik.ref_loglik(r, nobs, marg), "log-likelihood (large effective sizes)", **(dict(rtol=0, atol=1e-9 * nobs) if ctx.x64 else dict(rtol=1e-5, atol=1e-4)))
                        ctx.step()
                        ctx.trace()


def conflicts(ctx):
    """Every combination of the convergence options: exactly the documented conflicts are rejected."""
    import jax.numpy as jnp

    for marg in (False, True):
        for neff in (False, True):
            for var in (False, True):
                for log in (False, True):
                    with ctx.at(marg=marg, neff=neff, var=var, log=log):
                        w = jnp.zeros((1, 4)) if log else jnp.ones((1, 4))
                        v = jnp.zeros(40) if log else jnp.ones(40)
                        rejected = False
                        try:
                            lik.run_sites(
                                dict(
                                    pe_weights=w,
                                    inj_weights=v,
                                    total_inj=100,
                                    Nobs=1,
                                    Tobs=1.0,
                                    surveyed_hypervolume=1.0,
                                    marginalize_selection=marg,
                                    min_neff_cut=neff,
                                    max_variance_cut=var,
                                    log=log,
                                )
                            )
                        except ValueError:
                            rejected = True
                        ctx.check(rejected == (var and (marg or neff)), "conflicting options rejected", var and (marg or neff), rejected)
                        ctx.step()
                        ctx.trace()


def shifts(ctx):
    """Log weights: adding a constant to all of them only shifts the estimator; no under/overflow."""
    import jax.numpy as jnp

    S = (0.0, 5.0, -20.0, -60.0, 60.0, -100.0, 300.0, -300.0, 600.0) if ctx.x64 else (0.0, 5.0, -20.0, -60.0, 60.0, -80.0, 80.0)
    pe = np.log(np.array([[1.0, 2.0, 0.5, 1.0, 1.0, 3.0], [2.0, 2.0, 1.0, 1.0, 3.0, 1.0]]))
    inj = np.log(1.0 + (np.arange(48) % 3))
    # each event and the injections by their own constant (however far apart), a sample or two without weight
    S3 = S + ((2000.0, -5000.0) if ctx.x64 else ())
    A = np.array([(a, b, c) for a in S3 for b in S3 for c in S3])
    for hole in (None, (0, 1), (1, 0)):
        base = pe.copy()
        if hole is not None:
            base[hole] = -np.inf
        P = base[None] + A[:, :2, None]
        I = inj[None] + A[:, 2:]
        # one sample of each event dominated by the others, however far below
        for spread in (0.0, -40.0, -2000.0):
            P2 = P.copy()
            P2[:, :, -1] += spread
            for marg, neff in ((False, False), (True, False), (False, True)):
                with ctx.at(shifts=S3, hole=hole, spread=spread, marg=marg, neff=neff):
                    r = lik.reference(P2, I, 1000, 2, log=True)
                    exp = lik.ref_loglik(r, 2, marg)
                    ll, _ = lik.bulk(P2, I, 1000, 2, dict(min_neff_cut=neff, marginalize_selection=marg), True)
                    if not ctx.x64:
                        # the reference sees the rounded weights too
                        r = lik.reference(P2.astype(np.float32), I.astype(np.float32), 1000, 2, log=True)
                        exp = lik.ref_loglik(r, 2, marg)
                    ctx.close(ll, exp, "shifted log-likelihood", rtol=1e-9 if ctx.x64 else 1e-4, atol=1e-8 if ctx.x64 else 5e-3)
                    ctx.step(len(A))
                    ctx.trace(len(A))
                    ctx.front(len(A))
    # linear weights scale too
    for sc in (1e-6, 1.0, 1e6) if not ctx.x64 else (1e-60, 1e-6, 1.0, 1e6, 1e60):
        with ctx.at(scale=sc):
            r = lik.reference(np.exp(pe) * sc, np.exp(inj) * sc, 1000, 2)
            sites, ll, _, _ = lik.run_sites(
                dict(
                    pe_weights=jnp.asarray(np.exp(pe) * sc),
                    inj_weights=jnp.asarray(np.exp(inj) * sc),
                    total_inj=1000,
                    Nobs=2,
                    Tobs=1.0,
                    surveyed_hypervolume=1.0,
                )
            )
            ctx.close(ll, lik.ref_loglik(r, 2), "scaled linear log-likelihood", rtol=1e-9 if ctx.x64 else 1e-4, atol=1e-8 if ctx.x64 else 5e-3)
            ctx.step()
            ctx.trace()


def big(ctx):
    import jax.numpy as jnp

    for nobs, ns, nf, total in [(70, 2000, 20000, 10**8), (69, 1000, 5000, 7 * 10**7), (4, 3000, 1000, 3000), (11, 100, 999, 2 * 10**9), (300, 400, 3000, 123456789), (2, 20000, 300000, 7 * 10**10 + 1 if ctx.x64 else 7 * 10**8)]:
        for log in (False, True):
            for marg in (False, True):
                with ctx.at(nobs=nobs, ns=ns, nf=nf, total=total, log=log, marg=marg):
                    k = np.arange(nobs * ns).reshape(nobs, ns)
                    pe = 0.1 + ((k * 2654435761) % 1000) / 250.0
                    inj = 0.05 + ((np.arange(nf) * 40503) % 997) / 300.0
                    p, i = (np.log(pe), np.log(inj)) if log else (pe, inj)
                    r = lik.reference(pe, inj, total, nobs)
                    sites, ll, _, _ = lik.run_sites(
                        dict(
                            pe_weights=jnp.asarray(p),
                            inj_weights=jnp.asarray(i),
                            total_inj=total,
                            Nobs=nobs,
                            Tobs=1.0,
                            surveyed_hypervolume=1.0,
                            marginalize_selection=marg,
                            log=log,
                        )
                    )
                    exp = lik.ref_loglik(r, nobs, marg)
                    ctx.close(ll, exp, "log-likelihood (large)", rtol=1e-10 if ctx.x64 else 2e-4)
                    ctx.step()
                    ctx.trace()


def categorical(ctx):
    """Latent assignment to two subpopulations: every assignment of every event."""
    import itertools

    import jax.numpy as jnp

    for nobs in (1, 2, 3, 4):
        ns = 6
        w0 = 1.0 + ((np.arange(nobs * ns) * 3) % 4).reshape(nobs, ns)
        w1 = 2.0 + ((np.arange(nobs * ns) * 5) % 3).reshape(nobs, ns)
        inj = 1.0 + (np.arange(80) % 3)
        for q in itertools.product((0, 1), repeat=nobs):
            for log in (False, True):
                with ctx.at(nobs=nobs, assignment=q, log=log):
                    import jax

                    a, b, i = (np.log(w0), np.log(w1), np.log(inj)) if log else (w0, w1, inj)
                    sites, ll, _, latent = lik.run_sites(
                        dict(
                            pe_weights=[jnp.asarray(a), jnp.asarray(b)],
                            inj_weights=jnp.asarray(i),
                            total_inj=500,
                            Nobs=nobs,
                            Tobs=1.0,
                            surveyed_hypervolume=1.0,
                            reconstruct_rate=False,
                            min_neff_cut=False,
                            categorical=True,
                            pop_frac=(0.25, 0.75),
                            rngkey=jax.random.PRNGKey(0),
                            log=log,
                        ),
                        params={"Qs": jnp.array(q)},
                    )
                    mix = np.where(np.array(q)[:, None] == 0, w0, w1)
                    r = lik.reference(mix, inj, 500, nobs)
                    ctx.close(ll, lik.ref_loglik(r, nobs), "log-likelihood with assignment", **tol(ctx))
                    val, lp = latent["Qs"]
                    ctx.close(lp, np.log(np.where(np.array(q) == 0, 0.25, 0.75)), "assignment prior", rtol=1e-5)
                    ctx.step()
                    ctx.trace()


def shards(tier):
    names = list(lik.SPACES) + (list(lik.THOROUGH) if tier == "thorough" else [])
    out = []
    for n in names:
        out.append(Shard("tables64-" + n, bulk_space, True, 3, name=n))
        if n in ("1x2", "2x3", "3x5") or tier == "thorough":
            out.append(Shard("tables32-" + n, bulk_space, False, 3, name=n))
    for x, s in ((True, "64"), (False, "32")):
        out.append(Shard("default" + s, default_path, x, 8))
        out.append(Shard("precise" + s, precise, x, 2))
        out.append(Shard("conflicts" + s, conflicts, x, 1))
        out.append(Shard("shifts" + s, shifts, x, 5))
        out.append(Shard("big" + s, big, x, 3))
        out.append(Shard("categorical" + s, categorical, x, 4))
    return out
