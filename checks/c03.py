"""C03: recorded diagnostics and the merger rate agree with the weights."""

import numpy as np
from checks import lik
from mc.core import Shard

PROPERTY = "C03"
BOUNDS = dict(
    tables="all small weight tables of the likelihood spaces for the vectorised diagnostics",
    sizes="structured tables up to 300 events, 20000 samples per event and 300000 injections, totals up to 7e10",
    rate="all combinations of events {1,2,5,70}, injections, totals {50,1e4,1e8}, times, hypervolumes, unscaled rates, log/linear, options",
)
ASSUMPTIONS = [
    "weights are finite, non-negative and not all zero for the judged diagnostics",
    "the variance of the log detection efficiency may be reported with or without an extra 1/N_injections term",
]


def t(ctx):
    return dict(rtol=1e-9, atol=1e-9) if ctx.x64 else dict(rtol=2e-4, atol=2e-4)


def site(ctx, sites, name):
    if name not in sites:
        ctx.fail("diagnostic '%s' is not recorded" % name, observed=sorted(sites))
        return None
    return sites[name]


def judge(ctx, sites, r, nobs, total, marg, cut, good):
    tt = t(ctx)
    live = ~lik.dead(r)
    g = lambda n: site(ctx, sites, n)  # noqa: E731
    with np.errstate(all="ignore"):
        fin = np.abs(r["inv_neff"]) > (1e-9 if ctx.x64 else 1e-4)  # Neff of the injections is finite
        v = g("logBFs")
        if v is not None:
            ctx.close(v, r["log_bf"], "per-event log Bayes factors", mask=live[..., None], **tt)
        v = g("log_nEffs")
        if v is not None:
            ctx.close(v, np.log(r["neffs"]), "per-event log effective sizes", mask=live[..., None], **tt)
        v = g("log_nEff_inj")
        if v is not None:
            ctx.close(v, np.log(r["neff_inj"]), "injection log effective size", mask=live & fin, rtol=tt["rtol"] * 5, atol=tt["atol"] * 5)
        v = g("detection_efficiency")
        if v is not None:
            ctx.close(v, np.exp(r["log_mu"]), "detection efficiency", mask=live, rtol=tt["rtol"])
        v = g("variance_log_BFs")
        if v is not None:
            ctx.close(v, r["var_bf"], "per-event variances", mask=live[..., None], **tt)
        v = g("variance_log_detection_efficiency")
        a, b = r["inv_neff"], r["inv_neff"] - 1 / total
        e = None
        if v is not None:
            e = np.where(np.abs(v - a) < np.abs(v - b), a, b)
            ctx.close(v, e, "variance of the log detection efficiency", mask=live & fin, **tt)
        w = g("variance_log_likelihood")
        if w is not None and v is not None:
            ctx.close(w, nobs**2 * e + r["var_bf"].sum(-1), "variance of the log-likelihood", mask=live & fin, rtol=tt["rtol"], atol=tt["atol"] * nobs**2)
        v = g("sum_logBFs")
        if v is not None:
            ctx.close(v, r["log_bf"].sum(-1), "summed log Bayes factors", mask=live, **tt)
        lm = r["log_mu"] - ((3 + nobs) / (2 * r["neff_inj"]) if marg else 0.0)
        v = g("selection_factor")
        if v is not None:
            ctx.close(v, -nobs * lm, "selection factor", mask=live & fin & good, rtol=tt["rtol"], atol=tt["atol"] * nobs)
        v = g("log_l")
        if v is not None:
            ctx.close(v, r["log_bf"].sum(-1) - nobs * lm, "recorded log-likelihood", mask=live & fin & good, rtol=tt["rtol"], atol=tt["atol"] * (nobs + 1))


def bulk_space(ctx, name):
    for rep, total, pe, pats, nobs in lik.space(name):
        P, I = lik.cross(pe, pats)
        r = lik.reference(P, I, total, nobs)
        for log in (False, True):
            for marg, cut in ((False, False), (True, False)):
                with ctx.at(space=name, rep=rep, total=total, log=log, marg=marg):
                    with np.errstate(divide="ignore"):
                        p, i = (np.log(P), np.log(I)) if log else (P, I)
                    ll, sites = lik.bulk(p, i, total, nobs, dict(min_neff_cut=cut, marginalize_selection=marg), log)
                    judge(ctx, sites, r, nobs, total, marg, cut, np.ones(len(ll), bool))
                    ctx.front(len(ll))
                    ctx.step(len(ll))
                    ctx.trace(len(ll))
                    ctx.outcome(sorted(sites))


def rate(ctx, nobs):
    import jax.numpy as jnp
    from scipy.stats import gamma

    ns, nf = 2 * nobs + 6, 10 * nobs + 30
    pe = 1.0 + ((np.arange(nobs * ns) * 7) % 4).reshape(nobs, ns)
    for total in (nf + 20, 10**4, 10**8):
        for tobs in (0.003, 0.25, 1.0, 2.5, 75.0):
            for hv in (1e9, 3.7e10, 5e5, 8e12):
                if tobs in (0.003, 75.0) and hv in (1e9, 5e5):
                    continue
                for un in (0.1, float(nobs), 3.0 * nobs):
                    for log in (False, True):
                        for opts in (dict(), dict(marginalize_selection=True), dict(min_neff_cut=False, max_variance_cut=True)):
                            if (opts or log) and (tobs != 2.5 or hv != 3.7e10):
                                continue
                            with ctx.at(nobs=nobs, total=total, tobs=tobs, hv=hv, un=un, log=log, opts=opts):
                                inj = 0.5 + (np.arange(nf) % 5)
                                r = lik.reference(pe, inj, total, nobs)
                                p, i = (np.log(pe), np.log(inj)) if log else (pe, inj)
                                sites, ll, ret, latent = lik.run_sites(
                                    dict(
                                        pe_weights=jnp.asarray(p),
                                        inj_weights=jnp.asarray(i),
                                        total_inj=total,
                                        Nobs=nobs,
                                        Tobs=tobs,
                                        surveyed_hypervolume=hv,
                                        log=log,
                                        **opts,
                                    ),
                                    params={"unscaled_rate": jnp.asarray(un)},
                                )
                                mu = np.exp(r["log_mu"])
                                tol = 1e-9 if ctx.x64 else 1e-4
                                ctx.close(site(ctx, sites, "surveyed_hypervolume"), hv / 1e9 * tobs, "surveyed hypervolume in Gpc^3 yr", rtol=tol)
                                ctx.close(site(ctx, sites, "rate"), un / mu / (hv / 1e9 * tobs), "rate", rtol=tol)
                                ctx.close(ret, un / mu / (hv / 1e9 * tobs), "returned rate", rtol=tol)
                                val, lp = latent["unscaled_rate"]
                                ctx.close(lp, gamma.logpdf(un, nobs), "prior of the unscaled rate", rtol=1e-5 if ctx.x64 else 1e-3, atol=1e-4)
                                judge(ctx, sites, r, nobs, total, bool(opts.get("marginalize_selection")), False, np.bool_(r["neff_inj"] >= 4 * nobs))
                                ctx.step()
                                ctx.trace()
    with ctx.at(no_rate=True):
        for log in (False, True):
            sites, ll, ret, latent = lik.run_sites(
                dict(
                    pe_weights=jnp.zeros((nobs, ns)) if log else jnp.ones((nobs, ns)),
                    inj_weights=jnp.zeros(nf) if log else jnp.ones(nf),
                    total_inj=1000,
                    Nobs=nobs,
                    Tobs=1.0,
                    reconstruct_rate=False,
                    log=log,
                )
            )
            ctx.check(ret is None and "rate" not in sites and not latent, "no rate without reconstruction", observed=[repr(ret), sorted(sites)])
            ctx.step()
            ctx.trace()


def large(ctx):
    """many events, many samples, many injections, totals no 32-bit number represents"""
    import jax.numpy as jnp

    cases = ((300, 40, 3000, 123456789), (2, 20000, 40000, 16777217), (150, 6000, 5000, 33554435), (3, 50, 300000, 7 * 10**10 + 1 if ctx.x64 else 7 * 10**8))
    for nobs, ns, nf, total in cases:
        k = np.arange(nobs * ns).reshape(nobs, ns)
        pe = 0.1 + ((k * 2654435761) % 1000) / 250.0
        inj = 0.05 + ((np.arange(nf) * 40503) % 997) / 300.0
        r = lik.reference(pe, inj, total, nobs)
        for log in (False, True):
            for marg in (False, True):
                with ctx.at(nobs=nobs, ns=ns, nf=nf, total=total, log=log, marg=marg):
                    p, i = (np.log(pe), np.log(inj)) if log else (pe, inj)
                    sites, ll, ret, _ = lik.run_sites(
                        dict(pe_weights=jnp.asarray(p), inj_weights=jnp.asarray(i), total_inj=total, Nobs=nobs, Tobs=0.7, surveyed_hypervolume=3.3e10, marginalize_selection=marg, log=log),
                        params={"unscaled_rate": jnp.asarray(1.25 * nobs)},
                    )
                    judge(ctx, sites, r, nobs, total, marg, True, np.bool_(r["neff_inj"] >= 4 * nobs))
                    ctx.close(site(ctx, sites, "rate"), 1.25 * nobs / np.exp(r["log_mu"]) / (33 * 0.7), "rate", rtol=1e-9 if ctx.x64 else 1e-3)
                    ctx.step()
                    ctx.trace()


def shards(tier):
    names = ["1x2", "1x3", "2x2", "2x3", "3x4", "5x2"] + (["2x4", "3x5"] + list(lik.THOROUGH) if tier == "thorough" else [])
    out = [Shard("tables64-" + n, bulk_space, True, 2, name=n) for n in names]
    out += [Shard("tables32-" + n, bulk_space, False, 2, name=n) for n in (names if tier == "thorough" else ("1x3", "2x3"))]
    out += [Shard("large64", large, True, 4), Shard("large32", large, False, 4)]
    for n in (1, 2, 5, 70):
        out.append(Shard("rate64-%d" % n, rate, True, 6, nobs=n))
        out.append(Shard("rate32-%d" % n, rate, False, 6, nobs=n))
    return out
