"""C02: convergence cuts turn unreliable estimates into a finite floor and leave reliable ones untouched."""

import numpy as np
from checks import lik
from mc.core import Shard

PROPERTY = "C02"
BOUNDS = dict(
    event_tables="all tables over a small weight alphabet, shapes " + ", ".join(lik.SPACES),
    injections="all patterns over a small alphabet, tiled 1..32 times, several totals; graded effective sizes crossing each threshold",
    large="catalogs of 110 and 230 events with effective sizes around every threshold",
    undefined="one weight that is not a number, at every position of the event table and at three injections",
    options="log/linear x {effective-size cut, effective-size cut + marginalisation, variance cut, no cut}",
)
ASSUMPTIONS = [
    "cases whose effective size or variance lies within 0.1% (64-bit) / 1% (32-bit) of a threshold are not judged",
    "the variance of the log detection efficiency may be reported with or without an extra 1/N_injections term; cases where this decides the cut are not judged",
]
MODES = {
    "neff": dict(min_neff_cut=True),
    "neff+marg": dict(min_neff_cut=True, marginalize_selection=True),
    "var": dict(min_neff_cut=False, max_variance_cut=True),
    "none": dict(min_neff_cut=False),
}


def verdict(r, nobs, total, mode, eps):
    """-> (pass, fail) boolean arrays; neither set: too close to a threshold to judge."""
    d = lik.dead(r)
    with np.errstate(all="ignore"):
        if mode.startswith("neff"):
            ni, ne = r["neff_inj"], np.where(np.isfinite(r["neffs"]), r["neffs"], 1.0).min(-1)
            inf = np.abs(r["inv_neff"]) < 1e-6
            good = ((ni > 4 * nobs * (1 + eps)) & ~inf) & (ne > nobs * (1 + eps))
            bad = ((ni < 4 * nobs * (1 - eps)) & ~inf & (ni > 0)) | (ne < nobs * (1 - eps))
        elif mode == "var":
            v = nobs**2 * r["inv_neff"] + r["var_bf"].sum(-1)
            w = v - nobs**2 / total
            good = (v < 1 - eps) & (np.abs(r["inv_neff"]) >= 1e-6)  # all found with equal weight: no spread to estimate
            bad = w > 1 + eps
        else:
            good, bad = ~d, d
    return good & ~d, bad | d


def judge(ctx, ll, r, nobs, total, mode, marg):
    good, bad = verdict(r, nobs, total, mode, 1e-3 if ctx.x64 else 1e-2)
    exp = lik.ref_loglik(r, nobs, marg)
    ctx.close(ll, exp, "value when the cut passes", mask=good, rtol=1e-9 if ctx.x64 else 1e-4, atol=1e-9 if ctx.x64 else 2e-3)
    ctx.check(np.all(lik.is_floor(ll[bad])), "cut fails: finite floor", observed=ll[bad][~lik.is_floor(ll[bad])][:3], n=int(bad.sum()))
    ctx.check(not np.any(np.isnan(ll)) and not np.any(ll == np.inf), "never NaN or +inf", observed=ll[~np.isfinite(ll)][:3])
    ctx.outcome((mode, int(good.sum()), int(bad.sum())))
    return good, bad


def bulk_space(ctx, name):
    for rep, total, pe, pats, nobs in lik.space(name):
        P, I = lik.cross(pe, pats)
        r = lik.reference(P, I, total, nobs)
        for log in (False, True):
            for mode, opts in MODES.items():
                with ctx.at(space=name, rep=rep, total=total, log=log, mode=mode):
                    with np.errstate(divide="ignore"):
                        p, i = (np.log(P), np.log(I)) if log else (P, I)
                    ll, sites = lik.bulk(p, i, total, nobs, opts, log)
                    g, b = judge(ctx, ll, r, nobs, total, mode, "marg" in mode)
                    ctx.front(len(ll))
                    ctx.step(len(ll))
                    ctx.trace(len(ll))
                    ctx.sample(space=name, mode=mode, passed=int(g.sum()), cut=int(b.sum()), total=total)


def graded(ctx, nobs):
    """Graded effective sizes: n equal weights out of a row, crossing every threshold for this number of events."""
    ns = 4 * nobs + 8
    k = np.arange(1, ns + 1)
    ev = (np.arange(ns)[None, :] < k[:, None]).astype(float)  # n_eff = k
    nf = 12 * nobs + 8
    m = np.arange(1, nf + 1)
    inj = (np.arange(nf)[None, :] < m[:, None]).astype(float)  # n_eff_inj about m
    for total in (nf + 1, 10 * nf, 10**7):
        for other in (ns, nobs + 1):  # the remaining events: fully sampled / just above the threshold
            # every position of the poorly sampled event, every k, every m (positions cycle with k for large nobs)
            rows, injr = [], []
            for kk in range(ns):
                for mm in range(nf):
                    pos = range(nobs) if nobs <= 3 else ((kk + mm) % nobs,)
                    for q in pos:
                        t = np.repeat(ev[other - 1][None, :], nobs, 0)
                        t[q] = ev[kk]
                        rows.append(t)
                        injr.append(inj[mm])
            P, I = np.array(rows), np.array(injr)
            r = lik.reference(P, I, total, nobs)
            for log in (False, True):
                for mode, opts in MODES.items():
                    with ctx.at(nobs=nobs, total=total, other=other, log=log, mode=mode):
                        with np.errstate(divide="ignore"):
                            p, i = (np.log(P), np.log(I)) if log else (P, I)
                        ll, _ = lik.bulk(p, i, total, nobs, opts, log)
                        g, b = judge(ctx, ll, r, nobs, total, mode, "marg" in mode)
                        ctx.front(len(ll))
                        ctx.step(len(ll))
                        ctx.trace(len(ll))
                        ctx.sample(nobs=nobs, mode=mode, passed=int(g.sum()), cut=int(b.sum()), total=total)


def large(ctx, nobs):
    """catalogs of hundreds of events: effective sizes around each threshold, the weak event at the start, middle and end"""
    ns = nobs + 40
    ks = np.array([1, 5, nobs // 2, nobs - 1, nobs + 1, nobs + 2, ns])
    ms = np.array([nobs // 4, nobs, 100, 399, 402, 401 + nobs, 2 * nobs, 4 * nobs - 3, 4 * nobs + 3, 5 * nobs])
    ev = (np.arange(ns)[None, :] < ks[:, None]).astype(float)
    inj = (np.arange(5 * nobs)[None, :] < ms[:, None]).astype(float)
    rows, injr = [], []
    for kk in range(len(ks)):
        for mm in range(len(ms)):
            for q in (0, nobs // 2, nobs - 1):
                t = np.ones((nobs, ns))
                t[q] = ev[kk]
                rows.append(t)
                injr.append(inj[mm])
    P, I = np.array(rows), np.array(injr)
    for total in (10**5, 10**9):
        r = lik.reference(P, I, total, nobs)
        for log in (False, True):
            for mode, opts in MODES.items():
                with ctx.at(nobs=nobs, total=total, log=log, mode=mode):
                    with np.errstate(divide="ignore"):
                        p, i = (np.log(P), np.log(I)) if log else (P, I)
                    ll, _ = lik.bulk(p, i, total, nobs, opts, log)
                    g, b = judge(ctx, ll, r, nobs, total, mode, "marg" in mode)
                    ctx.front(len(ll))
                    ctx.step(len(ll))
                    ctx.trace(len(ll))


def extremes(ctx):
    """Vanishing weights and the whole range of log weights: never NaN, never +inf."""
    import itertools

    import jax.numpy as jnp

    vals = (-np.inf, -700.0, -80.0, 0.0, 80.0) if ctx.x64 else (-np.inf, -80.0, 0.0, 40.0)
    for nobs, ns in ((1, 3), (2, 2)):
        P = np.array(list(itertools.product(vals, repeat=nobs * ns))).reshape(-1, nobs, ns)
        inj = np.array(list(itertools.product(vals, repeat=2)))
        inj = np.repeat(inj, 20, axis=1)
        PP, II = lik.cross(P, inj)
        for mode, opts in MODES.items():
            for total in (41, 10**6):
                with ctx.at(nobs=nobs, mode=mode, total=total):
                    ll, _ = lik.bulk(PP, II, total, nobs, opts, True)
                    r = lik.reference(PP, II, total, nobs, log=True)
                    judge(ctx, ll, r, nobs, total, mode, "marg" in mode)
                    ctx.front(len(ll))
                    ctx.step(len(ll))
                    ctx.trace(len(ll))


def undefined(ctx):
    """A sample or injection whose weight is not a number: an estimate that cannot be trusted, in every configuration."""
    base = (0.5, 1.0, 2.0)
    for nobs, ns in ((1, 3), (2, 3), (3, 4)):
        P = np.resize(np.array(base), nobs * ns).reshape(nobs, ns)
        tabs = np.repeat(P[None], nobs * ns + 1, 0)
        for j in range(nobs * ns):
            tabs[j].ravel()[j] = np.nan
        inj = np.resize(np.array((1.0, 1.5)), 60)
        injs = np.repeat(inj[None], 4, 0)
        for j, q in enumerate((0, 31, 59)):
            injs[j, q] = np.nan
        PP, II = lik.cross(tabs, injs)
        PP, II = PP[:-1], II[:-1]  # the last pair has no undefined weight
        for mode, opts in MODES.items():
            for total in (61, 10**5):
                for log in (False, True):
                    with ctx.at(nobs=nobs, mode=mode, total=total, log=log):
                        ll, _ = lik.bulk(np.log(PP) if log else PP, np.log(II) if log else II, total, nobs, opts, log)
                        ok = lik.is_floor(ll)
                        ctx.check(np.all(ok), "an undefined weight gives the finite floor", observed=ll[~ok][:3], n=len(ll))
                        ctx.outcome((mode, nobs, len(ll)))
                        ctx.front(len(ll))
                        ctx.step(len(ll))
                        ctx.trace(len(ll))


def shards(tier):
    names = [n for n in lik.SPACES if n != "3x5"] + (list(lik.THOROUGH) + ["3x5"] if tier == "thorough" else [])
    out = [Shard("tables64-" + n, bulk_space, True, 3, name=n) for n in names]
    out += [Shard("tables32-" + n, bulk_space, False, 3, name=n) for n in (names if tier == "thorough" else ("1x2", "2x3"))]
    for n in (1, 2, 3, 5) + ((4, 7, 10) if tier == "thorough" else ()):
        out.append(Shard("graded64-%d" % n, graded, True, 4, nobs=n))
        out.append(Shard("graded32-%d" % n, graded, False, 4, nobs=n))
    out += [Shard("large64-%d" % n, large, True, 3, nobs=n) for n in (110, 230)]
    out += [Shard("extremes64", extremes, True, 3), Shard("extremes32", extremes, False, 3), Shard("undefined64", undefined, True, 3), Shard("undefined32", undefined, False, 3)]
    return out
