"""Reference model and driver shared by the likelihood checks (C01-C04)."""

import itertools
import warnings

import numpy as np

warnings.filterwarnings("ignore")


def reference(pe, inj, total, nobs, log=False):
    """Importance-sampling estimator in plain float64.  pe (B, nobs, ns), inj (B, nf): weights (or log weights)."""
    pe, inj = np.asarray(pe, float), np.asarray(inj, float)
    with np.errstate(all="ignore"):
        if log:
            mp = np.max(pe, axis=-1, keepdims=True)
            mp = np.where(np.isfinite(mp), mp, 0.0)
            mi = np.max(inj, axis=-1, keepdims=True)
            mi = np.where(np.isfinite(mi), mi, 0.0)
            wp, wi = np.exp(pe - mp), np.exp(inj - mi)
            sp, si = mp[..., 0], mi[..., 0]
        else:
            wp, wi, sp, si = pe, inj, 0.0, 0.0
        ns = wp.shape[-1]
        s1, s2 = wp.sum(-1), (wp**2).sum(-1)
        log_bf = np.log(s1) - np.log(ns) + sp
        neffs = s1**2 / s2
        var_bf = 1 / neffs - 1 / ns
        t1, t2 = wi.sum(-1), (wi**2).sum(-1)
        log_mu = np.log(t1) - np.log(total) + si
        inv_neff = t2 / t1**2 - 1 / total  # Var(mu)/mu^2
        neff_inj = 1 / inv_neff
    return dict(log_bf=log_bf, neffs=neffs, var_bf=var_bf, log_mu=log_mu, neff_inj=neff_inj, inv_neff=inv_neff)


def ref_loglik(r, nobs, marg=False):
    with np.errstate(all="ignore"):
        lm = r["log_mu"]
        if marg:
            lm = lm - (3 + nobs) / (2 * r["neff_inj"])
        return r["log_bf"].sum(-1) - nobs * lm


def dead(r):
    """No finite estimate exists: some event or the injections carry no weight at all."""
    return ~np.isfinite(r["log_bf"]).all(-1) | ~np.isfinite(r["log_mu"])


def run_sites(kw, params=None, seed=0):
    """One execution of the real likelihood; returns (sites, log-likelihood contribution, return value)."""
    import jax
    import numpyro
    from gwinferno.pipeline.analysis import hierarchical_likelihood
    from numpyro import handlers

    out = {}

    def model():
        out["ret"] = hierarchical_likelihood(**kw)

    m = handlers.seed(model, jax.random.PRNGKey(seed))
    if params:
        m = handlers.substitute(m, data=params)
    tr = handlers.trace(m).get_trace()
    ll = 0.0
    sites = {}
    latent = {}
    for name, s in tr.items():
        if s["type"] == "sample":
            lp = s["fn"].log_prob(s["value"])
            if s["is_observed"]:
                ll = ll + lp.sum()
            else:
                latent[name] = (s["value"], lp)
        elif s["type"] == "deterministic":
            sites[name] = s["value"]
    return sites, ll, out["ret"], latent


def bulk(pe, inj, total, nobs, opts, log):
    """All tables at once: the real likelihood, compiled and vectorised over the explored tables."""
    import jax
    import jax.numpy as jnp

    def one(p, i):
        sites, ll, _, _ = run_sites(
            dict(pe_weights=p, inj_weights=i, total_inj=total, Nobs=nobs, Tobs=1.0, surveyed_hypervolume=1.0, reconstruct_rate=False, log=log, **opts)
        )
        return ll, {k: sites[k] for k in sites}

    ll, sites = jax.jit(jax.vmap(one))(jnp.asarray(pe), jnp.asarray(inj))
    return np.asarray(ll, float), {k: np.asarray(v, float) for k, v in sites.items()}


def tables(alphabet, n):
    return np.array(list(itertools.product(alphabet, repeat=n)), float)


# (name, nobs, nsamples, alphabet of event weights, alphabet of injection patterns, pattern length, repeats, totals)
SPACES = {
    "1x1": (1, 1, (0, 1, 3), (0, 1, 2), 3, (1, 4), (12, 100)),
    "1x2": (1, 2, (0, 0.5, 1, 3), (0, 1, 2), 3, (1, 4), (12, 100)),
    "1x3": (1, 3, (0, 1, 2, 5), (0, 1, 2), 3, (2, 4), (24, 1000)),
    "2x2": (2, 2, (0, 1, 3), (0, 1, 2), 3, (1, 8), (24, 1000)),
    "2x3": (2, 3, (0, 1, 3), (0, 1, 2), 2, (6, 16), (40, 1000)),
    "2x4": (2, 4, (0, 1, 2), (1, 2), 2, (16,), (64,)),
    "3x4": (3, 4, (0, 1), (0, 1, 4), 2, (8, 24), (64,)),
    "3x5": (3, 5, (1, 2), (1, 4), 2, (8, 24), (64, 10000)),
    "5x2": (5, 2, (0, 1, 2), (0, 1), 2, (32,), (65, 200)),
}
THOROUGH = {
    "1x4": (1, 4, (0, 0.25, 1, 2, 5), (0, 1, 2, 3), 3, (1, 2, 4), (24, 48, 1000)),
    "2x5": (2, 5, (0, 1, 2), (0, 1, 2), 2, (6, 16), (40, 1000)),
    "4x4": (4, 4, (0, 1), (0, 1, 4), 2, (24,), (64,)),
    "3x4b": (3, 4, (0, 1, 3), (1, 4), 1, (30,), (64,)),
    "4x3": (4, 3, (0, 1, 2), (1, 3), 1, (40,), (100,)),
}


def space(name):
    nobs, ns, al, ial, plen, reps, totals = {**SPACES, **THOROUGH}[name]
    pe = tables(al, nobs * ns).reshape(-1, nobs, ns)
    for rep in reps:
        pats = np.tile(tables(ial, plen), (1, rep))
        for total in totals:
            if total < pats.shape[1]:
                continue
            yield rep, total, pe, pats, nobs


def cross(pe, pats):
    """Every event table with every injection pattern."""
    P = np.repeat(pe, len(pats), axis=0)
    I = np.tile(pats, (len(pe), 1))
    return P, I


def is_floor(v):
    return np.isfinite(v) & (v <= -1e30)
