"""C25: smoothing priors penalise exactly the differences of the coefficients."""

import itertools
from math import comb

import numpy as np
from mc.core import Shard, product
from scipy import stats

PROPERTY = "C25"
BOUNDS = dict(
    coefficients="every vector over {-2,-1,0,1,3} with 2..6 entries (7 thorough) and over {-1,0,1} with up to 8 (9), as floats and integers",
    orders="every difference order from 1 to one less than the number of coefficients",
    scales="inverse variances {0, 0.01, 1, 25, 4000}",
    builders="mass, spin (identical and independent) and redshift builders with every combination of given/default numbers, scales, orders, widths and names; every subset of builders in one model",
)
ASSUMPTIONS = ["one vector of coefficients per penalty"]
TAUS = (0.0, 0.01, 1.0, 25.0, 4000.0)


def penalty(C, tau, d):
    """-tau/2 sum of squared d-th differences, from binomial coefficients"""
    C = np.asarray(C, float)
    w = np.array([(-1) ** (d - j) * comb(d, j) for j in range(d + 1)], float)
    n = C.shape[-1]
    D = sum(w[j] * C[..., j : n - d + j] for j in range(d + 1))
    return -0.5 * tau * np.sum(D**2, -1)


def vectors(ctx, n, alphabet):
    import jax
    import jax.numpy as jnp
    from gwinferno.models.bsplines.smoothing import apply_difference_prior as f
    from gwinferno.numpyro_distributions import PSplineCoeficientPrior

    C = np.array(list(itertools.product(alphabet, repeat=n)), float)
    for d in range(1, n):
        for tau in TAUS:
            e = penalty(C, tau, d)
            with ctx.at(n=n, order=d, inv_var=tau):
                g = np.asarray(jax.vmap(lambda c: f(c, tau, degree=d))(jnp.asarray(C)), float)
                tol = dict(rtol=1e-12, atol=0.0) if ctx.x64 else dict(rtol=1e-5, atol=1e-6)
                ctx.close(g, e, "difference penalty", **tol)
                poly = np.array([np.linalg.matrix_rank(np.vander(np.arange(n), d)) < n for _ in range(1)])[0]
                if tau > 0 and poly:
                    ctx.check(np.all((g == 0) == (e == 0)), "penalty vanishes exactly for polynomials of lower degree")
                ctx.front(len(C))
                ctx.step(len(C))
                ctx.trace(len(C))
                for i in range(0, len(C), max(1, len(C) // 5)):
                    ctx.close(float(f(jnp.asarray(C[i]), tau, degree=d)), e[i], "difference penalty, eager", **tol)
                    ctx.close(float(f(np.asarray(C[i], int), tau, degree=d)), e[i], "difference penalty of integers", **tol)
                    if d == 1:
                        ctx.close(float(f(jnp.asarray(C[i]), tau)), e[i], "default order is one", **tol)
                    if tau > 0:
                        p = PSplineCoeficientPrior(n, tau, diff_order=d)
                        ctx.close(float(p.log_prob(jnp.asarray(C[i]))), e[i], "coefficient prior", **tol)
                        if d == 2:
                            ctx.close(float(PSplineCoeficientPrior(n, tau).log_prob(jnp.asarray(C[i]))), e[i], "default order of the coefficient prior is two", **tol)
                    ctx.step(3)
                ctx.outcome((n, d, tau, round(float(e.sum()), 3)))


def val(n, i):
    return np.round(np.sin(1.0 + i + np.arange(n) * (1.3 + 0.37 * i)) * 2, 2) + (np.arange(n) == i % n)


def run(fn, values, seed=0):
    import jax
    import jax.numpy as jnp
    from numpyro import handlers

    out = {}

    def model():
        out["ret"] = fn()

    m = handlers.seed(model, jax.random.PRNGKey(seed))
    m = handlers.substitute(m, data={k: jnp.asarray(v) for k, v in values.items()})
    tr = handlers.trace(m).get_trace()
    latent, obs = {}, 0.0
    for n, s in tr.items():
        if s["type"] == "sample":
            lp = np.asarray(s["fn"].log_prob(s["value"]), float)
            if s["is_observed"]:
                obs += lp.sum()
            else:
                latent[n] = (np.asarray(s["value"], float), lp.sum())
    return out["ret"], latent, obs


def expect(sites):
    """sites: name -> (n, sigma, tau, degree, zero_first)"""
    vals, lp, pen = {}, {}, 0.0
    for i, (k, (n, sig, tau, deg, z)) in enumerate(sites.items()):
        v = val(n - (1 if z else 0), i)
        vals[k] = v
        lp[k] = stats.norm.logpdf(v, 0, sig).sum()
        pen += penalty(np.concatenate([[0.0], v]) if z else v, tau, deg)
    return vals, lp, pen


def judge(ctx, fn, sites, ret_of):
    vals, lp, pen = expect(sites)
    ret, latent, obs = run(fn, vals)
    ctx.step()
    rt = 1e-10 if ctx.x64 else 1e-4
    ctx.check(set(latent) == set(sites), "coefficients that are sampled", sorted(sites), sorted(latent))
    for k in set(latent) & set(sites):
        ctx.close(latent[k][0], vals[k], "number of coefficients of " + k, rtol=1e-5)
        ctx.close(latent[k][1], lp[k], "width of the prior of " + k, rtol=rt, atol=rt)
    ctx.close(obs, pen, "penalty added to the model", rtol=rt, atol=rt)
    if ret_of is not None:
        rets = ret if isinstance(ret, tuple) else (ret,)
        ctx.check(len(rets) == len(ret_of), "number of returned vectors", len(ret_of), len(rets))
        for got, k in zip(rets, ret_of):
            e = np.concatenate([[0.0], vals[k]]) if sites[k][4] else vals[k]
            ctx.close(np.asarray(got, float), e, "returned coefficients " + k, rtol=1e-5)
    # without substitution: every seed samples the requested shapes
    for seed in (0, 1):
        _, lat, _ = run(fn, {}, seed)
        ctx.step()
        for k in set(lat) & set(sites):
            ctx.check(lat[k][0].shape == vals[k].shape and len(np.unique(lat[k][0])) == lat[k][0].size, "drawn coefficients of " + k, vals[k].shape, lat[k][0].shape)
    ctx.trace()
    ctx.outcome((sorted(sites), round(float(pen), 3)))


def pick(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def mass(ctx):
    from gwinferno.pipeline.utils import bspline_mass_prior as f

    for c in product(m=(None, 3, 6), q=(None, 4, 5), name=(None, "pop1"), m_tau=(None, 0.5, 1000.0), q_tau=(None, 7.0), sig=(None, (2.0, 3.0), (20.0, 30.0)), deg=(None, (2, 1), (1, 3))):
        with ctx.at(builder="mass", **c):
            kw = pick(m_nsplines=c["m"], q_nsplines=c["q"], name=c["name"], m_tau=c["m_tau"], q_tau=c["q_tau"])
            if c["sig"]:
                kw.update(m_cs_sig=c["sig"][0], q_cs_sig=c["sig"][1])
            if c["deg"]:
                kw.update(m_deg=c["deg"][0], q_deg=c["deg"][1])
            s = "_" + c["name"] if c["name"] else ""
            if c["m"] is None and c["q"] is None:
                try:
                    run(lambda: f(**kw), {})
                    ctx.fail("no number of splines is an error", "AssertionError", "accepted")
                except AssertionError:
                    ctx.trace()
                continue
            sites = {}
            if c["m"]:
                sites["mass_cs" + s] = (c["m"], (c["sig"] or (15, 5))[0], c["m_tau"] or 1.0, (c["deg"] or (1, 1))[0], False)
            if c["q"]:
                sites["q_cs" + s] = (c["q"], (c["sig"] or (15, 5))[1], c["q_tau"] or 1.0, (c["deg"] or (1, 1))[1], False)
            judge(ctx, lambda: f(**kw), sites, list(sites))


def spin(ctx, iid):
    from gwinferno.pipeline.utils import bspline_spin_prior as f

    for c in product(a=(4, 6), t=(5, 4), name=(None, "pop1"), taus=((1.0, 1.0), (25.0, 0.5), (300.0, 5000.0)), sig=(None, (2.0, 3.0), (20.0, 30.0)), deg=(None, (1, 3), (3, 1))):
        with ctx.at(builder="spin", iid=iid, **c):
            kw = pick(a_nsplines=c["a"], ct_nsplines=c["t"], name=c["name"], a_tau=c["taus"][0], ct_tau=c["taus"][1], IID=iid)
            if c["sig"]:
                kw.update(a_cs_sig=c["sig"][0], ct_cs_sig=c["sig"][1])
            if c["deg"]:
                kw.update(a_deg=c["deg"][0], ct_deg=c["deg"][1])
            s = "_" + c["name"] if c["name"] else ""
            A = (c["a"], (c["sig"] or (5, 5))[0], c["taus"][0], (c["deg"] or (2, 2))[0], False)
            T = (c["t"], (c["sig"] or (5, 5))[1], c["taus"][1], (c["deg"] or (2, 2))[1], False)
            names = ["a_cs", "tilt_cs"] if iid else ["a1_cs", "tilt1_cs", "a2_cs", "tilt2_cs"]
            sites = {n + s: A if n[0] == "a" else T for n in names}
            judge(ctx, lambda: f(**kw), sites, list(sites))


def redshift(ctx):
    from gwinferno.pipeline.utils import bspline_redshift_prior as f

    for c in product(z=(3, 4, 7), name=(None, "pop1"), tau=(0.5, 1.0, 25.0, 3000.0), sig=(None, 2.5, 12.0), deg=(None, 1, 2)):
        with ctx.at(builder="redshift", **c):
            kw = pick(z_nsplines=c["z"], name=c["name"], z_tau=c["tau"], z_cs_sig=c["sig"], z_deg=c["deg"])
            s = "_" + c["name"] if c["name"] else ""
            sites = {"z_cs" + s: (c["z"], c["sig"] or 1, c["tau"], c["deg"] or 2, True)}
            judge(ctx, lambda: f(**kw), sites, list(sites))


def together(ctx):
    from gwinferno.pipeline.utils import bspline_mass_prior, bspline_redshift_prior, bspline_spin_prior

    B = {
        "mass": (lambda: bspline_mass_prior(m_nsplines=5, q_nsplines=4), {"mass_cs": (5, 15, 1.0, 1, False), "q_cs": (4, 5, 1.0, 1, False)}),
        "mass_p": (lambda: bspline_mass_prior(m_nsplines=3, m_tau=2.0, name="p"), {"mass_cs_p": (3, 15, 2.0, 1, False)}),
        "iid": (lambda: bspline_spin_prior(a_nsplines=4, ct_nsplines=5, a_tau=25.0, ct_tau=9.0, IID=True), {"a_cs": (4, 5, 25.0, 2, False), "tilt_cs": (5, 5, 9.0, 2, False)}),
        "ind": (
            lambda: bspline_spin_prior(a_nsplines=4, ct_nsplines=5, a_tau=2.0, ct_tau=3.0, name="p"),
            {"a1_cs_p": (4, 5, 2.0, 2, False), "a2_cs_p": (4, 5, 2.0, 2, False), "tilt1_cs_p": (5, 5, 3.0, 2, False), "tilt2_cs_p": (5, 5, 3.0, 2, False)},
        ),
        "z": (lambda: bspline_redshift_prior(z_nsplines=6, z_tau=4.0), {"z_cs": (6, 1, 4.0, 2, True)}),
    }
    for r in (1, 2, 3, 4, 5):
        for names in itertools.permutations(B, r) if r < 4 or ctx.thorough else itertools.combinations(B, r):
            with ctx.at(builders=names):
                sites = {}
                for n in names:
                    sites.update(B[n][1])
                judge(ctx, lambda: [B[n][0]() for n in names], sites, None)


def shards(tier):
    t = tier == "thorough"
    out = [Shard("vectors64-%d" % n, vectors, True, n / 2, n=n, alphabet=(-2, -1, 0, 1, 3)) for n in ((2, 3, 4, 5, 6, 7) if t else (2, 3, 4, 5, 6))]
    out += [Shard("signs64-%d" % n, vectors, True, n / 2, n=n, alphabet=(-1, 0, 1)) for n in ((7, 8, 9) if t else (7, 8))]
    out += [Shard("vectors32-%d" % n, vectors, False, n / 2, n=n, alphabet=(-2, -1, 0, 1, 3)) for n in (3, 5)]
    for x in (True, False) if t else (True,):
        b = "64" if x else "32"
        out += [Shard("mass" + b, mass, x, 4), Shard("spin-iid" + b, spin, x, 4, iid=True), Shard("spin" + b, spin, x, 4, iid=False), Shard("redshift" + b, redshift, x, 3), Shard("together" + b, together, x, 5)]
    return out
