"""C29: the set-up helpers build the models they describe, on the right data."""

import itertools

import numpy as np
from checks import cosmo, lik, ref
from checks.c09 import VALS, compare, cvec, ref1
from mc.core import Shard

PROPERTY = "C29"
BOUNDS = dict(
    masses="five pairs of spline numbers x four mass ranges x every pair of coefficient vectors x all pairs of masses and ratios inside, at and outside the ranges",
    spins="identical and independent components x four sets of spline numbers (all different for independent components) x every combination of coefficient vectors",
    redshift="three spline numbers x two overlaps x coefficient vectors x slopes",
    assembly="the product of the four helpers' models over the sampling prior, as a population analysis uses it: every per-event and selection weight and the log-likelihood",
)
ASSUMPTIONS = ["normalisation constants are numerical in the code and compared as in C08-C10"]
DIMS = ("mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "prior")


def U():
    from gwinferno.pipeline import utils

    return utils


def dicts(cols, shape):
    """event (2-D) and injection (1-D, another order) dictionaries from flat columns; anything not given is a decoy"""
    import jax.numpy as jnp

    m = shape[0] * shape[1]
    perm = np.roll(np.arange(m), 7)[::-1]
    full = {k: np.asarray(cols[k], float) if k in cols else np.full(m, 0.31 + 0.01 * i) for i, k in enumerate(DIMS)}
    pe = {k: v.reshape(shape) for k, v in full.items()}
    inj = {k: v[perm] for k, v in full.items()}
    return pe, inj, {k: jnp.asarray(v) for k, v in pe.items()}, {k: jnp.asarray(v) for k, v in inj.items()}


def masses(ctx):
    import jax.numpy as jnp

    m, q = (v.ravel() for v in np.meshgrid(VALS["mass"], VALS["q"], indexing="ij"))
    pe, inj, jpe, jinj = dicts(dict(mass_1=m, mass_ratio=q), (7, 7))
    for (nm, nq), (lo, hi) in itertools.product(((4, 4), (6, 5), (5, 8), (9, 4), (7, 7)), ((3.0, 100.0), (5.0, 80.0), (2.0, 60.0), (8.0, 120.0))):
        mod = U().setup_bspline_mass_models(jpe, jinj, nm, nq, lo, hi)
        ctx.step()
        for i, j in itertools.product(range(5 if ctx.thorough else 3), repeat=2):
            with ctx.at(n=(nm, nq), range=(lo, hi), coef=(i, j)):
                cm, cq = cvec(nm, True, i), cvec(nq, True, j)
                for what, kw, d in (("events", {}, pe), ("injections", dict(pe_samples=False), inj)):
                    y, x = d["mass_1"].ravel(), d["mass_ratio"].ravel()
                    got = np.asarray(mod(jnp.asarray(cm), jnp.asarray(cq), **kw), float)
                    ctx.check(got.shape == d["mass_1"].shape, "shape of the " + what, d["mass_1"].shape, got.shape)
                    compare(ctx, got.ravel(), [ref1("mass", y, cm, nm, xr=(lo, hi)), ref1("q", x, cq, nq, xr=(lo / hi, 1.0))], np.ones(len(y)), "mass density of the " + what)
                    ctx.step()
                    ctx.trace()
                    ctx.front(len(y))


def spins(ctx, iid):
    import jax.numpy as jnp

    a = np.array([-0.1, 0.0, 0.13, 0.42, 0.77, 1.0, 1.2])
    a1, a2 = (v.ravel() for v in np.meshgrid(a, a, indexing="ij"))
    t1, t2 = (v.ravel() for v in np.meshgrid(VALS["tilt"], VALS["tilt"], indexing="xy"))
    pe, inj, jpe, jinj = dicts(dict(a_1=a1, a_2=a2, cos_tilt_1=t1, cos_tilt_2=t2), (7, 7))
    sizes = ((4, 6), (7, 5), (5, 5), (9, 4)) if iid else ((4, 6, 5, 7), (7, 5, 6, 4), (5, 5, 5, 5), (6, 4, 8, 9))
    for s in sizes:
        if iid:
            mag, tilt = U().setup_bspline_spin_models(jpe, jinj, s[0], s[1], IID=True)
            na, nt = (s[0], s[0]), (s[1], s[1])
        else:
            mag, tilt = U().setup_bspline_spin_models(jpe, jinj, s[0], s[1], a2_nsplines=s[2], ct2_nsplines=s[3])
            na, nt = (s[0], s[2]), (s[1], s[3])
        ctx.step()
        for i, j in itertools.product(range(4), repeat=2):
            if iid and i != j:
                continue
            with ctx.at(iid=iid, n=s, coef=(i, j)):
                for kind, mod, (n1, n2), k1, k2 in (("mag", mag, na, "a_1", "a_2"), ("tilt", tilt, nt, "cos_tilt_1", "cos_tilt_2")):
                    c1, c2 = cvec(n1, True, i), cvec(n2, True, j)
                    args = [jnp.asarray(c1)] if iid else [jnp.asarray(c1), jnp.asarray(c2)]
                    for what, kw, d in (("events", {}, pe), ("injections", dict(pe_samples=False), inj)):
                        got = np.asarray(mod(*args, **kw), float)
                        ctx.check(got.shape == d[k1].shape, "shape of the " + what, d[k1].shape, got.shape)
                        compare(ctx, got.ravel(), [ref1(kind, d[k1].ravel(), c1, n1), ref1(kind, d[k2].ravel(), c2, n2)], np.ones(got.size), "%s density of the %s" % (kind, what))
                        for part, c, n, k in ((mod.primary_model, c1, n1, k1), (mod.secondary_model, c2, n2, k2)):
                            g1 = np.asarray(part(jnp.asarray(c), **kw), float)
                            ctx.check(g1.shape == d[k].shape, "shape of one component", d[k].shape, g1.shape)
                            compare(ctx, g1.ravel(), [ref1(kind, d[k].ravel(), c, n)], np.ones(g1.size), "density of %s alone at the %s" % (k, what))
                        ctx.step(3)
                        ctx.trace()
                        ctx.front(got.size)


def zdens(z, c, lam, n, lo, hi):
    knots = ref.default_knots(n, 4, (np.log(lo), np.log(hi)))
    vr = (np.log(lo), np.log(hi))
    f = lambda y: cosmo.dVcdz(y, cosmo.LVK) * (1 + y) ** (lam - 1) * np.exp((np.asarray(c)[None] @ ref.bspline(np.log(y), knots, 4, vr))[0])  # noqa: E731
    Z = ref.integrate(lambda y: f(y)[None], lo, hi, breaks=np.exp(knots[3:-3]), n=20)[0]
    return np.where(z > hi, 0.0, f(np.minimum(z, hi)) / Z), Z


def redshift(ctx):
    import jax.numpy as jnp

    for (a, b), (c, d) in (((0.02, 2.0), (0.03, 1.8)), ((0.1, 1.1), (0.05, 2.2))):
        zp = np.linspace(a, b, 12)
        pe, inj, jpe, jinj = dicts(dict(redshift=zp), (3, 4))
        zi = np.linspace(c, d, 17)
        jinj["redshift"], inj["redshift"] = jnp.asarray(zi), zi
        lo, hi = max(a, c), min(b, d)
        for n in (4, 6, 9):
            mod = U().setup_powerlaw_spline_redshift_model(jpe, jinj, n)
            ctx.step()
            for i, lam in itertools.product(range(4), (-1.0, 0.0, 2.7)):
                with ctx.at(n=n, coef=i, lam=lam, events=(a, b), injections=(c, d)):
                    cs = cvec(n, True, i)
                    for what, z in (("events", pe["redshift"]), ("injections", zi)):
                        got = np.asarray(mod(jnp.asarray(z), lam, jnp.asarray(cs)), float)
                        E, _ = zdens(z.ravel(), cs, lam, n, lo, hi)
                        edge = (np.abs(z.ravel() - hi) < 1e-5) | (np.abs(z.ravel() - lo) < 1e-5)
                        ctx.check(got.shape == z.shape, "shape of the " + what, z.shape, got.shape)
                        ctx.close(got.ravel(), E, "redshift density of the " + what, rtol=5e-3 if ctx.x64 else 2e-2, mask=~edge)
                        ctx.step()
                        ctx.trace()
                        ctx.front(z.size)
                    ctx.outcome((n, i, lam, round(float(E.sum()), 4)))


def assembly(ctx, iid):
    """priors' vectors -> models -> weights -> likelihood, against the same product of reference densities"""
    import jax.numpy as jnp
    import numpyro
    from gwinferno.pipeline.analysis import hierarchical_likelihood

    u = U()
    r = lambda k, lo, hi: lo + (hi - lo) * ((np.arange(60) * k % 61 + 1) / 62.0)  # noqa: E731
    cols = dict(mass_1=r(7, 6, 90), mass_ratio=r(11, 0.2, 1), redshift=r(13, 0.05, 1.5), a_1=r(17, 0, 1), a_2=r(19, 0, 1), cos_tilt_1=r(23, -1, 1), cos_tilt_2=r(29, -1, 1), prior=r(31, 0.5, 4.0))
    pe, inj, jpe, jinj = dicts(cols, (3, 20))
    nm, nq, na, nt, nz = 7, 6, 5, 4, 5
    mass = u.setup_bspline_mass_models(jpe, jinj, nm, nq, 5.0, 100.0)
    mag, tilt = u.setup_bspline_spin_models(jpe, jinj, na, nt, IID=iid, a2_nsplines=na, ct2_nsplines=nt)
    red = u.setup_powerlaw_spline_redshift_model(jpe, jinj, nz)
    lo = max(pe["redshift"].min(), inj["redshift"].min())
    hi = min(pe["redshift"].max(), inj["redshift"].max())
    for i, j, lam in itertools.product(range(3), range(3), (0.0, 2.7)):
        with ctx.at(iid=iid, coef=(i, j), lam=lam):
            cm, cq, ca, ct, cz = cvec(nm, True, i), cvec(nq, True, j), cvec(na, True, j), cvec(nt, True, i), cvec(nz, True, j)
            cb, cd = (ca, ct) if iid else (cvec(na, True, j + 1), cvec(nt, True, i + 2))
            J = [jnp.asarray(v) for v in (cm, cq, ca, ct, cz, cb, cd)]

            def model():
                w = []
                for flag, d in ((True, jpe), (False, jinj)):
                    s = (mag(J[2], pe_samples=flag) * tilt(J[3], pe_samples=flag)) if iid else (mag(J[2], J[5], pe_samples=flag) * tilt(J[3], J[6], pe_samples=flag))
                    w.append(mass(J[0], J[1], pe_samples=flag) * s * red(d["redshift"], lam, J[4]) / d["prior"])
                hierarchical_likelihood(w[0], w[1], total_inj=900, Nobs=3, Tobs=0.5, surveyed_hypervolume=red.normalization(lam, J[4]), min_neff_cut=False)

            tr = numpyro.handlers.trace(numpyro.handlers.seed(model, 0)).get_trace()
            W = []
            for d in (pe, inj):
                f = {k: v.ravel() for k, v in d.items()}
                w = ref1("mass", f["mass_1"], cm, nm, xr=(5.0, 100.0))[0][0] * ref1("q", f["mass_ratio"], cq, nq, xr=(0.05, 1.0))[0][0]
                w = w * ref1("mag", f["a_1"], ca, na)[0][0] * ref1("mag", f["a_2"], cb, na)[0][0] * ref1("tilt", f["cos_tilt_1"], ct, nt)[0][0] * ref1("tilt", f["cos_tilt_2"], cd, nt)[0][0]
                zz, Z = zdens(f["redshift"], cz, lam, nz, lo, hi)
                W.append((w * zz / f["prior"]).reshape(d["mass_1"].shape))
            # the spline factor of the redshift at the two exact ends of its range is not judged (see C10): leave room for those samples
            room = max((W[0][np.abs(pe["redshift"] - e) < 1e-6].sum() / W[0].sum()) for e in (lo, hi)) * 3 + 0.03
            R = lik.reference(W[0], W[1], 900, 3)
            ctx.close(np.asarray(tr["logBFs"]["value"], float), np.log(W[0].mean(1)), "per-event log Bayes factors of the assembled model", rtol=0, atol=room * (1 if ctx.x64 else 2))
            ctx.close(float(tr["log_likelihood"]["fn"].log_factor), float(lik.ref_loglik(R, 3)), "log-likelihood of the assembled model", rtol=0, atol=4 * room * (1 if ctx.x64 else 2))
            ctx.close(float(tr["surveyed_hypervolume"]["value"]), Z / 1e9 * 0.5, "surveyed hypervolume", rtol=2e-2)
            ctx.step(4)
            ctx.trace()
            ctx.front(W[0].size + W[1].size)
            ctx.outcome((iid, i, j, lam, round(float(lik.ref_loglik(R, 3)), 3)))


def shards(tier):
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        if x or tier == "thorough":
            out.append(Shard("masses" + b, masses, x, 8))
            out.append(Shard("redshift" + b, redshift, x, 5))
        for i in (True, False):
            out.append(Shard("spins%s-%d" % (b, i), spins, x, 6, iid=i))
            out.append(Shard("assembly%s-%d" % (b, i), assembly, x, 6, iid=i))
    return out
