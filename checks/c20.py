"""C20: a configuration file builds exactly the hierarchical model it describes."""

import itertools
import os

import numpy as np
from checks import cosmo, lik
from mc.core import Shard, product
from scipy import stats

PROPERTY = "C20"
BOUNDS = dict(
    hyper_parameters="every way of fixing or sampling the hyper-parameters of each model kind (power law, truncated normal, beta, redshift power law, spline with list-valued hyper-parameters, mixtures of 2, 3, 5 and 11 components)",
    sharing="no second spin / own model / shared model / shared mixture (declared on the mixture or its last component), every order of up to 4 configured parameters",
    options="every combination of likelihood options, run label, output folder, data and sampler sections present or absent",
    histories="every sequence of 3 evaluations over two configured models x two hyper-parameter settings",
    command_line="every option of both base parsers alone and in pairs, with values different from its default",
)
ASSUMPTIONS = ["one reader per configuration file", "redshift configurations give a fixed maximum redshift, as the code requires"]
N, ND = "numpyro.distributions.", "gwinferno.numpyro_distributions."


# ---- configurations ----
def prior(kind, **p):
    return dict(prior=N + kind, prior_params=p)


PRIORS = {
    "Normal": lambda v, p: stats.norm.logpdf(v, p["loc"], p["scale"]),
    "Uniform": lambda v, p: stats.uniform.logpdf(v, p["low"], np.asarray(p["high"], float) - np.asarray(p["low"], float)),
    "Gamma": lambda v, p: stats.gamma.logpdf(v, p["concentration"], scale=1 / p["rate"]),
    "Dirichlet": lambda v, p: stats.dirichlet.logpdf(np.asarray(v, float) / np.sum(v), p["concentration"]),
}


def hp(name, how, value, pr):
    """one hyper-parameter: fixed to its value or sampled from its prior (and then set to that value)"""
    return dict(value=value) if how == "fix" else pr


def powerlaw(alpha, lo, hi, how=("s", "s", "s"), w=3.0):
    conf = dict(
        model=ND + "Powerlaw",
        hyper_params=dict(
            alpha=hp("alpha", how[0], alpha, prior("Normal", loc=0.5, scale=w)),
            minimum=hp("minimum", how[1], lo, prior("Uniform", low=0.25 * lo, high=lo * 1.5)),
            maximum=hp("maximum", how[2], hi, prior("Uniform", low=hi * 0.5, high=hi * 2.0)),
        ),
    )
    return conf, dict(alpha=alpha, minimum=lo, maximum=hi)


def truncnorm(loc, scale, lo, hi, how=("s", "s")):
    conf = dict(
        model=N + "TruncatedNormal",
        hyper_params=dict(
            loc=hp("loc", how[0], loc, prior("Normal", loc=loc - 1.0, scale=4.0)),
            scale=hp("scale", how[1], scale, prior("Gamma", concentration=2.0, rate=0.5)),
            low=dict(value=lo),
            high=dict(value=hi),
        ),
    )
    return conf, dict(loc=loc, scale=scale, low=lo, high=hi)


def beta(a, b, how=("s", "s")):
    conf = dict(
        model=N + "Beta",
        hyper_params=dict(
            concentration1=hp("c1", how[0], a, prior("Uniform", low=0.5, high=9.0)),
            concentration0=hp("c0", how[1], b, prior("Uniform", low=0.25, high=10.0)),
        ),
    )
    return conf, dict(concentration1=a, concentration0=b)


def zmodel(lamb, zmax, how="s"):
    conf = dict(model=ND + "PowerlawRedshift", hyper_params=dict(lamb=hp("lamb", how, lamb, prior("Normal", loc=0.0, scale=3.0)), maximum=dict(value=zmax)))
    return conf, dict(lamb=lamb, maximum=zmax)


GRID = np.linspace(0.1, 1.0, 7)
DMAT = np.array([(1 - GRID) ** 2, 2 * GRID * (1 - GRID), GRID**2])


def spline(cs, how="s"):
    conf = dict(
        model=ND + "BSplineDistribution",
        hyper_params=dict(
            minimum=dict(value=0.1),
            maximum=dict(value=1.0),
            cs=hp("cs", how, list(cs), prior("Normal", loc=[0.0, 0.5, 1.0], scale=[1.0, 2.0, 3.0])),
            grid=dict(value=GRID.tolist()),
            grid_dmat=dict(value=DMAT.tolist()),
        ),
    )
    return conf, dict(cs=list(cs))


def mixture(fracs, comps, conc):
    # either name of numpyro's mixture of a list of components
    conf = dict(model=N + ("MixtureGeneral" if fracs[0] >= 0.5 else "Mixture"), mixture_dist=dict(model=N + "Categorical", hyper_params=dict(probs=prior("Dirichlet", concentration=list(conc)))))
    for i, (c, _) in enumerate(comps):
        conf["component_%d" % (i + 1)] = c
    return conf, (list(fracs), [v for _, v in comps])


# ---- reference ----
def logpdf(model, v, x):
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        if model.endswith(".Powerlaw"):
            a, lo, hi = v["alpha"], v["minimum"], v["maximum"]
            Z = np.log(hi / lo) if a == -1 else (hi ** (a + 1) - lo ** (a + 1)) / (a + 1)
            return np.where((x < lo) | (x > hi), -np.inf, a * np.log(x) - np.log(Z))
        if model.endswith("TruncatedNormal"):
            return stats.truncnorm.logpdf(x, (v["low"] - v["loc"]) / v["scale"], (v["high"] - v["loc"]) / v["scale"], v["loc"], v["scale"])
        if model.endswith(".Beta"):
            return stats.beta.logpdf(x, v["concentration1"], v["concentration0"])
        if model.endswith("PowerlawRedshift"):
            return np.where(x > v["maximum"], -np.inf, np.log(cosmo.dVcdz(x, cosmo.LVK)) + (v["lamb"] - 1) * np.log1p(x) - np.log(znorm(v)))
        if model.endswith("BSplineDistribution"):
            lp = np.asarray(v["cs"]) @ DMAT[: len(v["cs"])]
            return np.interp(x, GRID, lp) - np.log(np.trapz(np.exp(lp), GRID))
    raise KeyError(model)


def znorm(v):
    u, w = np.polynomial.legendre.leggauss(60)
    z = 0.5 * v["maximum"] * (u + 1)
    return 0.5 * v["maximum"] * np.sum(w * cosmo.dVcdz(z, cosmo.LVK) * (1 + z) ** (v["lamb"] - 1))


def full(conf, vals, x):
    if "mixture_dist" in conf:
        fr, comps = vals
        lp = [np.log(f) + logpdf(conf["component_%d" % (i + 1)]["model"], c, x) for i, (f, c) in enumerate(zip(fr, comps))]
        return np.logaddexp.reduce(lp, axis=0)
    return logpdf(conf["model"], vals, x)


def sampled(models):
    """the hyper-parameters with a prior: site name -> (value it is set to, prior log density at it)"""
    out = {}

    def add(name, sub, value):
        if "prior" in sub:
            lp = PRIORS[sub["prior"].split(".")[-1]](np.asarray(value, float), sub["prior_params"])
            out[name] = (value, np.sum(lp))

    for k, (conf, vals) in models.items():
        if "mixture_dist" in conf:
            add(k + "_mixture_dist_probs", conf["mixture_dist"]["hyper_params"]["probs"], vals[0])
            for i, v in enumerate(vals[1]):
                for h, sub in conf["component_%d" % (i + 1)]["hyper_params"].items():
                    add("%s_component_%d_%s" % (k, i + 1, h), sub, v.get(h))
        else:
            for h, sub in conf["hyper_params"].items():
                add("%s_%s" % (k, h), sub, vals.get(h))
    return out


NOBS, NS, NF, NINJ, TOBS = 2, 12, 60, 5000, 1.75
RANGE = dict(mass_1=(1.5, 110.0), mass_ratio=(0.05, 1.0), redshift=(0.02, 2.5), a_1=(0.02, 0.98), a_2=(0.03, 0.97), chi=(-0.9, 0.9))


def data():
    pe, inj = {}, {}
    for j, (k, (a, b)) in enumerate(RANGE.items()):
        pe[k] = a + (b - a) * ((np.arange(NOBS * NS) * (5 + 2 * j) + 3 * j) % 24 / 24.0 + 0.01).reshape(NOBS, NS)
        inj[k] = a + (b - a) * ((np.arange(NF) * (7 + 4 * j) + j) % 60 / 60.0 + 0.005)
    pe["prior"] = 0.5 + ((np.arange(NOBS * NS) * 11) % 5).reshape(NOBS, NS) / 2.0
    inj["prior"] = 0.25 + ((np.arange(NF) * 13) % 7) / 3.0
    return pe, inj


# ---- driving the real code ----
def yml(models, shared=(), likelihood=None, **top):
    out = {}
    for k, (conf, _) in models.items():
        out[k] = dict(conf)
    for k, other, where in shared:
        if where == "model":
            out[k]["iid"] = dict(shared_parameter=other)
        else:
            last = "component_%d" % max(int(c.split("_")[1]) for c in out[k] if c.startswith("component_"))
            out[k][last] = dict(out[k][last], iid=dict(shared_parameter=other))
    d = dict(top)
    if likelihood is not None:
        d["likelihood"] = likelihood
    d["models"] = out
    return d


def read(ctx, d, name="config.yml"):
    import yaml
    from gwinferno.pipeline.parser import ConfigReader

    path = os.path.join(ctx.scratch, name)
    with open(path, "w") as f:
        yaml.safe_dump(d, f, sort_keys=False)
    r = ConfigReader()
    r.parse(path)
    ctx.step()
    return r


def construct(r):
    from gwinferno.pipeline.analysis import construct_hierarchical_model

    return construct_hierarchical_model(r.models, r.priors, **r.likelihood_kwargs)


def run(model, values, pe, inj, seed=0):
    import jax
    import jax.numpy as jnp
    from numpyro import handlers

    sub = {k: jnp.asarray(v, float) for k, v in values.items()}
    sub["unscaled_rate"] = jnp.asarray(3.5)
    m = handlers.substitute(handlers.seed(model, jax.random.PRNGKey(seed)), data=sub)
    tr = handlers.trace(m).get_trace({k: jnp.asarray(v) for k, v in pe.items()}, {k: jnp.asarray(v) for k, v in inj.items()}, NINJ, NOBS, TOBS)
    ll, sites, latent = 0.0, {}, {}
    for n, s in tr.items():
        if s["type"] == "sample":
            lp = s["fn"].log_prob(s["value"])
            if s["is_observed"]:
                ll = ll + float(lp.sum())
            else:
                latent[n] = (np.asarray(s["value"], float), float(np.sum(np.asarray(lp, float))))
        elif s["type"] == "deterministic":
            sites[n] = np.asarray(s["value"], float)
    return ll, sites, latent


def expected(models, shared, pe, inj, opts):
    lpe, linj = -np.log(pe["prior"]), -np.log(inj["prior"])
    allp = {k: k for k in models}
    allp.update({o: k for k, o, _ in shared})
    for p, k in allp.items():
        lpe = lpe + full(*models[k], pe[p])
        linj = linj + full(*models[k], inj[p])
    r = lik.reference(lpe, linj, NINJ, NOBS, log=True)
    with np.errstate(all="ignore"):
        ll = float(lik.ref_loglik(r, NOBS, opts.get("marginalize_selection", False)))
    dead = bool(lik.dead(r))
    if opts.get("min_neff_cut", True) and (r["neff_inj"] < 4 * NOBS or r["neffs"].min() <= NOBS):
        dead = True
    a = NOBS**2 * r["inv_neff"] + r["var_bf"].sum()
    b = a - NOBS**2 / NINJ
    amb = False
    if opts.get("max_variance_cut", False):
        dead = dead or (a > 1 and b > 1)
        amb = (a > 1) != (b > 1)
    return dict(r, ll=ll, dead=dead, amb=amb, params=allp, lpe=lpe, linj=linj)


def judge(ctx, models, shared, opts, ll, sites, latent, pe, inj, e=None):
    rt = 1e-6 if ctx.x64 else 2e-3
    zt = max(rt, 5e-5) if "redshift" in models else rt
    want = sampled(models)
    have = set(latent) - {"unscaled_rate"}
    ctx.check(have == set(want), "hyper-parameters that are sampled", sorted(want), sorted(have))
    ctx.check(("unscaled_rate" in latent) == ("redshift" in models), "rate is reconstructed exactly with a redshift model", "redshift" in models, sorted(latent))
    for k in have & set(want):
        ctx.close(latent[k][1], want[k][1], "prior of " + k, rtol=rt, atol=rt)
    e = e or expected(models, shared, pe, inj, opts)
    if not lik.dead(e):
        ctx.close(sites["logBFs"], e["log_bf"], "log Bayes factors of the configured population", rtol=zt, atol=zt)
        ctx.close(np.log(sites["detection_efficiency"]), e["log_mu"], "detection efficiency of the configured population", rtol=zt, atol=zt)
        if "redshift" in models:
            z = models["redshift"][1]
            vt = znorm(z) / 1e9 * TOBS
            ctx.close(sites["surveyed_hypervolume"], vt, "surveyed hypervolume", rtol=max(rt, 1e-4))
            ctx.close(sites["rate"], 3.5 / np.exp(e["log_mu"]) / vt, "rate", rtol=3 * max(zt, 1e-4))
    if e["dead"]:
        ctx.check(ll < -1e30, "likelihood of a rejected point", "-inf", ll)
    elif not e["amb"]:
        ctx.close(ll, e["ll"], "log-likelihood", rtol=zt, atol=5 * zt)
    ppc = opts.get("posterior_predictive_check", True)
    names = {"%s_%s_event_%d" % (p, w, i) for p in e["params"] for w in ("obs", "pred") for i in range(NOBS)}
    got = {s for s in sites if "_event_" in s}
    ctx.check(got == (names if ppc else set()), "predictive draws exactly when requested", sorted(names if ppc else []), sorted(got))
    if ppc and got == names and not lik.dead(e):
        okp = (pe["mass_1"] >= 2) & (pe["mass_1"] <= 100) & (pe["mass_1"] * pe["mass_ratio"] >= 2)
        oki = (inj["mass_1"] >= 2) & (inj["mass_1"] <= 100) & (inj["mass_1"] * inj["mass_ratio"] >= 2)
        for i in range(NOBS):
            mo = okp[i] & np.isfinite(e["lpe"][i])
            mp = oki & np.isfinite(e["linj"])
            if not mo.any() or not mp.any():
                continue
            for p in e["params"]:
                mo = mo & (np.abs(pe[p][i] - sites["%s_obs_event_%d" % (p, i)]) < 1e-5 * (1 + np.abs(pe[p][i])))
                mp = mp & (np.abs(inj[p] - sites["%s_pred_event_%d" % (p, i)]) < 1e-5 * (1 + np.abs(inj[p])))
            ctx.check(mo.any(), "observed draw is one sample of the event with weight", observed=i)
            ctx.check(mp.any(), "predicted draw is one injection with weight", observed=i)
    ctx.step()
    ctx.trace()
    ctx.outcome((sorted(want), round(ll, 3) if abs(ll) < 1e30 else "rejected"))


def one(ctx, models, shared=(), opts=None, **choice):
    pe, inj = data()
    o = opts or {}
    with ctx.at(models={k: c["model"].split(".")[-1] for k, (c, _) in models.items()}, shared=shared, opts=o, **choice):
        r = read(ctx, yml(models, shared, likelihood=opts))
        ctx.check(sorted(r.sampling_params) == sorted(sampled(models)), "listed sampled hyper-parameters", sorted(sampled(models)), sorted(r.sampling_params))
        ctx.check(sorted(r.models) == sorted(list(models) + [s for _, s, _ in shared]), "configured parameters", sorted(models), sorted(r.models))
        m = construct(r)
        res = run(m, {k: v for k, (v, _) in sampled(models).items()}, pe, inj)
        judge(ctx, models, shared, o, *res, pe, inj)
        if ctx.samples == []:
            ctx.sample(config=yml(models, shared, opts), log_likelihood=res[0])


NOPPC = dict(posterior_predictive_check=False, min_neff_cut=False)


def hypers(ctx, kind):
    """every way of fixing or sampling every hyper-parameter"""
    F = ("fix", "s")
    if kind == "mass":
        for a in (-2.35, -1.0, 1.5):
            for how in itertools.product(F, repeat=3):
                one(ctx, dict(mass_1=powerlaw(a, 5.0, 80.0, how)), opts=NOPPC, alpha=a, how=how)
        for lo, hi in ((2.0, 100.0), (10.0, 60.0)):
            for how in (("s", "fix", "s"), ("fix", "fix", "fix")):
                one(ctx, dict(mass_1=powerlaw(0.5, lo, hi, how)), opts=NOPPC, lo=lo, hi=hi, how=how)
    if kind == "spin":
        for a, b in ((1.0, 1.0), (2.0, 5.0), (6.0, 1.5)):
            for how in itertools.product(F, repeat=2):
                one(ctx, dict(a_1=beta(a, b, how)), opts=NOPPC, a=a, b=b, how=how)
        for mu, s in ((0.2, 0.3), (-0.5, 1.0)):
            for how in itertools.product(F, repeat=2):
                one(ctx, dict(chi=truncnorm(mu, s, -1.0, 1.0, how)), opts=NOPPC, mu=mu, s=s, how=how)
    if kind == "redshift":
        for l, zm, how in itertools.product((-2.0, 0.0, 1.0, 3.0), (0.4, 0.75, 1.0, 2.3, 3.0), F):
            one(ctx, dict(redshift=zmodel(l, zm, how)), opts=NOPPC, lamb=l, zmax=zm, how=how)
    if kind == "spline":
        for cs in itertools.product((-1.0, 0.0, 2.0), repeat=3):
            for how in F:
                one(ctx, dict(mass_ratio=spline(cs, how)), opts=NOPPC, cs=cs, how=how)
        flat = dict(model=ND + "BSplineDistribution", hyper_params=dict(minimum=dict(value=0.1), maximum=dict(value=1.0), cs=prior("Normal", loc=[0.5], scale=[2.0]), grid=dict(value=GRID.tolist()), grid_dmat=dict(value=DMAT[:1].tolist())))
        for c in (-1.0, 0.0, 2.0):
            one(ctx, dict(mass_ratio=(flat, dict(cs=[c]))), opts=NOPPC, one_spline=c)
            fixed = dict(flat, hyper_params=dict(flat["hyper_params"], cs=dict(value=[c])))
            one(ctx, dict(mass_ratio=(fixed, dict(cs=[c]))), opts=NOPPC, one_fixed_spline=c)
    if kind == "mixture":
        C = [powerlaw(-2.0, 5.0, 80.0, ("s", "fix", "fix")), truncnorm(35.0, 5.0, 2.0, 100.0, ("fix", "s")), truncnorm(60.0, 8.0, 2.0, 100.0), powerlaw(0.5, 2.0, 110.0, ("s", "s", "s"))]
        for n, fr in ((2, (0.3, 0.7)), (2, (0.9, 0.1)), (3, (0.2, 0.5, 0.3)), (3, (0.6, 0.1, 0.3))):
            for comps in itertools.permutations(C, n):
                one(ctx, dict(mass_1=mixture(fr, comps, (1.0, 2.0, 3.0)[:n])), opts=NOPPC, n=n, fracs=fr, comps=[c["model"] for c, _ in comps])
        for n in (5, 11):  # many components, as many numbers as digits
            comps = [truncnorm(8.0 + 4.0 * i, 2.0 + 0.25 * i, 2.0, 100.0, ("fix", "s") if i % 2 else ("s", "fix")) for i in range(n)]
            fr = np.arange(1.0, n + 1) / (n * (n + 1) / 2)
            one(ctx, dict(mass_1=mixture(tuple(fr.tolist()), comps, tuple(1.0 + 0.25 * i for i in range(n)))), opts=NOPPC, n=n)


def sharing(ctx, spin):
    """every order of the configured parameters, with and without shared parameters"""
    M = dict(mass_1=powerlaw(-1.5, 3.0, 100.0, ("s", "s", "fix")), mass_ratio=powerlaw(1.25, 0.06, 1.0, ("s", "fix", "fix"), 2.0), redshift=zmodel(1.5, 2.3))
    mix = mixture((0.35, 0.65), [beta(2.0, 5.0, ("s", "fix")), beta(5.0, 1.5, ("fix", "s"))], (1.5, 2.5))
    S = {
        "none": ({}, ()),
        "one": (dict(a_1=beta(2.0, 4.0)), ()),
        "own": (dict(a_1=beta(2.0, 4.0), a_2=beta(3.0, 1.5, ("s", "fix"))), ()),
        "shared": (dict(a_1=beta(2.0, 4.0)), (("a_1", "a_2", "model"),)),
        "reverse": (dict(a_2=beta(2.0, 4.0, ("s", "fix"))), (("a_2", "a_1", "model"),)),
        "mixture": (dict(a_1=mix), ()),
        "mixture-shared": (dict(a_1=mix), (("a_1", "a_2", "model"),)),
        "mixture-shared-component": (dict(a_1=mix), (("a_1", "a_2", "component"),)),
        "mass-shared": (dict(chi=truncnorm(0.1, 0.4, -1.0, 1.0, ("s", "fix"))), (("chi", "a_1", "model"), ("mass_ratio", "a_2", "model"))),
    }
    extra, sh = S[spin]
    for r in range(0, 4):
        for base in itertools.combinations(M, r):
            models = dict({k: M[k] for k in base}, **extra)
            if not models or any(k not in models for k, _, _ in sh):
                continue
            orders = list(itertools.permutations(models))
            if len(orders) > 6 and not ctx.thorough:
                orders = [o for i, o in enumerate(orders) if i % (len(orders) // 6) == 0]
            for order in orders:
                one(ctx, {k: models[k] for k in order}, sh, NOPPC, order=order)


def options(ctx):
    models = dict(mass_1=powerlaw(-1.5, 3.0, 100.0), mass_ratio=powerlaw(1.25, 0.06, 1.0, ("s", "fix", "fix")))
    rich = dict(models, redshift=zmodel(1.0, 2.3, "fix"), a_1=beta(1.5, 2.0))
    narrow = dict(mass_1=powerlaw(-4.0, 18.0, 22.0))
    for c in product(marginalize_selection=(False, True), min_neff_cut=(False, True), max_variance_cut=(False, True), posterior_predictive_check=(False, True)):
        for name, m, sh in (("flat", models, ()), ("rich", rich, (("a_1", "a_2", "model"),)), ("narrow", narrow, ())):
            if c["max_variance_cut"] and (c["min_neff_cut"] or c["marginalize_selection"]):
                with ctx.at(opts=c, conflict=True):
                    pe, inj = data()
                    mm = construct(read(ctx, yml(m, sh, c)))
                    try:
                        run(mm, {k: v for k, (v, _) in sampled(m).items()}, pe, inj)
                        ctx.fail("conflicting cuts are refused", "ValueError", "accepted")
                    except ValueError:
                        ctx.comparisons += 1
                    ctx.trace()
                continue
            one(ctx, m, sh, c, name=name)
    for given in itertools.chain.from_iterable(itertools.combinations(("marginalize_selection", "min_neff_cut", "max_variance_cut"), r) for r in range(3)):
        o = {g: {"marginalize_selection": True, "min_neff_cut": False, "max_variance_cut": False}[g] for g in given}
        one(ctx, models, (), o or None, given=given)


def sections(ctx):
    """run sections are optional and arrive unchanged"""
    models = dict(mass_1=powerlaw(-1.5, 3.0, 100.0))
    top = dict(
        label="run_7",
        outdir="/some/where",
        data=dict(catalog_summary_json="cat.json", seminanalytic_injs=True),
        sampler=dict(kernel="NUTS", kernel_kwargs=dict(dense_mass=True, max_tree_depth=5), mcmc_kwargs=dict(num_warmup=5, num_samples=7, num_chains=1)),
        likelihood=dict(marginalize_selection=True),
    )
    default = dict(label="label", outdir="./", data={}, sampler={}, likelihood={})
    attr = dict(label="label", outdir="outdir", data="data_conf", sampler="sampler_conf", likelihood="likelihood_kwargs")
    for r in range(len(top) + 1):
        for given in itertools.combinations(top, r):
            with ctx.at(given=given):
                d = yml(models)
                d.update({g: top[g] for g in given})
                rd = read(ctx, d)
                for k in top:
                    ctx.check(getattr(rd, attr[k]) == (top[k] if k in given else default[k]), "section " + k, top[k] if k in given else default[k], getattr(rd, attr[k]))
                for path in ("dir/some_model.py", "/abs/dir/model.py", "../up/model.py", "./here.py", "model.py", "~/a b/mo.del.v2.py"):
                    rf = read(ctx, dict(d, models=dict(python_file=path)))
                    ctx.check(rf.models == dict(file_path=path) and not rf.sampling_params, "model file", path, rf.models)
                ctx.trace(7)
    vals = ("a b", "./", "../x/", "/abs/", "0", "null", "", "v1.2", 3, 0, 0.5, True, False, [1, 2], ["x"], dict(a=dict(b=0)), {})
    for k, v in itertools.product(top, vals):
        if (k in ("label", "outdir")) != isinstance(v, str):
            continue
        for w in [v] if isinstance(v, str) else [dict(option=v), dict(option=v, other=dict(option=v))]:
            with ctx.at(section=k, value=w):
                d = yml(models)
                d[k] = w
                rd = read(ctx, d)
                for j in top:
                    want = w if j == k else default[j]
                    ctx.check(getattr(rd, attr[j]) == want and type(getattr(rd, attr[j])) is type(want), "section " + j, want, getattr(rd, attr[j]))
                ctx.trace()


def histories(ctx):
    """evaluations of several configured models do not affect each other"""
    pe, inj = data()
    A = dict(mass_1=powerlaw(-1.5, 3.0, 100.0), a_1=beta(2.0, 4.0))
    B = dict(a_1=mixture((0.35, 0.65), [beta(2.0, 5.0, ("s", "fix")), beta(5.0, 1.5, ("fix", "s"))], (1.5, 2.5)), redshift=zmodel(2.0, 2.3))
    A2 = dict(mass_1=powerlaw(0.75, 4.0, 90.0), a_1=beta(1.25, 6.0))
    A2["mass_1"] = (A["mass_1"][0], A2["mass_1"][1])
    B2 = dict(a_1=mixture((0.8, 0.2), [beta(7.0, 5.0, ("s", "fix")), beta(5.0, 3.5, ("fix", "s"))], (1.5, 2.5)), redshift=zmodel(-1.0, 2.3))
    sh = (("a_1", "a_2", "model"),)
    ops = {("A", 0): (A, A), ("A", 1): (A, A2), ("B", 0): (B, B), ("B", 1): (B, B2)}
    ex = {k: expected(v[1], sh, pe, inj, NOPPC) for k, v in ops.items()}
    for h in itertools.product(ops, repeat=3):
        with ctx.at(history=h):
            ms = {"A": construct(read(ctx, yml(A, sh, NOPPC), "a.yml")), "B": construct(read(ctx, yml(B, sh, NOPPC), "b.yml"))}
            for op in h:
                vals = ops[op][1]
                res = run(ms[op[0]], {k: v for k, (v, _) in sampled(dict(vals)).items()}, pe, inj)
                judge(ctx, vals, sh, NOPPC, *res, pe, inj, ex[op])


CLI = {
    "parser": {
        "data-dir": ("/data/x", str), "inj-file": ("inj.h5", str), "outdir": ("out2", str), "mmin": ("4.5", float), "mmax": ("88.25", float),
        "chains": ("3", int), "samples": ("17", int), "thinning": ("2", int), "warmup": ("9", int), "skip-inference": (None, bool),
    },
    "utils": {
        "pe-inj-file": ("pe.h5", str), "run-label": ("lab", str), "result-dir": ("res", str), "m-nsplines": ("41", int), "q-nsplines": ("21", int),
        "a-nsplines": ("11", int), "tilt-nsplines": ("12", int), "z-nsplines": ("13", int), "mmin": ("4.5", float), "mmax": ("88.25", float), "chains": ("3", int),
        "samples": ("17", int), "thinning": ("2", int), "warmup": ("9", int), "skip-inference": (None, bool), "rngkey": ("77", int), "save-plots": ("False", bool),
    },
}  # fmt: skip


def command_line(ctx, which):
    import importlib

    mod = importlib.import_module("gwinferno.pipeline." + which)
    table = CLI[which]
    base = vars(mod.load_base_parser().parse_args([]))
    for n, (_, ty) in table.items():
        with ctx.at(omitted=n):
            v = base[n.replace("-", "_")]
            ctx.check(type(v) is ty or n in ("pe-inj-file", "run-label", "result-dir"), "an omitted option has a value of its type", ty.__name__, repr(v))
    for form, n, text in itertools.product(("=", " "), table, ("0", "7", "1e2", "-3", "0.25", "a=b", "/x y/z.h5", "True", "False", "true", "false", "1")):
        ty = table[n][1]
        try:
            want = {"True": True, "False": False, "true": True, "false": False, "0": False, "1": True}[text] if ty is bool else ty(text)
        except (ValueError, KeyError):
            continue
        if table[n][0] is None or (form == " " and text.startswith("-")):
            continue
        with ctx.at(option=n, text=text, form=form):
            got = vars(mod.load_base_parser().parse_args(["--%s=%s" % (n, text)] if form == "=" else ["--" + n, text]))
            ctx.step()
            ctx.trace()
            for k, b in dict(base, **{n.replace("-", "_"): want}).items():
                ctx.check(got.get(k) == b and type(got.get(k)) is type(b), "option " + k, repr(b), repr(got.get(k)))
    for r in (1, 2, 3):
        for names in itertools.permutations(table, r) if r < 3 else [tuple(table)]:
            with ctx.at(options=names):
                argv, want = [], dict(base)
                for n in names:
                    v, ty = table[n]
                    argv += ["--" + n] + ([] if v is None else [v])
                    want[n.replace("-", "_")] = (True if v is None else False) if ty is bool else ty(v)
                got = vars(mod.load_base_parser().parse_args(argv))
                ctx.step()
                for k, w in want.items():
                    if w is not None:
                        ctx.check(got.get(k) == w and type(got.get(k)) is type(w), "option " + k, repr(w), repr(got.get(k)))
                ctx.trace()


def shards(tier):
    out = [Shard("hyper-%s-%d" % (k, x), hypers, bool(x), 3, kind=k) for k in ("mass", "spin", "redshift", "spline", "mixture") for x in ((1, 0) if tier == "thorough" else (1,))]
    kinds = ("none", "one", "own", "shared", "reverse", "mixture", "mixture-shared", "mixture-shared-component", "mass-shared")
    out += [Shard("sharing-" + k, sharing, True, 4, spin=k) for k in kinds]
    if tier == "thorough":
        out += [Shard("sharing32-" + k, sharing, False, 4, spin=k) for k in kinds]
        out += [Shard("options32", options, False, 6)]
    out += [Shard("options", options, True, 6), Shard("sections", sections, True, 1), Shard("histories", histories, True, 5), Shard("histories32", histories, False, 5)]
    out += [Shard("cli-" + w, command_line, True, 1, which=w) for w in CLI]
    return out
