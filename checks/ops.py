"""Registry of public numerical operations, shared by the purity (C24) and transformation (C26) checks.

An operation is built once per process: ``f(h, d)`` with hyper-parameters ``h`` (dict of arrays) and data ``d`` (dict of
arrays); ``lattice`` lists hyper-parameter settings, ``grads`` the continuous ones, ``edges`` hyper-parameters that move
the sharp edge of a support (their derivative is judged away from the edge only)."""

import itertools

import numpy as np

SH = (3, 4)
TILE = 1  # repetitions of the data along the sample axis


def spread(lo, hi, k, n=12):
    return lo + (hi - lo) * (((np.arange(n) * k + 3) % n) + 0.31) / n


def pe(lo, hi, k=5):
    return tile(spread(lo, hi, k).reshape(SH))


def tile(x):
    return np.tile(x, (1, TILE))


def grid(**axes):
    names = list(axes)
    return [dict(zip(names, c)) for c in itertools.product(*axes.values())]


def cvec(n, i, s=1.0):
    return s * np.round(np.sin(1.0 + 1.7 * i + np.arange(n) * (0.9 + 0.3 * i)), 3)


def parametric():
    from gwinferno import distributions as D
    from gwinferno.models.parametric import parametric as P

    m1, q, a, b, ct, cu, z = pe(2.1, 105.0), pe(0.07, 1.0, 7), pe(0.02, 0.97), pe(0.05, 0.99, 7), pe(-0.99, 0.97), pe(-0.9, 0.99, 7), pe(0.02, 1.2)
    d = dict(m1=m1, q=q)
    yield "powerlaw_pdf", lambda h, d: D.powerlaw_pdf(d["m1"], h["a"], h["lo"], h["hi"]), dict(m1=m1), grid(a=(-2.35, -0.5, 1.5), lo=(3.0, 6.0), hi=(60.0, 99.0)), {}
    yield "powerlaw_logit_pdf", lambda h, d: D.powerlaw_logit_pdf(d["m1"], h["a"], h["lo"], h["hi"], h["f"], h["g"]), dict(m1=m1), grid(a=(-2.0, 0.5), lo=(4.0,), hi=(80.0,), f=(0.5, 4.0), g=(0.25, 2.0)), {}
    yield "truncnorm_pdf", lambda h, d: D.truncnorm_pdf(d["m1"], h["mu"], h["s"], h["lo"], h["hi"]), dict(m1=m1), grid(mu=(20.0, 50.0), s=(5.0, 30.0), lo=(3.0,), hi=(90.0,)), {}
    yield "truncnorm_pdf_log", lambda h, d: D.truncnorm_pdf(d["m1"], h["mu"], h["s"], h["lo"], h["hi"], log=True), dict(m1=m1), grid(mu=(2.0, 3.5), s=(0.4, 1.5), lo=(3.0,), hi=(90.0,)), {}
    yield "betadist", lambda h, d: D.betadist(d["a"], h["a"], h["b"], h["s"]), dict(a=a), grid(a=(1.0, 2.5, 6.0), b=(1.5, 4.0), s=(1.0, 1.5)), {}
    yield "logistic_unit", lambda h, d: D.logistic_unit(d["m1"], h["x0"], -1, h["s"]), dict(m1=m1), grid(x0=(10.0, 40.0), s=(0.1, 1.0, 4.0)), {}
    yield "log_logistic_unit", lambda h, d: D.log_logistic_unit(d["m1"], h["x0"], 1, h["s"]), dict(m1=m1), grid(x0=(10.0, 40.0), s=(0.1, 1.0, 4.0, 20.0)), {}
    sm = np.array([2.0, 4.9, 5.0005, 5.01, 5.3, 6.0, 7.9, 8.0, 8.001, 8.02, 8.3, 60.0]).reshape(SH)
    sm = tile(sm)
    yield "smooth", lambda h, d: D.smooth(h["dx"], d["m"], h["lo"]), dict(m=sm), grid(dx=(3.0, 0.5, 10.0), lo=(5.0, 4.1)), dict(edge=("lo", "dx"))
    yield "powerlaw_primary_ratio", lambda h, d: P.powerlaw_primary_ratio_pdf(d["m1"], d["q"], h["a"], h["b"], h["lo"], h["hi"]), d, grid(a=(-2.35, 1.5), b=(-0.5, 2.0), lo=(3.0, 6.0), hi=(99.0,)), {}
    yield "falloff", lambda h, d: P.powerlaw_primary_ratio_falloff_pdf(d["m1"], d["q"], h["a"], h["b"], h["lo"], h["hi"], h["f"]), d, grid(a=(-2.35, 1.5), b=(-0.5, 2.0), lo=(3.0,), hi=(99.0,), f=(0.5, 3.0)), {}
    yield "plpeak", lambda h, d: P.plpeak_primary_ratio_pdf(d["m1"], d["q"], h["a"], h["b"], h["lo"], h["hi"], h["mu"], h["s"], h["lam"]), d, grid(a=(-3.0, 1.5), b=(-0.5, 2.0), lo=(3.0,), hi=(99.0,), mu=(35.0,), s=(4.0, 9.0), lam=(0.1, 0.9)), {}
    dm = dict(m1=sm, q=pe(0.6, 1.0, 7))
    yield "plpeak_smoothed", lambda h, d: P.plpeak_primary_ratio_pdf(d["m1"], d["q"], h["a"], h["b"], h["lo"], h["hi"], h["mu"], h["s"], h["lam"], h["dx"]), dm, grid(a=(-3.0,), b=(2.0,), lo=(5.0, 4.0), hi=(99.0,), mu=(35.0,), s=(9.0,), lam=(0.1, 0.9), dx=(3.0, 1.0)), dict(edge=("lo", "dx"))
    yield "iid_spin", lambda h, d: P.iid_spin_magnitude(d["a"], d["b"], h["a"], h["b"]), dict(a=a, b=b), grid(a=(1.5, 4.0), b=(2.0, 5.0)), {}
    yield "independent_spin", lambda h, d: P.independent_spin_magnitude_beta_dist(d["a"], d["b"], h["a"], h["b"], h["c"], h["e"]), dict(a=a, b=b), grid(a=(1.5, 4.0), b=(2.0,), c=(1.2, 3.0), e=(5.0,)), {}
    dt = dict(c=ct, u=cu)
    yield "tilt_mixture", lambda h, d: P.mixture_isoalign_spin_tilt(d["c"], h["x"], h["s"]), dt, grid(x=(0.1, 0.9), s=(0.3, 2.0)), {}
    yield "iid_tilt", lambda h, d: P.iid_spin_tilt(d["c"], d["u"], h["x"], h["s"]), dt, grid(x=(0.1, 0.9), s=(0.3, 2.0)), {}
    yield "independent_tilt", lambda h, d: P.independent_spin_tilt(d["c"], d["u"], h["x"], h["y"], h["s"], h["t"]), dt, grid(x=(0.1, 0.9), y=(0.4,), s=(0.3, 2.0), t=(0.7,)), {}
    yield "default_tilt", lambda h, d: P.default_spin_tilt(d["c"], d["u"], h["x"], h["s"]), dt, grid(x=(0.1, 0.9), s=(0.3, 2.0)), {}
    import jax.numpy as jnp

    zm = P.PowerlawRedshiftModel(jnp.asarray(z), jnp.asarray(spread(0.01, 1.5, 5)))
    yield "redshift", lambda h, d: zm(d["z"], h["l"]), dict(z=z), grid(l=(-2.0, 0.0, 3.0)), dict(cosmo=True)
    yield "redshift_log_prob", lambda h, d: zm.log_prob(d["z"], h["l"]), dict(z=z), grid(l=(-2.0, 0.0, 3.0)), dict(cosmo=True)


def splines():
    import jax.numpy as jnp
    from gwinferno import interpolation as I
    from gwinferno.models.bsplines import separable as S
    from gwinferno.models.bsplines import single as B
    from gwinferno.models.bsplines.smoothing import apply_difference_prior

    x = pe(0.05, 0.98)
    n = 6
    for cls in ("BSpline", "LogYBSpline", "LogXBSpline", "LogXLogYBSpline"):
        sp = getattr(I, cls)(n, xrange=(0.02, 1.0))
        off = 0.0 if "LogY" in cls else 1.3
        yield cls, lambda h, d, sp=sp: sp(d["x"], h["c"]), dict(x=x), [dict(c=cvec(n, i) + off) for i in range(3)], dict(nojit=True)
        dm = sp.bases(x)
        yield cls + ".project", lambda h, d, sp=sp: sp.project(d["dm"], h["c"]), dict(dm=np.asarray(dm)), [dict(c=cvec(n, i) + off) for i in range(3)], {}
    xk = np.array([0.0, 0.3, 0.5, 0.9, 1.4])
    yield "NaturalCubic", lambda h, d: I.NaturalCubicUnivariateSpline(d["k"], h["y"])(d["x"]), dict(x=x, k=xk), [dict(y=cvec(5, i)) for i in range(3)], {}
    r2 = I.RectBivariateBasisSpline(4, 5, xrange=(0.0, 1.0), yrange=(0.0, 1.0), normalize=True)
    bb = np.asarray(r2.bases(x.ravel(), x.ravel()[::-1].copy()))
    yield "RectBivariate", lambda h, d: r2.project(d["b"], h["c"]), dict(b=bb), [dict(c=np.abs(cvec(20, i)).reshape(4, 5) + 0.1) for i in range(2)], {}
    one = dict(
        BSplineSpinMagnitude=(pe(0.02, 0.98), {}), BSplineSpinTilt=(pe(-0.98, 0.97), {}), BSplineChiEffective=(pe(-0.9, 0.9), {}), BSplineSymmetricChiEffective=(pe(-0.9, 0.9), {}),
        BSplineChiPrecess=(pe(0.02, 0.9), {}), BSplineRatio=(pe(0.06, 0.99), {}), BSplineMass=(pe(3.0, 98.0), {}),
    )  # fmt: skip
    pos = {"BSplineChiEffective", "BSplineSymmetricChiEffective", "BSplineChiPrecess"}
    for k, (v, kw) in one.items():
        mod = getattr(B, k)(n, jnp.asarray(v), jnp.asarray(v.ravel()[::-1].copy()), **kw)
        off = 1.3 if k in pos else 0.0
        yield k, lambda h, d, mod=mod: mod(h["c"], pe_samples=True), {}, [dict(c=cvec(n, i) + off) for i in range(3)], {}
        yield k + ".inj", lambda h, d, mod=mod: mod(h["c"], pe_samples=False), {}, [dict(c=cvec(n, i) + off) for i in range(2)], {}
    z = pe(0.02, 1.2)
    zi = z.ravel()[::-1].copy()
    zb = B.BSplineRedshift(n, jnp.asarray(z), jnp.asarray(zi), jnp.asarray(1.0 + z**2), jnp.asarray(1.0 + zi**2))
    yield "BSplineRedshift.inj", lambda h, d: zb(h["c"], pe_samples=False), {}, [dict(c=cvec(n, i) + 1.3) for i in range(2)], dict(cosmo=True)
    yield "BSplineRedshift", lambda h, d: zb(h["c"], pe_samples=True), {}, [dict(c=cvec(n, i) + 1.3) for i in range(3)], dict(cosmo=True)
    a, b, c, u = (jnp.asarray(v) for v in (pe(0.02, 0.97), pe(0.05, 0.99, 7), pe(-0.99, 0.97), pe(-0.9, 0.99, 7)))
    m, q = jnp.asarray(pe(3.0, 98.0)), jnp.asarray(pe(0.06, 0.99, 7))
    F = lambda t: t.ravel()  # noqa: E731
    pair = [dict(c=cvec(n, i), e=cvec(5, i + 1)) for i in range(3)]
    iid = S.BSplineIIDSpinMagnitudes(n, a, b, F(a), F(b))
    yield "IIDSpinMagnitudes", lambda h, d: iid(h["c"]), {}, [dict(c=p["c"]) for p in pair], {}
    ind = S.BSplineIndependentSpinMagnitudes(n, 5, a, b, F(a), F(b))
    yield "IndependentSpinMagnitudes", lambda h, d: ind(h["c"], h["e"]), {}, pair, {}
    til = S.BSplineIIDSpinTilts(n, c, u, F(c), F(u))
    yield "IIDSpinTilts", lambda h, d: til(h["c"]), {}, [dict(c=p["c"]) for p in pair], {}
    itl = S.BSplineIndependentSpinTilts(n, 5, c, u, F(c), F(u))
    yield "IndependentSpinTilts", lambda h, d: itl(h["c"], h["e"], pe_samples=False), {}, pair, {}
    ppr = S.BSplinePrimaryPowerlawRatio(n, m, F(m), mmin=2.0, mmax=100.0)
    yield "PrimaryPowerlawRatio", lambda h, d: ppr(d["m"], d["q"], h["b"], h["lo"], h["c"]), dict(m=np.asarray(m), q=np.asarray(q)), [dict(p, b=bb_, lo=lo) for p in [dict(c=cvec(n, 0)), dict(c=cvec(n, 1))] for bb_ in (-0.5, 2.0) for lo in (2.5,)], {}
    plr = S.PLPeakPrimaryBSplineRatio(n, q, F(q))
    yield "PLPeakBSplineRatio", lambda h, d: plr(d["m"], h["a"], h["lo"], h["hi"], h["mu"], h["s"], h["f"], h["c"]), dict(m=np.asarray(m)), [dict(c=cvec(n, i), a=a, lo=2.5, hi=99.0, mu=35.0, s=5.0, f=f) for i in (0, 1) for a in (-2.5, 1.5) for f in (0.1, 0.8)], {}
    m2 = m * q
    icm = S.BSplineIIDComponentMasses(n, m, m2, F(m), F(m2), mmin=0.5)
    yield "IIDComponentMasses", lambda h, d: icm(h["c"], h["b"]), {}, [dict(c=cvec(n, i), b=b) for i in (0, 1) for b in (-0.5, 0.0, 2.0)], {}
    ncm = S.BSplineIndependentComponentMasses(n, 5, m, m2, F(m), F(m2), mmin2=0.5)
    yield "IndependentComponentMasses", lambda h, d: ncm(h["c"], h["e"], h["b"], pe_samples=False), {}, [dict(p, b=b) for p in pair for b in (-0.5, 2.0)], {}
    efd = S.BSplineEffectiveSpinDims(n, 5, c * 0.9, a, F(c), F(a))
    yield "EffectiveSpinDims", lambda h, d: efd(h["c"], h["e"]), {}, [dict(c=p["c"] + 1.3, e=p["e"] + 1.3) for p in pair], {}
    pbr = S.BSplinePrimaryBSplineRatio(n, 5, m, F(m), q, F(q), m1min=2.0, m2min=2.0, mmax=100.0)
    yield "PrimaryBSplineRatio", lambda h, d: pbr(h["c"], h["e"]), {}, pair, {}
    yield "PrimaryBSplineRatio.inj", lambda h, d: pbr(h["c"], h["e"], pe_samples=False), {}, pair, {}
    yield "difference_prior", lambda h, d: apply_difference_prior(h["c"], h["t"], 2), {}, [dict(c=cvec(n, i), t=t) for i in range(2) for t in (0.5, 25.0)], {}


def perturbed():
    import jax.numpy as jnp
    from gwinferno.models import spline_perturbation as SP

    m, q, z = pe(3.2, 97.0), pe(0.1, 0.99, 7), pe(0.02, 1.2)
    J = jnp.asarray
    d = dict(m=m, q=q)
    pm = SP.PowerlawBasisSplinePrimaryPowerlawRatio(6, J(m), J(m.ravel()))
    yield "PerturbedPrimary", lambda h, d: pm(d["m"], d["q"], alpha=h["a"], mmin=3.0, mmax=100.0, cs=h["c"], beta=h["b"]), d, [dict(a=a, c=cvec(6, i), b=b) for i in (0, 1) for a in (1.5, 3.0) for b in (-0.5, 2.0)], {}
    pq = SP.PowerlawBasisSplinePrimaryRatio(6, 5, J(m), J(q), J(m.ravel()), J(q.ravel()), mmin=3.0)
    yield "PerturbedPrimaryRatio", lambda h, d: pq(d["m"], d["q"], alpha=h["a"], mmin=3.0, mmax=100.0, cs=h["c"], beta=h["b"], vs=h["v"]), d, [dict(a=a, c=cvec(6, i), v=cvec(5, i + 1), b=b) for i in (0, 1) for a in (1.5, 3.0) for b in (-0.5,)], {}
    pz = SP.PowerlawSplineRedshiftModel(6, J(z), J(z.ravel()))
    yield "PerturbedRedshift", lambda h, d: pz(d["z"], h["l"], h["c"]), dict(z=z), [dict(l=l, c=cvec(6, i)) for i in (0, 1) for l in (-1.0, 2.5)], dict(cosmo=True)
    yield "PerturbedRedshift.normalization", lambda h, d: pz.normalization(h["l"], h["c"]), {}, [dict(l=l, c=cvec(6, i)) for i in (0, 1) for l in (-1.0, 2.5)], dict(cosmo=True)


def samplers():
    import jax.numpy as jnp
    from gwinferno import numpyro_distributions as N

    m, th = pe(6.1, 58.0), pe(0.2, 2.9)
    yield "Powerlaw.log_prob", lambda h, d: N.Powerlaw(h["a"], h["lo"], h["hi"]).log_prob(d["m"]), dict(m=m), grid(a=(-2.35, 0.5), lo=(5.0,), hi=(60.0, 90.0)), {}
    yield "Powerlaw.icdf", lambda h, d: N.Powerlaw(h["a"], h["lo"], h["hi"]).icdf(d["u"]), dict(u=pe(0.0, 1.0)), grid(a=(-2.35, 0.5), lo=(5.0,), hi=(60.0, 90.0)), {}
    yield "Sine.log_prob", lambda h, d: N.Sine(h["lo"], h["hi"]).log_prob(d["t"]), dict(t=th), grid(lo=(0.0, 0.1), hi=(3.0, np.pi)), {}
    yield "Cosine.log_prob", lambda h, d: N.Cosine(h["lo"], h["hi"]).log_prob(d["t"] - 1.5), dict(t=th), grid(lo=(-1.5, -1.4), hi=(1.5,)), {}
    g = jnp.linspace(0.001, 2.3, 200)
    from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as C

    dv = jnp.asarray(C.dVcdz(g))
    yield "PowerlawRedshift.log_prob", lambda h, d: N.PowerlawRedshift(h["l"], 2.3, g, dv).log_prob(d["z"]), dict(z=pe(0.02, 2.2)), grid(l=(-2.0, 0.0, 3.0)), dict(cosmo=True)


def likelihood():
    import jax.numpy as jnp
    from checks import lik

    base = np.log(0.5 + ((np.arange(24) * 7) % 5)).reshape(2, 12)
    inj = np.log(0.25 + ((np.arange(60) * 11) % 7))
    s, t = spread(-1.0, 1.0, 5, 24).reshape(2, 12), spread(-1.0, 1.0, 7, 60)

    def make(log, opts):
        def f(h, d):
            lp, li = d["pe"] + h["a"] * d["s"] - 0.5 * h["b"] * d["s"] ** 2, d["inj"] + h["a"] * d["t"] - 0.5 * h["b"] * d["t"] ** 2
            if not log:
                lp, li = jnp.exp(lp), jnp.exp(li)
            sites, ll, _, _ = lik.run_sites(dict(pe_weights=lp, inj_weights=li, total_inj=500, Nobs=2, Tobs=1.0, surveyed_hypervolume=1e9, reconstruct_rate=False, log=log, **opts))
            return ll

        return f

    d = dict(pe=base, inj=inj, s=s, t=t)
    for log in (False, True):
        for name, o in (("", {}), ("-marg", dict(marginalize_selection=True)), ("-var", dict(min_neff_cut=False, max_variance_cut=True)), ("-nocut", dict(min_neff_cut=False))):
            yield "likelihood-%s%s" % ("log" if log else "lin", name), make(log, o), d, grid(a=(-1.0, 0.0, 0.7), b=(0.0, 1.5)), {}


GROUPS = dict(parametric=parametric, splines=splines, perturbed=perturbed, samplers=samplers, likelihood=likelihood)


def load(group, tiles=1):
    """the operations of a group, their data repeated ``tiles`` times"""
    global TILE
    TILE = tiles
    try:
        return _load(group)
    finally:
        TILE = 1


def large(ctx, group, tiles, one=None):
    """a sample's value does not depend on how many other samples are evaluated with it"""
    import jax.numpy as jnp

    J = lambda t: {k: jnp.asarray(np.asarray(v, float)) for k, v in t.items()}  # noqa: E731
    small, big = load(group), load(group, tiles)
    for name in big:
        if one is not None and name.split(".")[0] not in one:
            continue
        for i, h in enumerate(big[name]["lattice"][:2]):
            with ctx.at(operation=name, lattice=i, repeated=tiles):
                a = np.asarray(small[name]["f"](J(h), J(small[name]["data"])), float)
                b = np.asarray(big[name]["f"](J(h), J(big[name]["data"])), float)
                ctx.step(2)
                if a.size == 1:
                    e = a
                elif ctx.check(b.size == a.size * tiles and b.shape[0] == (a.shape[0] if a.ndim > 1 else b.size), "one value per sample", a.shape, b.shape):
                    e = np.broadcast_to(a.reshape(SH[0], 1, SH[1]), (SH[0], tiles, SH[1]))
                    b = b.reshape(e.shape)
                else:
                    continue
                top = np.abs(np.where(np.isfinite(a), a, 0)).max()
                rt = (1e-6 if small[name]["cosmo"] else 1e-9) if ctx.x64 else 1e-3
                ctx.close(b, e, name + ": the value of a sample among many", rtol=rt, atol=(1e-12 if ctx.x64 else 1e-5) * (top or 1))
                ctx.trace(b.size)


def _load(group):
    return {name: dict(f=f, data=d, lattice=l, **{"edge": (), "cosmo": False, "nojit": False, **o}) for name, f, d, l, o in GROUPS[group]()}
