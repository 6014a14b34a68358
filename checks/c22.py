"""C22: posterior population predictions are the fitted model's density, draw by draw."""

import itertools

import numpy as np
from checks import dens, ref
from checks.c08 import density
from mc.core import Shard

PROPERTY = "C22"
BOUNDS = dict(
    calculators="all nine prediction functions (spline masses, power law plus peak, log-normal peak with spline ratio, beta spin magnitude, isotropic/aligned tilts, identical and independent spline spins, power-law and perturbed redshift evolution)",
    draws="every hyper-parameter combination over the alphabets as one set of draws; every ordered pair of 4 draws consecutively (de Bruijn order); every ordered selection of up to 3 out of 4 draws for the cheap calculators, single draws and pairs for the two-dimensional ones; sets of 1101 draws (130 for the expensive calculators in the quick check)",
    scaling="rate and subpopulation fraction given or not, in all four combinations, different for every draw",
    models="spline numbers 4..8, two mass ranges, maximum spins {1, 0.8, 1.5}, redshift models over two ranges",
)
ASSUMPTIONS = [
    "predictions are judged on the returned grid; the grid must span the documented range with at least 200 points",
    "edge cells of the pairing cut q = mmin/m1 are judged to one grid cell",
]
RATE = np.array([20.0, 3.5, 0.25, 41.0, 7.0, 11.0, 1.5, 60.0])
FRAC = np.array([0.1, 0.9, 0.5, 0.35, 0.75, 1.0, 0.2, 0.6])


def scale(n):
    r, f = RATE[np.arange(n) % 8] + 0.125 * np.arange(n), FRAC[np.arange(n) % 8]
    yield {}, np.ones(n), "none"
    yield dict(rate=r), r, "rate"
    yield dict(pop_frac=f), f, "fraction"
    yield dict(rate=r, pop_frac=f), r * f, "both"


def grids(ctx, x, lo, hi, what):
    x = np.asarray(x, float)
    ctx.check(x.ndim == 1 and len(x) >= 200 and np.all(np.diff(x) > 0), what + " grid is increasing and fine", observed=x.shape)
    ctx.close([x[0], x[-1]], [lo, hi], what + " grid range", rtol=1e-5, atol=1e-6)
    return x


def norm1(p, x, s):
    return s[:, None] * p / np.trapz(p, x, axis=-1)[:, None]


def judge(ctx, got, want, what, cut=False, ends=True):
    got = np.asarray(got, float)
    top = np.abs(want).max(-1, keepdims=True)
    tol = 4e-3 if cut else (1e-8 if ctx.x64 else 8e-3)
    m = np.ones(want.shape, bool)
    if not ends:
        m[:, [0, -1]] = False
    ctx.close(got / top, want / top, what, rtol=tol, atol=tol, mask=m)
    ctx.trace(len(want))
    ctx.front(len(want))
    ctx.outcome((what, round(float(want.sum()), 4)))


# every ordered pair of 4 draws (and every draw after itself) occurs consecutively: de Bruijn cycle B(4, 2)
PAIRS = [0, 0, 1, 0, 2, 0, 3, 1, 1, 2, 1, 3, 2, 2, 3, 3, 0]


def explore(ctx, call, draws, reference, names, heavy=False, long=True):
    """draws: dict of arrays over draws; every scaling on a set in which every ordered pair of 4 draws is consecutive;
    then every ordered selection of up to 3 of the 4 draws (of 1 draw where a call is expensive)."""
    n = len(next(iter(draws.values())))
    sel = [i * (n - 1) // 3 for i in range(4)]
    order = np.array(list(range(n)) + [sel[i] for i in PAIRS])
    light = np.arange(1, n, max(1, n // 3))
    both = None
    for kw, s, how in scale(n):
        o = light if heavy and not ctx.thorough and how in ("rate", "fraction") else order
        with ctx.at(draws=len(o), scaling=how):
            out = call({k: v[o] for k, v in draws.items()}, {k: v[o] for k, v in kw.items()})
            ctx.step()
            reference(out, {k: v[o] for k, v in draws.items()}, s[o])
            if how == "both":
                both = (out, kw)
    if both is None:
        return
    many = np.array([order[(i * 5) % len(order)] for i in range(130 if heavy and not ctx.thorough else 1101)])
    if not heavy or long:  # a long run's worth of draws
        with ctx.at(draws=len(many)):
            sub = call({k: v[many] for k, v in draws.items()}, {k: v[many] for k, v in both[1].items()})
            ctx.step()
            first = {int(o): i for i, o in reversed(list(enumerate(order)))}
            for i in names:
                have, want = np.asarray(sub[i], float), np.asarray(both[0][i], float)[[first[int(o)] for o in many]]
                ctx.close(have, want, "prediction of a draw is independent of the number of draws", rtol=1e-5, atol=1e-7)
            ctx.trace(len(many))
    for r in (1, 2, 3):
        for o in itertools.permutations(sel, r):
            if (r == 3 and not ctx.thorough and o[0] != sel[1]) or (heavy and (o not in ((sel[2],), (sel[3], sel[1])) if not ctx.thorough else r > 1 and o[0] != sel[2])):
                continue
            o = list(o)
            with ctx.at(selection=o):
                sub = call({k: v[o] for k, v in draws.items()}, {k: v[o] for k, v in both[1].items()})
                ctx.step()
                for i in names:
                    ctx.close(np.asarray(sub[i], float), np.asarray(both[0][i], float)[o], "prediction of a draw is independent of the other draws", rtol=1e-5, atol=1e-7)
                ctx.trace()


def J(d):
    import jax.numpy as jnp

    return {k: jnp.asarray(v) for k, v in d.items()}


def calc():
    from gwinferno.postprocess import calculations

    return calculations


def cvecs(n, count, s):
    return np.array([s * (np.sin((i + 1) * (np.arange(n) + 0.7 * i)) + (np.arange(n) == i % n)) for i in range(count)])


def marg(P, ms, qs):
    return np.trapz(P, qs, axis=-2), np.trapz(P, ms, axis=-1)


def bspline_mass(ctx, nm, nq, mmin, mmax, basis=True):
    import jax.numpy as jnp
    from gwinferno.pipeline.utils import setup_bspline_mass_models

    d = dict(m_cs=cvecs(nm, 6, 1.2), q_cs=cvecs(nq, 6, 0.8)[::-1].copy())

    def call(d, kw):
        return calc().calculate_bspline_mass_ppds(jnp.asarray(d["m_cs"]), jnp.asarray(d["q_cs"]), dict(m1=nm, q=nq), mmin, mmax, **J(kw))

    def reference(out, d, s):
        pm, ms, pq, qs = out
        ms, qs = grids(ctx, ms, mmin, mmax, "mass"), grids(ctx, qs, mmin / mmax, 1.0, "ratio")
        A = density("LogXLogYBSpline", ms, d["m_cs"], nm, 3, (mmin, mmax), True, False)[0]
        B = density("LogYBSpline", qs, d["q_cs"], nq, 3, (mmin / mmax, 1.0), True, False)[0]
        A[:, 0], A[:, -1] = A[:, 1], A[:, -2]
        K = qs[:, None] > mmin / ms[None]
        P = A[:, None, :] * B[:, :, None] * K
        m, q = marg(P, ms, qs)
        judge(ctx, pm, norm1(m, ms, s), "mass prediction", True, False)
        judge(ctx, pq, norm1(q, qs, s), "ratio prediction", True)

    explore(ctx, call, d, reference, (0, 2), True)
    # the model that is fitted by the pipeline, on the same grid
    with ctx.at(fitted=True):
        pm, ms, pq, qs = call(d, {})
        M, Q = np.meshgrid(np.asarray(ms, float), np.asarray(qs, float))
        pe = dict(mass_1=jnp.asarray(M), mass_ratio=jnp.asarray(Q))
        mod = setup_bspline_mass_models(pe, dict(mass_1=jnp.asarray(M.ravel()[:50]), mass_ratio=jnp.asarray(Q.ravel()[:50])), nm, nq, mmin, mmax)
        P = np.array([np.asarray(mod(jnp.asarray(a), jnp.asarray(b), pe_samples=True), float) for a, b in zip(d["m_cs"], d["q_cs"])])
        P = np.nan_to_num(P * (Q > mmin / M))
        m, q = marg(P, np.asarray(ms, float), np.asarray(qs, float))
        one = np.ones(len(P))
        judge(ctx, pm, norm1(m, np.asarray(ms, float), one), "mass prediction of the fitted model", True, False)
        judge(ctx, pq, norm1(q, np.asarray(qs, float), one), "ratio prediction of the fitted model", True)
        ctx.step(len(P) + 1)


def plpeak(ctx, mmin, mmax):
    import jax.numpy as jnp

    c = np.array(list(itertools.product((-3.5, -1.0, 1.0), (-1.0, 0.0, 2.0), (15.0, 35.0), (2.0, 6.0), (0.0, 0.3, 1.0))))
    if not ctx.thorough:
        c = c[:: 4 if mmin == 5.0 else 7]
    d = dict(zip(("alpha", "beta", "mu", "sig", "lamb"), c.T.copy()))

    def call(d, kw):
        d = J(d)
        return calc().calculate_powerlaw_peak_mass_ppds(d["alpha"], d["beta"], d["mu"], d["sig"], d["lamb"], mmin, mmax, **J(kw))

    def reference(out, d, s):
        pm, ms, pq, qs = out
        ms, qs = grids(ctx, ms, mmin, mmax, "mass"), grids(ctx, qs, mmin / mmax, 1.0, "ratio")
        m, q = [], []
        for a, b, mu, sg, la in zip(*d.values()):
            with np.errstate(all="ignore"):
                P = dens.plpeak(ms, a, mmin, mmax, mu, sg, la)[None] * dens.powerlaw(qs[:, None], b, mmin / ms[None], 1.0)
            P = np.where(qs[:, None] > mmin / ms[None], P, 0.0)
            x, y = marg(P, ms, qs)
            m.append(x)
            q.append(y)
        judge(ctx, pm, norm1(np.array(m), ms, s), "mass prediction", True)
        judge(ctx, pq, norm1(np.array(q), qs, s), "ratio prediction", True)

    explore(ctx, call, d, reference, (0, 2), True)


def logpeak(ctx, nq, mmin, mmax):
    import jax.numpy as jnp

    c = np.array(list(itertools.product((2.0, 3.0, 3.6), (0.1, 0.4), (0, 1))))
    d = dict(mp=c[:, 0], sp=c[:, 1], q=cvecs(nq, len(c), 0.9))

    def call(d, kw):
        d = J(d)
        return calc().calculate_peak_logm1_bspline_q_ppds(d["mp"], d["sp"], d["q"], dict(q=nq), mmin, mmax, **J(kw))

    def reference(out, d, s):
        pm, ms, pq, qs = out
        ms, qs = grids(ctx, ms, mmin, mmax, "mass"), grids(ctx, qs, mmin / mmax, 1.0, "ratio")
        B = density("LogYBSpline", qs, d["q"], nq, 3, (mmin / mmax, 1.0), False, False)[0]
        A = np.array([dens.trunclognorm(ms, a, b, mmin, mmax) for a, b in zip(d["mp"], d["sp"])])
        P = A[:, None, :] * B[:, :, None] * (ms[None] * qs[:, None] >= mmin)
        m, q = marg(P, ms, qs)
        judge(ctx, pm, norm1(m, ms, s), "mass prediction", True, False)
        judge(ctx, pq, norm1(q, qs, s), "ratio prediction", True)

    explore(ctx, call, d, reference, (0, 2), True)


def spins(ctx):
    c = np.array(list(itertools.product((1.0, 1.5, 3.0, 8.0), (1.0, 2.0, 5.0))))
    for amax in (1, 0.8, 1.5):
        with ctx.at(calculator="beta", amax=amax):
            d = dict(a=c[:, 0], b=c[:, 1])

            def call(d, kw):
                d = J(d)
                return calc().calculate_beta_spin_mag(d["a"], d["b"], amax=amax, **J(kw))

            def reference(out, d, s):
                x = grids(ctx, out[1], 0.0, amax, "spin magnitude")
                judge(ctx, out[0], norm1(np.array([dens.beta(x, a, b, amax) for a, b in zip(d["a"], d["b"])]), x, s), "spin magnitude prediction", ends=ctx.x64)

            explore(ctx, call, d, reference, (0,))
    c = np.array(list(itertools.product((0.1, 0.5, 2.0), (0.0, 0.3, 1.0))))
    with ctx.at(calculator="tilt"):
        d = dict(s=c[:, 0], l=c[:, 1])

        def call(d, kw):
            d = J(d)
            return calc().calculate_mixture_iso_aligned_spin_tilt(d["s"], d["l"], **J(kw))

        def reference(out, d, s):
            x = grids(ctx, out[1], -1.0, 1.0, "tilt")
            judge(ctx, out[0], norm1(np.array([dens.tilt(x, l, g) for g, l in zip(d["s"], d["l"])]), x, s), "tilt prediction")

        explore(ctx, call, d, reference, (0,))


def spline_spins(ctx, na, nt, na2=None, nt2=None):
    import jax.numpy as jnp
    from gwinferno.pipeline.utils import setup_bspline_spin_models

    iid = na2 is None
    d = dict(a1=cvecs(na, 7, 1.1), t1=cvecs(nt, 7, 0.9)[::-1].copy())
    if not iid:
        d.update(a2=cvecs(na2, 7, 0.6)[::-1].copy() - 0.3, t2=cvecs(nt2, 7, 1.4) * 0.7)
    ns = dict(a=na, tilt=nt) if iid else dict(a1=na, tilt1=nt, a2=na2, tilt2=nt2)

    def call(d, kw):
        d = J(d)
        f = calc().calculate_bspline_spin_ppds
        return f(d["a1"], d["t1"], ns, **J(kw)) if iid else f(d["a1"], d["t1"], ns, a2_cs=d["a2"], tilt2_cs=d["t2"], **J(kw))

    def D(x, c, n, xr):
        p = density("LogYBSpline", x, c, n, 3, xr, True, False)[0]
        return p

    def unpack(out):
        if iid:
            return dict(a1=(out[0], out[1]), t1=(out[2], out[3]))
        return dict(a1=(out[0], out[2]), a2=(out[1], out[2]), t1=(out[3], out[5]), t2=(out[4], out[5]))

    N = dict(a1=na, t1=nt, a2=na2, t2=nt2)
    XR = dict(a=(0.0, 1.0), t=(-1.0, 1.0))

    def reference(out, d, s):
        for k, (p, x) in unpack(out).items():
            x = grids(ctx, x, *XR[k[0]], "spin")
            judge(ctx, p, norm1(D(x, d[k], N[k], XR[k[0]]), x, s), "prediction of " + k, ends=ctx.x64)

    explore(ctx, call, d, reference, (0, 2) if iid else (0, 1, 3, 4), not ctx.thorough)
    with ctx.at(fitted=True):
        u = unpack(call(d, {}))
        a, t = (np.asarray(u[k][1], float) for k in ("a1", "t1"))
        if iid:
            u.update(a2=u["a1"], t2=u["t1"])
        sep = np.full(len(a), 0.4)
        for k in ("a1", "a2", "t1", "t2"):
            vals = dict(a_1=sep, a_2=sep, cos_tilt_1=sep, cos_tilt_2=sep)
            vals[dict(a1="a_1", a2="a_2", t1="cos_tilt_1", t2="cos_tilt_2")[k]] = a if k[0] == "a" else t
            v = {p: jnp.asarray(q[None]) for p, q in vals.items()}
            w = {p: jnp.asarray(q[:9]) for p, q in vals.items()}
            mag, til = setup_bspline_spin_models(v, w, na, nt, IID=iid, a2_nsplines=na2, ct2_nsplines=nt2)
            mod = mag if k[0] == "a" else til
            e = []
            for i in range(7):
                cs = [jnp.asarray(d[k[0] + "1"][i])] + ([] if iid else [jnp.asarray(d[k[0] + "2"][i])])
                e.append(np.asarray(mod(*cs, pe_samples=True), float)[0])
                ctx.step()
            x = a if k[0] == "a" else t
            judge(ctx, u[k][0], norm1(np.array(e), x, np.ones(7)), "prediction of the fitted model for " + k, ends=ctx.x64)


def redshift(ctx):
    import jax.numpy as jnp
    from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
    from gwinferno.pipeline.utils import setup_powerlaw_spline_redshift_model

    la = np.array([-3.0, 0.0, 1.0, 2.7, 5.5])
    for lo, hi in ((0.01, 1.9), (0.05, 0.7)):
        zp, zi = jnp.asarray(np.linspace(lo, hi, 12).reshape(3, 4)), jnp.asarray(np.linspace(lo * 0.5, hi * 1.1, 9))
        with ctx.at(calculator="power law", zs=(lo, hi)):
            mod = PowerlawRedshiftModel(zp, zi)
            for frac in (False, True):
                r, f = RATE[:5], FRAC[:5]
                kw = dict(pop_frac=jnp.asarray(f)) if frac else {}
                rs, zs = calc().calculate_powerlaw_rate_of_z_ppds(jnp.asarray(la), jnp.asarray(r), mod, **kw)
                ctx.step()
                zs = grids(ctx, zs, lo, hi, "redshift")
                judge(ctx, rs, (r * (f if frac else 1))[:, None] * (1 + zs) ** la[:, None], "rate evolution")
                for o in [np.arange(1101) * 3 % 5] + list(itertools.permutations(range(5), 2 if ctx.thorough else 1)):
                    o = list(o)
                    r2, _ = calc().calculate_powerlaw_rate_of_z_ppds(jnp.asarray(la[o]), jnp.asarray(r[o]), mod, **{k: v[np.array(o)] for k, v in kw.items()})
                    ctx.close(r2, np.asarray(rs, float)[o], "prediction of a draw is independent of the other draws", rtol=1e-6)
                    ctx.step()
        for n in (4, 5, 8):
            with ctx.at(calculator="perturbed power law", zs=(lo, hi), n=n):
                mod = setup_powerlaw_spline_redshift_model(dict(redshift=zp), dict(redshift=zi), n)
                C = np.concatenate([cvecs(n - 1, 4, 0.8), np.zeros((1, n - 1))])
                vr = (np.log(lo), np.log(hi))
                B = None
                for frac in (False, True):
                    r, f = RATE[:5], FRAC[:5]
                    kw = dict(pop_frac=jnp.asarray(f)) if frac else {}
                    rs, zs = calc().calculate_powerlaw_spline_rate_of_z_ppds(jnp.asarray(la), jnp.asarray(C), jnp.asarray(r), mod, **kw)
                    ctx.step()
                    zs = grids(ctx, zs, lo, hi, "redshift")
                    B = ref.bspline(np.log(zs), ref.default_knots(n, 4, vr), 4, vr)
                    sp = np.concatenate([np.zeros((5, 1)), C], 1) @ B
                    judge(ctx, rs, (r * (f if frac else 1))[:, None] * (1 + zs) ** la[:, None] * np.exp(sp), "perturbed rate evolution", ends=False)
                    for o in [np.arange(1101) * 3 % 5] + list(itertools.permutations(range(5), 2 if ctx.thorough else 1)):
                        o = list(o)
                        r2, _ = calc().calculate_powerlaw_spline_rate_of_z_ppds(
                            jnp.asarray(la[o]), jnp.asarray(C[o]), jnp.asarray(r[o]), mod, **{k: v[np.array(o)] for k, v in kw.items()}
                        )
                        ctx.close(r2, np.asarray(rs, float)[o], "prediction of a draw is independent of the other draws", rtol=1e-6)
                        ctx.step()


def shards(tier):
    out = []
    xs = (True, False) if tier == "thorough" else (True,)
    for x in xs:
        b = "64" if x else "32"
        ms = [(5, 4, 5.0, 80.0), (6, 7, 3.0, 100.0)] + ([(8, 5, 2.0, 50.0), (4, 8, 5.0, 100.0)] if tier == "thorough" else [])
        out += [Shard("mass%s-%d-%d" % (b, m, q), bspline_mass, x, 6, nm=m, nq=q, mmin=lo, mmax=hi) for m, q, lo, hi in ms]
        out += [Shard("plpeak%s-%g" % (b, lo), plpeak, x, 5, mmin=lo, mmax=hi) for lo, hi in ((5.0, 80.0), (3.0, 100.0))]
        out += [Shard("logpeak%s-%d" % (b, n), logpeak, x, 5, nq=n, mmin=lo, mmax=hi) for n, lo, hi in ((5, 3.0, 100.0), (7, 5.0, 80.0))]
        out += [Shard("spins" + b, spins, x, 3), Shard("redshift" + b, redshift, x, 3)]
        out += [Shard("splinespins%s-iid-%d" % (b, a), spline_spins, x, 4, na=a, nt=t) for a, t in ((5, 6), (8, 4))]
        out += [Shard("splinespins%s-%d" % (b, a), spline_spins, x, 5, na=a, nt=t, na2=a2, nt2=t2) for a, t, a2, t2 in ((5, 6, 5, 6), (7, 4, 4, 8))]
    if tier != "thorough":
        out += [Shard("mass32", bspline_mass, False, 6, nm=5, nq=4, mmin=5.0, mmax=80.0), Shard("spins32", spins, False, 3), Shard("redshift32", redshift, False, 3)]
    return out
