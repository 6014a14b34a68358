"""C04: posterior-predictive draws follow the weights and respect the mass cuts."""

import itertools

import numpy as np
from checks import lik
from mc.core import Shard

PROPERTY = "C04"
BOUNDS = dict(
    samples="all patterns of 1-3 samples per event over {ordinary, on the lower/upper primary-mass limit, on the secondary-mass limit, zero weight, primary too light / too heavy, secondary too light}",
    injections="all patterns of 1-3 injections over the same alphabet",
    options="linear/log weights (also thousands of nats away from zero, excluded samples heaviest), latent categorical assignments, default and explicit mass limits, 1-3 events, subsets of parameters, individual subpopulation weights",
    proportions="one weight table repeated for many events, the fixed per-event streams",
)
ASSUMPTIONS = [
    "events whose samples are all excluded are not judged",
    "proportions are judged to five standard deviations on the fixed streams",
]
KINDS = ("in", "lo1", "hi1", "lo2", "zero", "light1", "heavy1", "light2")
OK = {"in", "lo1", "hi1", "lo2"}


def row(kind, pos, lim):
    """(weight, mass_1, mass_ratio) of a sample of this kind at this position."""
    m1, m2, mx = lim
    w = 0.5 + 0.25 * pos
    mid = (m1 + mx) / 2
    if kind == "in":
        return w, mid + pos, (1.0, 0.6, 0.9)[pos % 3]
    if kind == "lo1":
        return w, m1, 1.0
    if kind == "hi1":
        return w, mx, (0.5, 1.0, 0.7)[pos % 3]
    if kind == "lo2":
        return w, 4 * m2, 0.25
    if kind == "zero":
        return 0.0, mid, 1.0
    if kind == "light1":
        return w, m1 * 0.999, 1.0
    if kind == "heavy1":
        return w, mx * (1.001, 1.001, 2.0)[pos % 3], (0.5, 1.0, 0.4)[pos % 3]
    return w, 4 * m2 * 0.999, 0.25


def tables(n, lim):
    pats = list(itertools.product(KINDS, repeat=n))
    t = np.array([[row(k, i, lim) for i, k in enumerate(p)] for p in pats])
    ok = np.array([[k in OK for k in p] for p in pats])
    return t, ok


def vrun(w, pe, iw, inj, names, opts, log, nobs):
    import jax
    import jax.numpy as jnp

    def one(w, pe, iw, inj):
        kw = dict(pe_weights=w, inj_weights=iw, total_inj=1000, Nobs=nobs, Tobs=1.0, reconstruct_rate=False, min_neff_cut=False, log=log)
        kw.update(posterior_predictive_check=True, param_names=names, pedata=pe, injdata=inj, **opts)
        sites, ll, _, _ = lik.run_sites(kw)
        return {k: v for k, v in sites.items() if "_event_" in k}, ll

    if len(w) == 1:  # many events: eager
        first = lambda x: jax.tree_util.tree_map(lambda v: jnp.asarray(v)[0], x)  # noqa: E731
        out, ll = jax.tree_util.tree_map(lambda v: jnp.asarray(v)[None], one(first(w), first(pe), first(iw), first(inj)))
    else:
        out, ll = jax.jit(jax.vmap(one))(w, pe, iw, inj)
    return {k: np.asarray(v) for k, v in out.items()}, np.asarray(ll)


def patterns(ctx, n, nf, nobs, names):
    for limname, lim in dict(default=(5.0, 3.0, 100.0), explicit=(8.0, 2.5, 64.0), wide=(2.0, 2.0, 100.0)).items():
        t, ok = tables(n, lim)
        it, iok = tables(nf, lim)
        L = max(len(t), len(it))
        L = L if L == max(len(t), len(it)) else L
        for shift in range(3 if ctx.thorough else 2):
            ev = [np.roll(np.arange(L), 37 * e + 11 * shift) % len(t) for e in range(nobs)]
            ii = np.roll(np.arange(L), 5 + 13 * shift) % len(it)
            T = np.stack([t[e] for e in ev], 1)  # (L, nobs, n, 3)
            O = np.stack([ok[e] for e in ev], 1)
            J, JO = it[ii], iok[ii]
            # every sample carries a unique value of every parameter besides the masses
            uid = 1000.0 * (1 + np.arange(nobs))[:, None] + 10.0 * np.arange(n)[None, :]
            z = np.broadcast_to(uid, (L, nobs, n))
            jz = np.broadcast_to(7000.0 + 10.0 * np.arange(nf), (L, nf))
            pe = dict(mass_1=T[..., 1], mass_ratio=T[..., 2], redshift=z, a_1=-z, a_2=3 * z)
            inj = dict(mass_1=J[..., 1], mass_ratio=J[..., 2], redshift=jz, a_1=-jz, a_2=3 * jz)
            for log in (False, True):
                with ctx.at(limits=limname, shift=shift, log=log, nobs=nobs, n=n, nf=nf):
                    opts = {} if limname == "default" else dict(m1min=lim[0], m2min=lim[1], mmax=lim[2])
                    with np.errstate(divide="ignore"):
                        w, iw = (np.log(T[..., 0]), np.log(J[..., 0])) if log else (T[..., 0], J[..., 0])
                    if log and shift:  # log weights far outside the range of floats, most of all those of excluded samples
                        far = (-3000.0, 2000.0) if shift == 1 else (900.0, -5000.0)
                        w = w + far[0] * (1 + np.arange(nobs))[:, None] + np.where(O | (w == -np.inf), 0.0, 4000.0)
                        iw = iw + far[1] + np.where(JO | (iw == -np.inf), 0.0, 4000.0)
                    if not log and shift:  # linear weights of any size, different from event to event
                        w, iw = w * (1e-33 * 10.0 ** np.arange(nobs))[:, None], iw * 1e-32
                    out, _ = vrun(w, pe, iw, inj, list(names), opts, log, nobs)
                    want = {"%s_%s_event_%d" % (p, k, e) for p in names for k in ("obs", "pred") for e in range(nobs)}
                    ctx.check(want <= set(out), "reported draws", sorted(want), sorted(out))
                    ctx.front(L)
                    ctx.step(L)
                    ctx.trace(L)
                    for e in range(nobs):
                        judge(ctx, out, "obs", e, names, {k: v[:, e] for k, v in pe.items()}, O[:, e])
                        judge(ctx, out, "pred", e, names, inj, JO)
                    ctx.sample(limits=lim, log=log, patterns=L, nobs=nobs)


def judge(ctx, out, kind, e, names, data, ok):
    got = np.stack([out["%s_%s_event_%d" % (p, kind, e)] for p in names], -1)  # (L, P)
    have = np.stack([data[p] for p in names], -1)  # (L, n, P)
    eq = (np.abs(got[:, None, :] - have) <= 1e-6 * np.abs(have)).all(-1)
    live = ok.any(1)
    ctx.check((eq.any(1) | ~live).all(), kind + " draw: all parameters from one row of its own data", event=e, n_bad=int((~eq.any(1) & live).sum()))
    good = (eq & ok).any(1)
    bad = np.flatnonzero(~good & live)
    ctx.check(len(bad) == 0, kind + " draw: nonzero weight and inside the mass limits", event=e, first=None if len(bad) == 0 else (got[bad[0]], have[bad[0]], ok[bad[0]]))
    ctx.outcome((kind, e, int(good.sum())))


def proportions(ctx, log):
    """The same weights for many events: the fixed streams have to reproduce the proportions."""
    import itertools as it

    n = 800 if ctx.thorough else 300
    for wts in [(1.0, 2.0, 5.0), (6.0, 1.0, 1.0), (0.0, 3.0, 1.0)] + ([(1.0, 1.0, 1.0), (1.0, 0.0, 0.0)] if ctx.thorough else []):
        for iw in [(4.0, 1.0, 3.0)]:
            with ctx.at(w=wts, iw=iw, log=log):
                pe = dict(mass_1=np.full((n, 3), 20.0), mass_ratio=np.ones((n, 3)), redshift=np.tile(np.arange(3.0), (n, 1)) + 10 * np.arange(n)[:, None])
                inj = dict(mass_1=np.full(3, 20.0), mass_ratio=np.ones(3), redshift=np.arange(3.0))
                # rows scaled differently: only the proportions within an event count
                W = np.tile(np.array(wts), (n, 1)) * (1.0 + (np.arange(n) % 3))[:, None]
                with np.errstate(divide="ignore"):
                    w, i = (np.log(W), np.log(iw)) if log else (W, np.array(iw))
                out, _ = vrun(w[None], {k: v[None] for k, v in pe.items()}, i[None], {k: v[None] for k, v in inj.items()}, ["redshift"], {}, log, n)
                o = np.array([out["redshift_obs_event_%d" % e][0] - 10 * e for e in range(n)]).round().astype(int)
                p = np.array([out["redshift_pred_event_%d" % e][0] for e in range(n)]).round().astype(int)
                ctx.trace(2 * n)
                ctx.step(n)
                ctx.front(n)
                ctx.check(((o >= 0) & (o < 3)).all(), "observed draw belongs to its own event")
                for name, d, ww in (("observed", o, wts), ("predicted", p, iw)):
                    q = np.array(ww) / sum(ww)
                    f = np.bincount(np.clip(d, 0, 2), minlength=3) / n
                    tol = 5 * np.sqrt(q * (1 - q) / n) + 1e-12
                    ctx.check((np.abs(f - q) <= tol).all(), name + " draws in proportion to the weights", q, f)
                # draws of different events are not tied to each other: agreement at every lag is what independence gives
                for name, d, ww in (("observed", o, wts), ("predicted", p, iw)):
                    q = np.array(ww) / sum(ww)
                    same = float((q**2).sum())
                    for lag in range(1, 13):
                        f = float((d[lag:] == d[:-lag]).mean())
                        ctx.check(abs(f - same) <= 7 * np.sqrt(same * (1 - same) / (n - lag)) + 1e-12, name + " draws of different events independent (lag %d)" % lag, same, f)
                # observed and predicted draws of an event are not tied to each other
                q1, q2 = np.array(wts) / sum(wts), np.array(iw) / sum(iw)
                for a, b in it.product(range(3), repeat=2):
                    pr = q1[a] * q2[b]
                    ctx.check(abs(((o == a) & (p == b)).mean() - pr) <= 5 * np.sqrt(pr * (1 - pr) / n) + 1e-12, "observed and predicted draws independent", pr)


def fractions(ctx):
    """Subpopulation fractions of the drawn sample: all pairs of individual weights over an alphabet."""
    vals = (0.0, 0.5, 1.0, 2.0)
    n = 2
    for nsub in (2, 3):
        per = np.array(list(itertools.product(vals, repeat=nsub * n))).reshape(-1, nsub, n)
        per = per[per.sum(1).sum(1) > 0]
        if nsub == 3 and not ctx.thorough:
            per = per[::7]
        L = len(per)
        for nobs, log in itertools.product((1, 2), (False, True)):
            with ctx.at(nsub=nsub, nobs=nobs, log=log):
                import jax
                import jax.numpy as jnp

                A = np.stack([np.roll(per, 3 * e, axis=0) for e in range(nobs)], 2)  # (L, nsub, nobs, n)
                W = A.sum(1)
                ids = 100.0 * np.arange(nobs)[:, None] + np.arange(n)

                def one(a, w):
                    pe = dict(mass_1=jnp.full((nobs, n), 20.0), mass_ratio=jnp.ones((nobs, n)), redshift=jnp.asarray(ids))
                    inj = dict(mass_1=jnp.full(2, 20.0), mass_ratio=jnp.ones(2), redshift=jnp.arange(2.0))
                    kw = dict(pe_weights=jnp.log(w) if log else w, inj_weights=jnp.zeros(2) if log else jnp.ones(2), total_inj=100, Nobs=nobs, Tobs=1.0, reconstruct_rate=False)
                    kw.update(min_neff_cut=False, log=log, posterior_predictive_check=True, param_names=["redshift"], pedata=pe, injdata=inj)
                    kw.update(marginal_qs=True, indv_weights=[a[k] for k in range(nsub)])
                    return lik.run_sites(kw)[0]

                out = {k: np.asarray(v) for k, v in jax.jit(jax.vmap(one))(A, W).items()}
                ctx.front(L)
                ctx.step(L)
                ctx.trace(L)
                for e in range(nobs):
                    idx = (out["redshift_obs_event_%d" % e] - 100 * e).round().astype(int)
                    live = W[:, e].sum(-1) > 0
                    ctx.check(((idx >= 0) & (idx < n))[live].all(), "draw from its own event")
                    idx = np.clip(idx, 0, n - 1)
                    rows = np.arange(L)
                    for k in range(nsub):
                        exp = A[rows, k, e, idx] / np.where(W[rows, e, idx] > 0, W[rows, e, idx], 1)
                        ctx.close(out["cat_frac_subpop_%d_event_%d" % (k + 1, e)], exp, "subpopulation fraction", mask=live, rtol=1e-5)
                    ctx.outcome((nsub, e, int(live.sum())))


def assigned(ctx, nobs):
    """Latent categorical assignments: the observed draw follows the weights of the subpopulation the event is assigned to."""
    import jax
    import jax.numpy as jnp

    n = 3
    sup = [s for s in itertools.product((0.0, 1.0), repeat=n) if sum(s)]
    pairs = list(itertools.product(sup, repeat=2))
    for log, q, aslist in itertools.product((False, True), itertools.product((0, 1), repeat=nobs), (True, False)):
        with ctx.at(log=log, assignment=q, nobs=nobs, aslist=aslist):
            A = np.array([[pairs[(i + 17 * e) % len(pairs)] for e in range(nobs)] for i in range(len(pairs))])  # (L, nobs, 2, n)
            A = np.moveaxis(A, 2, 1)  # (L, 2, nobs, n)
            with np.errstate(divide="ignore"):
                W = np.log(A) if log else A
            ids = 100.0 * np.arange(nobs)[:, None] + np.arange(n)

            def one(w):
                pe = dict(mass_1=jnp.full((nobs, n), 20.0), mass_ratio=jnp.ones((nobs, n)), redshift=jnp.asarray(ids))
                inj = dict(mass_1=jnp.full(2, 20.0), mass_ratio=jnp.ones(2), redshift=jnp.arange(2.0))
                kw = dict(pe_weights=[w[0], w[1]] if aslist else w, inj_weights=jnp.zeros(2) if log else jnp.ones(2), total_inj=100, Nobs=nobs, Tobs=1.0, reconstruct_rate=False)
                kw.update(min_neff_cut=False, posterior_predictive_check=True, param_names=["redshift"], pedata=pe, injdata=inj, log=log)
                kw.update(categorical=True, pop_frac=[0.4, 0.6], rngkey=jax.random.PRNGKey(0))
                return lik.run_sites(kw, params={"Qs": jnp.array(q)})[0]

            out = {k: np.asarray(v) for k, v in jax.jit(jax.vmap(one))(jnp.asarray(W)).items()}
            L = len(A)
            ctx.front(L)
            ctx.step(L)
            ctx.trace(L)
            for e in range(nobs):
                idx = (out["redshift_obs_event_%d" % e] - 100 * e).round().astype(int)
                inside = (idx >= 0) & (idx < n)
                ctx.check(inside.all(), "draw from its own event")
                ok = A[np.arange(L), q[e], e, np.clip(idx, 0, n - 1)] > 0
                ctx.check(ok.all(), "draw has weight in the assigned subpopulation", n_bad=int((~ok).sum()))
                ctx.outcome((e, q))


def quiet(ctx):
    """Requesting draws never changes the likelihood; not requesting them reports none."""
    rng = [1.0, 2.0, 3.0, 0.5]
    for log, nobs in itertools.product((False, True), (1, 2, 3)):
        with ctx.at(log=log, nobs=nobs):
            W = np.array([[rng[(e + i) % 4] for i in range(4)] for e in range(nobs)])
            I = np.array(rng * 4)
            pe = dict(mass_1=np.full((nobs, 4), 20.0), mass_ratio=np.ones((nobs, 4)), redshift=W)
            inj = dict(mass_1=np.full(16, 4.0), mass_ratio=np.ones(16), redshift=I)
            inj["mass_1"][3] = 30.0
            w, i = (np.log(W), np.log(I)) if log else (W, I)
            import jax.numpy as jnp

            base = dict(pe_weights=jnp.asarray(w), inj_weights=jnp.asarray(i), total_inj=10000, Nobs=nobs, Tobs=1.0, surveyed_hypervolume=1e9, log=log)
            off = lik.run_sites(base)
            on = lik.run_sites(dict(base, posterior_predictive_check=True, param_names=["mass_1", "redshift"], pedata=pe, injdata=inj))
            ctx.step(2)
            ctx.trace(2)
            ctx.close(on[1], off[1], "likelihood with and without draws", rtol=1e-12)
            for k, v in off[0].items():
                ctx.close(on[0][k], v, "site " + k, rtol=1e-12)
            ctx.check(not [k for k in off[0] if "_event_" in k], "no draws unless requested")
            ctx.check(all(float(on[0]["mass_1_pred_event_%d" % e]) == 30.0 for e in range(nobs)), "only admissible injection is predicted")


def shards(tier):
    nm = ("mass_1", "mass_ratio", "redshift", "a_1", "a_2")
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        out += [
            Shard("patterns%s-3x3-2" % b, patterns, x, 4, n=3, nf=3, nobs=2, names=nm),
            Shard("patterns%s-3x3-1" % b, patterns, x, 3, n=3, nf=3, nobs=1, names=("redshift", "mass_1")),
            Shard("patterns%s-1x2-3" % b, patterns, x, 3, n=1, nf=2, nobs=3, names=("redshift",)),
            Shard("proportions%s" % b, proportions, x, 4, log=not x),
            Shard("fractions%s" % b, fractions, x, 2),
            Shard("quiet%s" % b, quiet, x, 2),
            Shard("assigned%s" % b, assigned, x, 2, nobs=1 + x),
        ]
        if tier == "thorough":
            out += [Shard("patterns%s-4x4-3" % b, patterns, x, 10, n=4, nf=4, nobs=3, names=nm), Shard("proportions%s-b" % b, proportions, x, 8, log=x)]
    return out
