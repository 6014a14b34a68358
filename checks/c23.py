"""C23: exported datasets contain exactly the supplied posteriors and predictions."""

import itertools
import os

import numpy as np
from mc.core import Shard

PROPERTY = "C23"
BOUNDS = dict(
    posteriors="every ordered selection of up to 3 of 6 variables (one to four dimensional, equal and unequal sizes, one element) x 1..4 draws x numpy or jax arrays",
    predictions="every ordered selection of up to 3 of 5 parameters x grid lengths (equal and unequal) x 1..3 draws; every ordered selection of up to 3 of 4 subpopulation names, equal and unequal numbers of draws and subpopulations",
    histories="every sequence of 3 exports over two posterior and two prediction dictionaries; written to and read back from disk",
)
ASSUMPTIONS = ["names of the trailing coefficient dimensions are not judged", "subpopulation exports include a redshift prediction, which is not split, as the code requires"]
SHAPES = dict(alpha=(), mass_cs=(4,), one=(1,), q_cs=(3,), matrix=(2, 3), cube=(2, 1, 3))
PARAMS = ("mass_1", "mass_ratio", "redshift", "a_1", "log_redshift")


def post(names, n, seed=0.0, jaxed=False):
    import jax.numpy as jnp

    d = {}
    for k in names:
        i = list(SHAPES).index(k)
        a = seed + 100.0 * i + np.arange(n * int(np.prod(SHAPES[k], dtype=int)), dtype=float).reshape((n,) + SHAPES[k]) / 4
        d[k] = jnp.asarray(a) if jaxed else a
    return d


def snapshot(d):
    return {k: (id(v), None if isinstance(v, list) else np.array(v, copy=True)) for k, v in d.items()}


def untouched(ctx, d, snap, what):
    ok = list(d) == list(snap) and all(id(d[k]) == snap[k][0] for k in d)
    ctx.check(ok, what + " left untouched", sorted(snap), sorted(d))
    if ok:
        for k in d:
            if snap[k][1] is not None:
                ctx.check(np.array_equal(np.asarray(d[k]), snap[k][1]), what + ": values left untouched", observed=k)


def posteriors(ctx, n):
    from gwinferno.pipeline.utils import posterior_dict_to_xarray as f

    for r in (1, 2, 3):
        for names in itertools.permutations(SHAPES, r):
            for jaxed in (False, True):
                with ctx.at(draws=n, names=names, jax=jaxed):
                    d = post(names, n, jaxed=jaxed)
                    s = snapshot(d)
                    for again in range(2):
                        judge_post(ctx, f(d), d)
                    untouched(ctx, d, s, "the caller's dictionary")


def judge_post(ctx, ds, d):
    ctx.step()
    ctx.check(set(ds.data_vars) == set(d), "exported variables", sorted(d), sorted(ds.data_vars))
    for k in set(d) & set(ds.data_vars):
        ctx.close(np.asarray(ds[k].values, float), np.asarray(d[k], float), "values of " + k, rtol=0)
        want = ("draw",) + tuple("%s_dim%d" % (k, i + 2) for i in range(np.ndim(d[k]) - 1))
        ctx.check(ds[k].dims == want, "dimensions of " + k, want, ds[k].dims)
    ctx.trace()
    ctx.outcome(tuple(sorted((k, v.shape) for k, v in ds.data_vars.items())))


def grid(p, m):
    return 0.5 + 10.0 * PARAMS.index(p) + np.arange(m) / 3.0


def pdfs(params, n, m, subs=None, seed=0.0):
    pd, gd = {}, {}
    for p in params:
        i = PARAMS.index(p)
        g = m[i]
        a = seed + 1000.0 * i + np.arange(n * g, dtype=float).reshape(n, g)
        if subs is not None and p != "redshift":
            pd[p] = [a + 100.0 * (j + 1) for j in range(len(subs))]
        else:
            pd[p] = a
        gd[p] = grid(p, g)
    return pd, gd


def judge_pdf(ctx, ds, pd, gd, n, subs):
    ctx.step()
    want = {}
    for p, v in pd.items():
        if subs is None or p == "redshift":
            want[p + "_pdfs"] = (p, v)
        else:
            for j, nm in enumerate(subs):
                want["%s_%s_pdfs" % (nm, p)] = (p, v[j])
    ctx.check(set(ds.data_vars) == set(want), "exported predictions", sorted(want), sorted(ds.data_vars))
    for k in set(want) & set(ds.data_vars):
        p, v = want[k]
        ctx.check(ds[k].dims == ("draw", p), "dimensions of " + k, ("draw", p), ds[k].dims)
        ctx.close(np.asarray(ds[k].values, float), np.asarray(v, float), "values of " + k, rtol=0)
    for p, g in gd.items():
        ctx.check(p in ds.coords, "coordinate " + p, observed=list(ds.coords))
        if p in ds.coords:
            ctx.close(np.asarray(ds[p].values, float), g, "coordinate values of " + p, rtol=1e-6)
    ctx.close(np.asarray(ds["draw"].values, float), np.arange(n), "draw coordinate")
    ctx.trace()
    ctx.outcome(tuple(sorted(ds.data_vars)))


GRIDS = ((4, 4, 4, 4, 4), (2, 3, 4, 5, 2), (5, 1, 2, 3, 4))
SUBS = ("BBH", "peak", "2", "BBH_low")


def predictions(ctx, n):
    from gwinferno.pipeline.utils import pdf_dict_to_xarray as f

    for m in GRIDS:
        for r in (1, 2, 3):
            for params in itertools.permutations(PARAMS, r):
                with ctx.at(draws=n, grids=m, params=params):
                    pd, gd = pdfs(params, n, m)
                    s, t = snapshot(pd), snapshot(gd)
                    for _ in range(2):
                        judge_pdf(ctx, f(pd, gd, n), pd, gd, n, None)
                    untouched(ctx, pd, s, "the caller's predictions")
                    untouched(ctx, gd, t, "the caller's grids")


def subpops(ctx, n):
    from gwinferno.pipeline.utils import pdf_dict_to_xarray as f

    for m in GRIDS:
        for r in (1, 2, 3):
            for subs in itertools.permutations(SUBS, r):
                for q in range(0, 3):
                    for others in itertools.combinations(("mass_1", "mass_ratio", "a_1", "log_redshift"), q):
                        for pos in range(q + 1):
                            params = others[:pos] + ("redshift",) + others[pos:]
                            with ctx.at(draws=n, grids=m, subs=subs, params=params):
                                pd, gd = pdfs(params, n, m, subs)
                                s, t = snapshot(pd), snapshot(gd)
                                for _ in range(2):
                                    judge_pdf(ctx, f(pd, gd, n, list(subs)), pd, gd, n, subs)
                                untouched(ctx, pd, s, "the caller's predictions")
                                untouched(ctx, gd, t, "the caller's grids")


def histories(ctx):
    import xarray as xr
    from gwinferno.pipeline.utils import pdf_dict_to_xarray, posterior_dict_to_xarray

    A, B = post(("alpha", "mass_cs"), 3), post(("mass_cs", "q_cs", "matrix"), 2, 7.0)
    P, S = pdfs(("mass_1", "redshift"), 3, GRIDS[1]), pdfs(("mass_1", "redshift", "a_1"), 2, GRIDS[2], ("BBH", "peak"), 3.0)
    n = 0
    for h in itertools.product("ABPS", repeat=3):
        with ctx.at(history=h):
            out = []
            for op in h:
                if op in "AB":
                    d = A if op == "A" else B
                    ds = posterior_dict_to_xarray(d)
                    out.append((ds, lambda ds, d=d: judge_post(ctx, ds, d)))
                else:
                    (pd, gd), k, subs = (P, 3, None) if op == "P" else (S, 2, ["BBH", "peak"])
                    ds = pdf_dict_to_xarray(pd, gd, k, subs)
                    out.append((ds, lambda ds, a=(pd, gd, k, subs): judge_pdf(ctx, ds, *a)))
            for ds, j in out:
                j(ds)
            n += 1
            path = os.path.join(ctx.scratch, "h%d.h5" % n)
            ds, j = out[-1]
            ds.to_netcdf(path)
            back = xr.load_dataset(path)
            j(back)
            os.remove(path)


def shards(tier):
    ns = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    out = [Shard("posteriors-%d" % n, posteriors, True, 3, n=n) for n in ns]
    out += [Shard("predictions-%d" % n, predictions, True, 3, n=n) for n in ns]
    out += [Shard("subpops-%d" % n, subpops, True, 3, n=n) for n in ns]
    out += [Shard("histories", histories, True, 3), Shard("posteriors32", posteriors, False, 3, n=2), Shard("histories32", histories, False, 3)]
    return out
