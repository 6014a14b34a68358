"""C08: spline population models evaluate one density for events and injections."""

import itertools

import numpy as np
from checks import ops, ref
from checks.c05 import get, points
from checks.c06 import KIND, expected, integral, vectors
from mc.core import Shard

PROPERTY = "C08"
BOUNDS = dict(
    models="mass, mass ratio, spin magnitude, spin tilt, effective spin, symmetric effective spin, effective precession",
    options="default options, every basis type, 4..8 basis functions, degrees 2 and 3, default and explicit ranges, normalised or not",
    coefficients="every vector over {0,1,3} / {-2,0,1.5} for 4 (thorough 5) basis functions, one-hot and ramps for larger ones",
    samples="knots, their neighbours, mid and third points, ends, outside both ends, far outside; 1-D, 2-D and 3-D events; all-outside sets; the same samples repeated to 72000",
)
ASSUMPTIONS = ["normalisation as in C06 (0.2% plus one grid cell)", "with a logarithmic variable the exact end points are not judged"]
# class -> (default basis, default range, first option names for the range)
MODELS = dict(
    BSplineMass=("LogXLogYBSpline", (2.0, 100.0)),
    BSplineRatio=("LogYBSpline", (0.0, 1.0)),
    BSplineSpinMagnitude=("LogYBSpline", (0.0, 1.0)),
    BSplineSpinTilt=("LogYBSpline", (-1.0, 1.0)),
    BSplineChiEffective=("BSpline", (-1.0, 1.0)),
    BSplineSymmetricChiEffective=("BSpline", (0.0, 1.0)),
    BSplineChiPrecess=("BSpline", (0.0, 1.0)),
)
DEFAULT_NORM = dict(BSpline=False, LogYBSpline=True, LogXLogYBSpline=True, LogXBSpline=True, BasisSpline=True)


def options(name, thorough):
    """(keyword options, basis class name, range, degree, normalised)"""
    b0, r0 = MODELS[name]
    out = [({}, b0, r0, 3, DEFAULT_NORM[b0])]
    out.append((dict(normalize=not DEFAULT_NORM[b0]), b0, r0, 3, not DEFAULT_NORM[b0]))
    r1 = {"BSplineMass": (5.0, 65.0), "BSplineSpinTilt": (-0.8, 0.9), "BSplineChiEffective": (-0.6, 0.7)}.get(name, (0.1, 0.85))
    out.append((dict(xrange=r1), b0, r1, 3, DEFAULT_NORM[b0]))
    out.append((dict(xrange=r1, degree=2), b0, r1, 2, DEFAULT_NORM[b0]))
    if name == "BSplineMass":
        out.append((dict(mmin=3.0, mmax=80.0), b0, (3.0, 80.0), 3, True))
        out.append((dict(mmin=3.0), b0, (3.0, 100.0), 3, True))
        out.append((dict(mmax=50.0, degree=2), b0, (2.0, 50.0), 2, True))
    if name == "BSplineRatio":
        out.append((dict(qmin=0.05), b0, (0.05, 1.0), 3, True))
        out.append((dict(qmin=0.2, normalize=False), b0, (0.2, 1.0), 3, False))
    for b in DEFAULT_NORM:
        r = r1 if b.startswith("LogX") else r0
        if b.startswith("LogX") and r[0] <= 0:
            continue
        if b != b0:
            out.append((dict(basis=b, xrange=r, normalize=True), b, r, 3, True))
            if thorough:
                out.append((dict(basis=b, xrange=r, normalize=False, degree=1), b, r, 1, False))
    if thorough:
        out.append((dict(degree=1), b0, r0, 1, DEFAULT_NORM[b0]))
        out.append((dict(degree=4), b0, r0, 4, DEFAULT_NORM[b0]))
    return out


def model(name):
    from gwinferno.models.bsplines import single

    return getattr(single, name)


def density(basis, x, C, n, deg, xr, norm, sym):
    """Reference density (float64) with the exact normalisation, and the tolerance of the numerical one."""
    k = deg + 1
    logx = KIND[basis][0]
    vr = tuple(np.log(xr)) if logx else xr
    knots = ref.default_knots(n, k, vr)
    ax = np.abs(x) if sym else x
    inside = (ax >= xr[0]) & (ax <= xr[1])
    with np.errstate(all="ignore"):
        u = np.where(inside, np.log(np.where(inside, ax, 1.0)) if logx else ax, vr[0])
    f = expected(basis, u, C, knots, k, vr) * inside
    if sym:
        f = 0.5 * f
    if not norm:
        return f, None
    Z = integral(basis, C, knots, k, vr)
    f0 = expected(basis, np.array([vr[0], vr[1]]), C, knots, k, vr).sum(1)
    top = f.max(1) * (2 if sym else 1)
    return f / Z[:, None], 2e-3 + (xr[1] - xr[0]) / 999.0 * (f0 + 0.3 * top) / Z


def explore(ctx, name, ns):
    import jax
    import jax.numpy as jnp

    sym = "Symmetric" in name
    for opts, basis, xr, deg, norm in options(name, ctx.thorough):
        for n in ns:
            if n < deg + 1:
                continue
            with ctx.at(model=name, n=n, **{k: str(v) for k, v in opts.items()}):
                logx, logy = KIND[basis]
                vr = tuple(np.log(xr)) if logx else xr
                inner, ends, outer = points(ref.default_knots(n, deg + 1, vr), vr, bool(logx))
                x = np.concatenate([inner, ends, outer])
                x = np.exp(x) if logx else x
                if sym:
                    x = np.concatenate([x, -x])
                m = len(x) // 2 * 2
                x = x[:m]
                kw = dict(opts)
                if "basis" in kw:
                    kw["basis"] = get(kw["basis"])
                xi = x[::-1].copy()
                mod = model(name)(n, jnp.asarray(x.reshape(2, m // 2)), jnp.asarray(xi), **kw)
                C = vectors(n, logy, False) if n <= (5 if ctx.thorough else 4) else vectors(max(n, 6), logy, False)[:, :n]
                C = C[C.sum(1) != 0] if not logy else C
                pe = np.asarray(jax.vmap(lambda c: mod(c))(jnp.asarray(C)), float)
                inj = np.asarray(jax.vmap(lambda c: mod(c, pe_samples=False))(jnp.asarray(C)), float)
                ctx.step(2 * len(C))
                ctx.trace(2 * len(C))
                ctx.front(len(C) * m)
                if not (ctx.check(pe.shape == (len(C), 2, m // 2), "shape for events", observed=pe.shape) and ctx.check(inj.shape == (len(C), m), "shape for injections", observed=inj.shape)):
                    continue
                E, tol = density(basis, x, C, n, deg, xr, norm, sym)
                pe = pe.reshape(len(C), m)
                same = 1e-12 if ctx.x64 else 2e-5
                top = np.abs(E).max(1, keepdims=True)
                ctx.close(inj[:, ::-1] / top, pe / top, "events and injections share one density", rtol=same, atol=same)
                ax = np.abs(x) if sym else x
                out = (ax < xr[0]) | (ax > xr[1])
                ctx.check(np.all(pe[:, out] == 0) and np.all(inj[:, ::-1][:, out] == 0), "exactly zero outside the range")
                rt, at = (1e-9, 1e-9) if ctx.x64 else (3e-3, 4e-3)
                if norm:
                    j = E.argmax(1)
                    const = (pe[np.arange(len(C)), j] / E[np.arange(len(C)), j])[:, None]
                    ctx.close(pe / const / top, E / top, "density up to a constant", rtol=rt, atol=at)
                    bad = ~(np.abs(const[:, 0] - 1) <= tol)
                    ctx.check(not bad.any(), "normalisation", 1.0, const[bad][:3], coefs=C[bad][:1])
                else:
                    ctx.close(pe / top, E / top, "density", rtol=rt, atol=at)
                if sym:
                    h = m // 2
                    ctx.close(pe[:, :h] / top, pe[:, h:] / top, "symmetric", rtol=same, atol=same)
                ctx.outcome((name, basis, n, deg, xr, round(float(np.nansum(pe[:, : m // 2])), 4)))
                ctx.sample(model=name, n=n, basis=basis, xr=xr, vectors=len(C), samples=m)


def independence(ctx, name):
    """The value at a sample does not depend on which other samples the model was built with."""
    import jax.numpy as jnp

    basis, xr = MODELS[name]
    w = xr[1] - xr[0]
    pts = xr[0] + w * np.array([0.03, 0.31, 0.5, 0.77, 0.97, 1.4, -0.3])
    n = 5
    c = jnp.asarray(0.2 + np.array([0.5, 1.0, 0.3, 0.9, 0.1]))
    full = model(name)(n, jnp.asarray(pts), jnp.asarray(pts))
    vpe, vinj = np.asarray(full(c)), np.asarray(full(c, pe_samples=False))
    subsets = [s for r in (1, 2, 3) for s in itertools.combinations(range(len(pts)), r)]
    if not ctx.thorough:
        subsets = subsets[::3]
    for s in subsets:
        with ctx.at(model=name, subset=s):
            s = list(s)
            o = [i for i in range(len(pts)) if i not in s]
            mod = model(name)(n, jnp.asarray(pts[s]), jnp.asarray(pts[o]))
            ctx.step(2)
            ctx.trace(2)
            t = 1e-12 if ctx.x64 else 1e-5
            ctx.close(mod(c), vpe[s], "value at events independent of the others", rtol=t, atol=t)
            ctx.close(mod(c, pe_samples=False), vinj[o], "value at injections independent of the others", rtol=t, atol=t)
    # coefficients given as integers are the same coefficients
    for v in itertools.product((0, 1, 3), repeat=n):
        if sum(v) and (ctx.thorough or sum(v) % 5 == 1):
            with ctx.at(model=name, integers=v):
                for pe in (True, False):
                    ctx.close(full(jnp.asarray(v), pe_samples=pe), np.asarray(full(jnp.asarray(v, float), pe_samples=pe)), "integer coefficients", rtol=1e-6, atol=1e-7)
                ctx.step(4)
                ctx.trace()
    # shapes: 1-D, 2-D, 3-D events; numpy input as good as jax input
    for mk in (np.asarray, jnp.asarray):
        for shp in ((7,), (7, 1), (1, 7), (1, 7, 1)):
            with ctx.at(model=name, shape=shp, mk=mk.__module__):
                mod = model(name)(n, mk(pts.reshape(shp)), mk(pts))
                ctx.step()
                ctx.trace()
                t = 1e-12 if ctx.x64 else 1e-5
                ctx.close(mod(c), vpe.reshape(shp), "any event shape", rtol=t, atol=t)


def shards(tier):
    out = [Shard("large64", ops.large, True, 2, group="splines", tiles=25000 if tier == "thorough" else 6000, one=tuple(MODELS))]
    for name in MODELS:
        out.append(Shard("explore64-" + name, explore, True, 8, name=name, ns=(4, 7) if tier == "quick" else (2, 4, 5, 7, 12, 20)))
        out.append(Shard("explore32-" + name, explore, False, 4, name=name, ns=(5,) if tier == "quick" else (4, 7)))
        out.append(Shard("independence64-" + name, independence, True, 5, name=name))
    return out
