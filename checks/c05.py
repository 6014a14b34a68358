"""C05: B-spline bases follow the Cox-de Boor definition and partition unity on their domain."""

import numpy as np
from checks import ref
from mc.core import Shard, product

PROPERTY = "C05"
BOUNDS = dict(
    bases="number of basis functions order..12 and 16, 20, 30, 48 (thorough: all up to 40, 60), orders 2..8, five domains (and narrow, wide and densely covered ones, knot spacings 1e-3 to 1e3), normalised or not, linear and logarithmic variable",
    knots="equally spaced, caller's knots, caller's interior knots (all spacings over {1,2,4}-ratios within bounds)",
    points="every knot, its neighbours, mid and third points, both ends and their outer neighbours, far outside; 1-D, 2-D, 3-D and integer arrays",
)
ASSUMPTIONS = [
    "order one (piecewise constant) is excluded: it is undefined at the right end",
    "with a logarithmic variable the exact end points are approached but not hit (rounding of the logarithm)",
    "caller's interior knots do not determine how the knots continue outside the domain, so only what they determine is judged",
]
RANGES = ((0, 1), (2.0, 100.0), (-1.0, 1.0), (-0.5, 3.5), (1e-3, 2.3))


def points(knots, xr, log=False):
    """Lattice around every knot inside the domain, and outside it."""
    t = np.asarray(knots)
    t = t[(t >= xr[0] - 1e-12) & (t <= xr[1] + 1e-12)]
    d = np.diff(t)
    d = d[d > 0].min()
    w = xr[1] - xr[0]
    inner = np.concatenate([t[:-1] + f * np.diff(t) for f in (0, 1e-5, 1 / 3, 0.5, 2 / 3, 1 - 1e-5)] + [[xr[0] + 1e-6 * d, xr[1] - 1e-6 * d]])
    inner = inner[(inner > xr[0]) & (inner < xr[1])]
    ends = np.array([] if log else [xr[0], xr[1]])
    outer = np.array([xr[0] - 1e-3 * w, xr[1] + 1e-3 * w, xr[0] - 0.5 * d, xr[1] + 0.5 * d, xr[0] - d, xr[1] + d, xr[0] - 3 * w, xr[1] + 3 * w])
    return np.sort(inner), ends, outer


def get(cls):
    from gwinferno import interpolation

    return getattr(interpolation, cls)


def judge(ctx, sp, cls, n, k, xr, knots, B, inner, ends, outer, exact=True, only=None):
    """B: observed basis at (inner, ends, outer) in the variable of the spline."""
    x = np.concatenate([inner, ends, outer])
    E = ref.bspline(x, knots, k, xr)
    sc = ref.mscale(knots, k)[:, None] if cls == "BasisSpline" else 1.0
    rt, at = (1e-9, 1e-9) if ctx.x64 else (2e-3, 3e-3)
    top = np.max(sc)
    ni = len(inner) + len(ends)
    B = np.asarray(B)
    if not ctx.check(B.shape == (n,) + x.shape, "shape", [n, len(x)], B.shape):
        return
    ctx.check(np.all(B[:, ni:] == 0.0), "exactly zero outside the domain", observed=B[:, ni:][B[:, ni:] != 0][:3])
    ctx.check(np.all(np.isfinite(B)), "finite")
    I = B[:, :ni]
    ctx.check(np.all(I >= -at * top), "non-negative inside the domain", observed=I.min())
    if only is None:
        ctx.close(I, (E * sc)[:, :ni], "basis value", rtol=rt, atol=at * top)
    else:
        for i in only:
            ctx.close(I[i], (E * sc)[i, :ni] if np.ndim(sc) else E[i, :ni], "basis value %d" % i, rtol=rt, atol=at * top)
    if cls != "BasisSpline":
        ctx.close(I.sum(0), np.ones(ni), "partition of unity", rtol=0, atol=at * 10)
        ctx.check(np.all((I > 10 * at).sum(0) <= k), "at most order-many nonzero", k, (I > 10 * at).sum(0).max())
    else:
        if only is None:
            ctx.close((I / sc).sum(0), np.ones(ni), "partition of unity of the rescaled basis", rtol=0, atol=at * 10)
    ctx.outcome((cls, n, k, xr, round(float(I.sum()), 6)))
    ctx.front(len(x) * n)


def uniform(ctx, cls, ns, ks, ranges):
    import jax.numpy as jnp

    for c in product(k=ks, n=ns, xr=ranges, normalize=(False, True)):
        k, n, xr = c["k"], c["n"], c["xr"]
        if n < k or (c["normalize"] and n > 12):
            continue
        if not ctx.thorough and ((n > 12 and (xr != ranges[-1] or k >= 5)) or (c["normalize"] and n > max(8, k)) or (k >= 5 and n > max(9, k + 1))):
            continue
        with ctx.at(cls=cls, **c):
            log = cls.startswith("LogX")
            sp = get(cls)(n, xrange=xr, k=k, normalize=c["normalize"])
            vr = tuple(np.log(xr)) if log else xr
            knots = ref.default_knots(n, k, vr)
            inner, ends, outer = points(knots, vr, log)
            if ctx.x64 and not log:
                outer = np.concatenate([outer, [vr[0] - 1e-12 * (vr[1] - vr[0]), vr[1] + 1e-12 * (vr[1] - vr[0])]])
            x = np.concatenate([inner, ends, outer])
            x = np.exp(x) if log else x
            B = sp.bases(jnp.asarray(x))
            ctx.step()
            ctx.trace(len(x))
            judge(ctx, sp, cls, n, k, vr, knots, B, inner, ends, outer)
            if n <= 6 and not c["normalize"] and (ctx.thorough or xr == ranges[0]):  # the shape of the input follows the basis axis; numpy input is as good
                m = len(x) // 4 * 4
                for shp in ((m // 2, 2), (2, m // 4, 2), (1, m), (m, 1)):
                    for mk in (jnp.asarray, np.asarray):
                        Bs = sp.bases(mk(x[:m].reshape(shp)))
                        ctx.step()
                        ctx.close(Bs, np.asarray(B)[:, :m].reshape((n,) + shp), "any input shape", rtol=1e-6, atol=1e-12)
            ctx.sample(cls=cls, n=n, k=k, xr=xr, points=len(x))


def integers(ctx):
    import jax.numpy as jnp

    for cls in ("BSpline", "BasisSpline"):
        for n, k, xr in ((5, 4, (0, 6)), (7, 3, (-3, 9)), (4, 2, (2, 20)), (8, 4, (1, 3))):
            with ctx.at(cls=cls, n=n, k=k, xr=xr):
                sp = get(cls)(n, xrange=xr, k=k)
                xi = np.arange(xr[0] - 3, xr[1] + 4)
                for mk in (np.asarray, jnp.asarray):
                    B = np.asarray(sp.bases(mk(xi)))
                    ctx.step()
                    ctx.trace(len(xi))
                    E = ref.bspline(xi, ref.default_knots(n, k, xr), k, xr)
                    if cls == "BasisSpline":
                        E = E * ref.mscale(ref.default_knots(n, k, xr), k)[:, None]
                    ctx.close(B, E, "integer points", rtol=1e-9 if ctx.x64 else 1e-3, atol=1e-9 if ctx.x64 else 1e-3)


def spacings(m, ratios):
    import itertools

    return itertools.product(ratios, repeat=m)


def own_knots(ctx, cls, k):
    """The caller's knots and interior knots over every spacing pattern."""
    import jax.numpy as jnp

    log = cls.startswith("LogX")
    for xr in ((0.0, 1.0), (2.0, 50.0)) if not log else ((0.5, 2.0), (2.0, 50.0)):
        vr = tuple(np.log(xr)) if log else xr
        for m in (2, 3, 4) if ctx.thorough else (2, 3):
            for sp_ in spacings(m, (1, 2, 4)):
                t = np.concatenate([[0], np.cumsum(sp_)])
                t = vr[0] + (vr[1] - vr[0]) * t / t[-1]
                t[-1] = vr[1]
                n = len(t) + k - 2
                user = np.exp(t) if log else t
                with ctx.at(cls=cls, k=k, xr=xr, spacing=sp_):
                    # interior knots
                    sp = get(cls)(n, interior_knots=user, xrange=xr, k=k, normalize=False)
                    inner, ends, outer = points(t, vr, log)
                    x = np.concatenate([inner, ends, outer])
                    B = sp.bases(jnp.asarray(np.exp(x) if log else x))
                    kn = ref.default_knots(n, k, vr, t)
                    only = range(n) if k == 2 and cls != "BasisSpline" else range(k - 1, n - k + 1)
                    ctx.step(2)
                    ctx.trace(2 * len(x))
                    judge(ctx, sp, cls, n, k, vr, kn, B, inner, ends, outer, only=only)
                    # full knots, continued outside in a caller-chosen uneven way
                    left = vr[0] - np.cumsum(np.arange(1, k) * 0.1 * (vr[1] - vr[0]))[::-1]
                    right = vr[1] + np.cumsum((1 + np.arange(k - 1)) * 0.07 * (vr[1] - vr[0]))
                    full = np.concatenate([left, t, right])
                    sp = get(cls)(n, knots=np.exp(full) if log else full, xrange=xr, k=k, normalize=False)
                    B = sp.bases(jnp.asarray(np.exp(x) if log else x))
                    judge(ctx, sp, cls, n, k, vr, full, B, inner, ends, outer)


def shards(tier):
    th = tier == "thorough"
    ns = list(range(2, 13)) + ([16, 20, 30, 48] if not th else list(range(13, 41)) + [60])
    out = []
    pos = tuple(r for r in RANGES if r[0] > 0)
    for cls in ("BSpline", "BasisSpline", "LogXBSpline"):
        for k in (2, 3, 4, 5):
            rs = pos if cls.startswith("LogX") else RANGES
            out.append(Shard("uniform64-%s-%d" % (cls, k), uniform, True, 2.0**k / (2 if cls.startswith("LogX") else 1), cls=cls, ns=ns, ks=(k,), ranges=rs))
            if th or k in (3, 4):
                out.append(Shard("uniform32-%s-%d" % (cls, k), uniform, False, 2.0**k / 6, cls=cls, ns=(k, k + 1, 7, 12), ks=(k,), ranges=rs))
        for k in (2, 3, 4):
            out.append(Shard("knots64-%s-%d" % (cls, k), own_knots, True, 2.0 * k, cls=cls, k=k))
        out.append(Shard("high64-%s" % cls, uniform, True, 16, cls=cls, ns=(6, 7, 8, 9, 12) if th else (6, 7, 8, 9), ks=(6, 7, 8), ranges=(pos if cls.startswith("LogX") else RANGES)[:: 1 if th else 2]))
    # narrow and wide domains, and many functions on an ordinary domain (knot spacings from 1e-3 to 1e3)
    for cls in ("BSpline", "BasisSpline", "LogXBSpline"):
        rs = ((1.0, 1.02), (5.0, 5.3), (1e-2, 1e3)) if cls.startswith("LogX") else ((0.0, 0.02), (0.3, 0.5), (-2e3, 7e3))
        out.append(Shard("scales64-%s" % cls, uniform, True, 8, cls=cls, ns=(3, 4, 7, 9), ks=(2, 3, 4), ranges=rs))
        out.append(Shard("many64-%s" % cls, uniform, True, 12, cls=cls, ns=(90, 150) if th else (120,), ks=(3, 4) if th else (4,), ranges=((1.0, 3.0),)))
    out += [Shard("integers64", integers, True, 1), Shard("integers32", integers, False, 1)]
    return out
