"""C06: spline functions are the stated combination of their basis and integrate to one."""

import itertools

import numpy as np
from checks import ref
from checks.c05 import get, points
from mc.core import Shard

PROPERTY = "C06"
BOUNDS = dict(
    coefficients="every vector over {0,1,3} (linear splines) or {-2,0,1.5} (exponentiated splines) for 4..6 basis functions, plus one-hot and ramp vectors for 8, 12, 20; exponentiated splines also with every 4-vector over a six-letter alphabet up to 500 (75 in 32-bit)",
    types="M-spline, B-spline, log-variable, log-density, log-log; normalised or not; orders 3, 4 (2, 5 thorough); three domains each",
    two_dim="2-D splines with unequal sizes, domains and orders; all one-hot coefficient matrices, ramps, and all {-1,1} signs of a 2x.. corner",
)
ASSUMPTIONS = [
    "the normalisation is numerical in the code: it is compared to 0.2% plus one cell of a 1000-point grid",
    "the shape (up to one common positive constant) is compared to 1e-9 (64-bit)",
]
KIND = dict(BasisSpline=(0, 0), BSpline=(0, 0), LogXBSpline=(1, 0), LogYBSpline=(0, 1), LogXLogYBSpline=(1, 1))
RANGES = {0: ((0, 1), (-1.0, 1.0), (2.0, 100.0)), 1: ((0.1, 1.0), (2.0, 100.0), (0.01, 2.3))}


def vectors(n, logy, thorough):
    al = (-2.0, 0.0, 1.5) if logy else (0.0, 1.0, 3.0)
    if n <= (6 if thorough else 5):
        v = np.array(list(itertools.product(al, repeat=n)))
    else:
        one = np.eye(n) * (2.0 if logy else 1.0)
        ramp = np.linspace(-1 if logy else 0.2, 2, n)
        v = np.vstack([one, -one if logy else one + 0.5, ramp[None], ramp[::-1][None], (np.arange(n) % 2)[None] * 1.0, np.ones((1, n))])
    return v if logy else v[v.sum(1) > 0]


def expected(cls, x, c, knots, k, vr):
    """Unnormalised reference: x in the variable of the spline; c (B, n) -> (B, len(x))."""
    logx, logy = KIND[cls]
    E = ref.bspline(x, knots, k, vr)
    if cls == "BasisSpline":
        E = E * ref.mscale(knots, k)[:, None]
        c = c / c.sum(-1, keepdims=True)
    f = c @ E
    if logy:
        f = np.where((x < vr[0]) | (x > vr[1]), 0.0, np.exp(f))
    return f


def integral(cls, c, knots, k, vr):
    logx = KIND[cls][0]
    inner = np.asarray(knots)[k - 1 : len(knots) - k + 1]
    if logx:
        return ref.integrate(lambda u: expected(cls, u, c, knots, k, vr) * np.exp(u), *vr, breaks=inner)
    return ref.integrate(lambda u: expected(cls, u, c, knots, k, vr), *vr, breaks=inner)


def one_dim(ctx, cls, ks, ns):
    import jax
    import jax.numpy as jnp

    logx, logy = KIND[cls]
    for xr, k, n, norm in itertools.product(RANGES[logx], ks, ns, (True, False)):
        if n < k or (n > 8 and not ctx.thorough and xr != RANGES[logx][-1]):
            continue
        vr = tuple(np.log(xr)) if logx else xr
        C = vectors(n, logy, ctx.thorough)
        with ctx.at(cls=cls, xr=xr, k=k, n=n, normalize=norm):
            sp = get(cls)(n, xrange=xr, k=k, normalize=norm)
            knots = ref.default_knots(n, k, vr)
            inner, ends, outer = points(knots, vr, bool(logx))
            u = np.concatenate([inner, ends, outer])
            x = np.exp(u) if logx else u
            X = jnp.asarray(x)
            B = sp.bases(X)
            got = np.asarray(jax.vmap(lambda c: sp.project(B, c))(jnp.asarray(C)), float)
            ctx.step(len(C))
            ctx.trace(len(C))
            ctx.front(len(C))
            E = expected(cls, u, C, knots, k, vr)
            ni = len(inner) + len(ends)
            if not ctx.check(got.shape == E.shape, "shape", E.shape, got.shape):
                continue
            ctx.check(np.all(got[:, ni:] == 0), "zero outside the domain", observed=got[:, ni:][got[:, ni:] != 0][:3])
            rt, at = (1e-9, 1e-9) if ctx.x64 else (3e-3, 4e-3)
            top = E.max(1, keepdims=True)
            if norm:
                # shape: one common constant, found where the reference is largest
                j = E[:, :ni].argmax(1)
                const = (got[np.arange(len(C)), j] / E[np.arange(len(C)), j])[:, None]
                ctx.check(np.all(const > 0) and np.all(np.isfinite(const)), "positive normalisation", observed=const.min())
                ctx.close(got[:, :ni] / const / top, E[:, :ni] / top, "shape of the normalised spline", rtol=rt, atol=at)
                Z = integral(cls, C, knots, k, vr)
                cell = (xr[1] - xr[0]) / 999.0
                f0 = expected(cls, np.array([vr[0], vr[1]]), C, knots, k, vr).sum(1)
                tol = 2e-3 + cell * (f0 + 0.3 * top[:, 0]) / Z
                bad = np.abs(const[:, 0] * Z - 1) > tol
                ctx.check(not bad.any(), "integrates to one", 1.0, (const[:, 0] * Z)[bad][:3], coefs=C[bad][:1], tol=tol[bad][:1])
                ctx.outcome((cls, xr, k, n, round(float(Z.sum()), 5)))
            else:
                ctx.close(got[:, :ni] / top, E[:, :ni] / top, "value of the unnormalised spline", rtol=rt, atol=at)
            # direct evaluation = evaluation through the design matrix; numpy coefficients are as good
            for i in sorted({len(C) // 3, len(C) - 1}):
                for mk in (np.array, jnp.array):
                    for name, f in (("call", sp), ("eval", sp.eval)) if mk is np.array else (("call", sp),):
                        v = np.asarray(f(X, mk(C[i])), float)
                        ctx.step()
                        ctx.close(v, got[i], "direct evaluation (%s)" % name, rtol=1e-6, atol=1e-7 * top[i, 0])
                m = len(x) // 4 * 4
                v = np.asarray(sp(X[:m].reshape(2, m // 4, 2), jnp.array(C[i])), float)
                ctx.close(v, got[i][:m].reshape(2, m // 4, 2), "any input shape", rtol=1e-6, atol=1e-7 * top[i, 0])
            ctx.sample(cls=cls, n=n, k=k, xr=xr, vectors=len(C))


def scale_invariance(ctx):
    """A normalised linear spline does not depend on the overall scale of its coefficients."""
    import jax.numpy as jnp

    x = jnp.linspace(0.11, 0.99, 23)
    for cls, n, s in itertools.product(("BasisSpline", "BSpline", "LogXBSpline"), (4, 6, 9), (1e-3, 0.1, 7.0, 1e4)):
        with ctx.at(cls=cls, n=n, scale=s):
            sp = get(cls)(n, xrange=(0.1, 1.0), normalize=True)
            c = 0.3 + np.arange(n) % 3
            ctx.step(2)
            ctx.trace()
            ctx.close(sp(x, jnp.asarray(c * s)), sp(x, jnp.asarray(c)), "overall scale drops out", rtol=1e-9 if ctx.x64 else 1e-4)
    for cls, n, s in itertools.product(("LogYBSpline", "LogXLogYBSpline"), (4, 6, 9), (-3.0, 0.5, 10.0)):
        with ctx.at(cls=cls, n=n, shift=s):
            sp = get(cls)(n, xrange=(0.1, 1.0), normalize=True)
            c = -0.7 + 0.5 * (np.arange(n) % 3)
            ctx.step(2)
            ctx.trace()
            ctx.close(sp(x, jnp.asarray(c + s)), sp(x, jnp.asarray(c)), "overall offset drops out", rtol=1e-9 if ctx.x64 else 1e-3)


def steep(ctx, cls):
    """Exponentiated splines whose logarithm is large: every vector over a wide alphabet."""
    import jax
    import jax.numpy as jnp

    logx = KIND[cls][0]
    al = (-60.0, -5.0, 0.0, 25.0, 60.0, 75.0) if not ctx.x64 else (-300.0, -60.0, 0.0, 40.0, 90.0, 500.0)
    for k, n, norm in itertools.product((3, 4) if ctx.x64 else (4,), (4,), (False, True)):
        xr = (0.1, 1.0)
        vr = tuple(np.log(xr)) if logx else xr
        C = np.array(list(itertools.product(al, repeat=n)))
        with ctx.at(cls=cls, k=k, n=n, normalize=norm):
            sp = get(cls)(n, xrange=xr, k=k, normalize=norm)
            knots = ref.default_knots(n, k, vr)
            inner, ends, outer = points(knots, vr, bool(logx))
            u = np.concatenate([inner, ends])
            B = sp.bases(jnp.asarray(np.exp(u) if logx else u))
            got = np.asarray(jax.vmap(lambda c: sp.project(B, c))(jnp.asarray(C)), float)
            with np.errstate(all="ignore"):
                lg = np.log(got)
            E = C @ ref.bspline(u, knots, k, vr)
            ctx.step(len(C))
            ctx.trace(len(C))
            ctx.front(len(C))
            floor = -700 if ctx.x64 else -80
            if norm:
                j = E.argmax(1)
                c0 = lg[np.arange(len(C)), j] - E[np.arange(len(C)), j]
                ctx.check(np.all(np.isfinite(c0)), "finite normalisation of a steep spline", observed=C[~np.isfinite(c0)][:1])
                E = E + c0[:, None]
            ctx.close(lg, E, "logarithm of a steep spline", rtol=1e-9 if ctx.x64 else 2e-4, atol=1e-8 if ctx.x64 else 0.2, mask=E > floor)


def fit(ctx):
    """Coefficients fitted to data lying in the span are recovered."""
    import jax.numpy as jnp

    for cls, n, k in itertools.product(("BSpline", "BasisSpline", "LogXBSpline"), (4, 5, 7), (3, 4)):
        xr = (0.1, 1.0)
        C = vectors(n, False, False)
        C = C[:: max(1, len(C) // 40)]
        with ctx.at(cls=cls, n=n, k=k):
            sp = get(cls)(n, xrange=xr, k=k, normalize=False)
            x = np.linspace(0.11, 0.99, 41)
            vr = tuple(np.log(xr)) if cls.startswith("LogX") else xr
            E = ref.bspline(np.log(x) if cls.startswith("LogX") else x, ref.default_knots(n, k, vr), k, vr)
            if cls == "BasisSpline":
                E = E * ref.mscale(ref.default_knots(n, k, vr), k)[:, None]
            for c in C:
                a, y, dm = sp.get_coefficients(jnp.asarray(x), jnp.asarray(c @ E))
                ctx.step()
                ctx.trace()
                # the normal equations: twice the digits of the design matrix's condition number
                t = 1e-13 * np.linalg.cond(E) ** 2 + 1e-11
                ctx.close(a, c, "fitted coefficients", rtol=t, atol=t * np.abs(c).max())
                ctx.close(y, c @ E, "fitted values", rtol=t, atol=t * np.abs(c @ E).max())


def two_dim(ctx, xdf, ydf, kx, ky, xr, yr, xb, yb, norm):
    import jax
    import jax.numpy as jnp
    from gwinferno.interpolation import RectBivariateBasisSpline

    with ctx.at(xdf=xdf, ydf=ydf, kx=kx, ky=ky, xr=xr, yr=yr, xb=xb, yb=yb, normalize=norm):
        sp = RectBivariateBasisSpline(xdf, ydf, xrange=xr, yrange=yr, kx=kx, ky=ky, xbasis=get(xb), ybasis=get(yb), normalize=norm)
        lx, ly = KIND[xb][0], KIND[yb][0]
        vx, vy = (tuple(np.log(xr)) if lx else xr), (tuple(np.log(yr)) if ly else yr)
        tx, ty = ref.default_knots(xdf, kx, vx), ref.default_knots(ydf, ky, vy)
        fx, fy = (np.log if lx else (lambda v: v)), (np.log if ly else (lambda v: v))
        eps = 1e-4
        gx = np.linspace(xr[0] + eps, xr[1] - eps, 13)
        gy = np.linspace(yr[0] + eps, yr[1] - eps, 11)
        XX, YY = (a.ravel() for a in np.meshgrid(gx, gy, indexing="ij"))
        B = sp.bases(jnp.asarray(XX), jnp.asarray(YY))
        EB = ref.bspline(fx(XX), tx, kx, vx)[:, None, :] * ref.bspline(fy(YY), ty, ky, vy)[None, :, :]
        ctx.close(B, EB, "2-D design matrix", rtol=1e-9 if ctx.x64 else 3e-3, atol=1e-9 if ctx.x64 else 3e-3)
        m = len(XX)
        B2 = sp.bases(jnp.asarray(XX.reshape(13, 11)), jnp.asarray(YY.reshape(13, 11)))
        ctx.close(B2, EB.reshape(xdf, ydf, 13, 11), "2-D design matrix of 2-D input", rtol=1e-9 if ctx.x64 else 3e-3, atol=1e-9 if ctx.x64 else 3e-3)
        C = [s * np.eye(xdf * ydf)[i].reshape(xdf, ydf) for i in range(xdf * ydf) for s in (1.0, -1.5)]
        C += [np.add.outer(np.linspace(0, 1, xdf), np.linspace(-1, 2, ydf)), np.zeros((xdf, ydf)), np.ones((xdf, ydf))]
        for s in itertools.product((-1.0, 1.0), repeat=4):
            c = np.zeros((xdf, ydf))
            c[0, 0], c[0, -1], c[-1, 0], c[-1, -1] = s
            C.append(c)
        C = np.array(C)
        if norm:
            C = C[:: 1 if ctx.thorough else 3]
        got = np.array([np.asarray(sp.project(B, jnp.asarray(c)), float) for c in C])
        ctx.step(len(C))
        ctx.trace(len(C))
        ctx.front(len(C) * m)
        E = np.exp(np.einsum("bij,ijx->bx", C, EB))
        if not norm:
            ctx.close(got, E, "2-D value", rtol=1e-9 if ctx.x64 else 5e-3)
        else:
            const = got[:, :1] / E[:, :1]
            ctx.close(got / const, E, "2-D shape", rtol=1e-8 if ctx.x64 else 5e-3)
            # integrate the reference by tensor Gauss-Legendre per knot cell
            u, w = np.polynomial.legendre.leggauss(10)

            def nodes(t, k, lg):
                e = np.asarray(t)[k - 1 : len(t) - k + 1]
                xs = np.concatenate([0.5 * (b - a) * u + 0.5 * (a + b) for a, b in zip(e[:-1], e[1:])])
                ws = np.concatenate([0.5 * (b - a) * w for a, b in zip(e[:-1], e[1:])])
                return (xs, ws * np.exp(xs)) if lg else (xs, ws)

            nx, wx = nodes(tx, kx, lx)
            ny, wy = nodes(ty, ky, ly)
            G = np.exp(np.einsum("bij,ix,jy->bxy", C, ref.bspline(nx, tx, kx, vx), ref.bspline(ny, ty, ky, vy)))
            Z = np.einsum("bxy,x,y->b", G, wx, wy)
            ctx.close(const[:, 0] * Z, np.ones(len(C)), "2-D integral is one", rtol=0, atol=6e-3)
        ctx.sample(xdf=xdf, ydf=ydf, matrices=len(C))


def shards(tier):
    th = tier == "thorough"
    out = []
    for cls in KIND:
        out.append(Shard("one64-%s-a" % cls, one_dim, True, 5, cls=cls, ks=(4,), ns=(4, 5, 8) + ((6, 12, 20) if th else (12,))))
        out.append(Shard("one64-%s-b" % cls, one_dim, True, 3, cls=cls, ks=(3,) + ((2, 5) if th else ()), ns=(4, 5) + ((6, 7, 12) if th else ())))
        out.append(Shard("one32-%s" % cls, one_dim, False, 2, cls=cls, ks=(4,), ns=(4, 5) + ((8, 12) if th else ())))
    out += [Shard("scale64", scale_invariance, True, 2), Shard("scale32", scale_invariance, False, 2), Shard("fit64", fit, True, 3)]
    out += [Shard("steep%s-%s" % ("64" if x else "32", c), steep, x, 3, cls=c) for x in (True, False) for c in ("LogYBSpline", "LogXLogYBSpline")]
    two = [
        (4, 5, 4, 4, (0, 1), (0, 2.0), "BSpline", "BSpline"),
        (5, 4, 3, 4, (-1.0, 1.0), (2.0, 5.0), "BSpline", "BSpline"),
        (4, 6, 4, 3, (2.0, 50.0), (0, 1), "LogXBSpline", "BSpline"),
    ]
    for i, t in enumerate(two):
        for norm in (False, True):
            kw = dict(zip(("xdf", "ydf", "kx", "ky", "xr", "yr", "xb", "yb"), t), norm=norm)
            out.append(Shard("two64-%d-%d" % (i, norm), two_dim, True, 5 if norm else 2, **kw))
            if not norm:
                out.append(Shard("two32-%d-%d" % (i, norm), two_dim, False, 2, **kw))
    return out
