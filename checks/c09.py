"""C09: joint spline models are exact products of their one-dimensional factors."""

import itertools

import numpy as np
from checks import dens
from checks.c08 import density
from mc.core import Shard

PROPERTY = "C09"
BOUNDS = dict(
    models="all ten joint models: identical/independent spin magnitudes, tilts and component masses; spline primary with power-law ratio; power law plus peak with spline ratio; spline primary and ratio; effective spins",
    options="default options, explicit ranges and degrees for one factor, the other, both, and shared",
    coefficients="all pairs over a set of distinguishable coefficient vectors per factor; pairing powers {-2,0,1,2.5}",
    samples="all pairs of inside/outside/edge values of the two parameters, 1-D and 2-D events",
)
ASSUMPTIONS = ["normalisation constants of the factors are numerical in the code and compared as in C08; everything else is compared to 1e-9"]


def S():
    from gwinferno.models.bsplines import separable

    return separable


def grid(a, b, shape2=True):
    A, B = (v.ravel() for v in np.meshgrid(a, b, indexing="ij"))
    return A, B


def cvec(n, logy, i):
    """distinguishable coefficient vectors"""
    base = [np.linspace(0.2, 1.5, n), np.linspace(1.1, 0.1, n) ** 2 + 0.1, 0.3 + (np.arange(n) % 2), np.eye(n)[n // 2] + 0.05, np.eye(n)[0] + 0.1]
    v = base[i % len(base)]
    return v * 1.3 - 0.7 if logy else v


def compare(ctx, got, fs, extra, what):
    """fs: list of (reference density (X,), tolerance of its constant or None)."""
    E = extra.copy() if isinstance(extra, np.ndarray) else np.asarray(extra, float)
    t = 0.0
    for f, tol in fs:
        E = E * f[0]
        t += 0 if tol is None else float(tol[0])
    got = np.asarray(got, float)
    ctx.comparisons += got.size
    if got.shape != E.shape:
        return ctx.fail(what + ": shape", E.shape, got.shape)
    top = np.abs(E).max()
    rt, at = (1e-9, 1e-10) if ctx.x64 else (6e-3, 5e-3)
    if t:
        j = int(np.abs(E).argmax())
        const = got[j] / E[j]
        ctx.check(abs(const - 1) <= t * 1.2 + (0 if ctx.x64 else 5e-3), what + ": normalisation", 1.0, const)
        if not (np.isfinite(const) and const > 0):
            return
        got = got / const
    ctx.close(got / top, E / top, what, rtol=rt, atol=at)
    ctx.check(np.all(got[E == 0] == 0), what + ": zero outside")
    ctx.outcome((what, round(float(E.sum()), 5)))


RANGE0 = dict(mag=(0.0, 1.0), tilt=(-1.0, 1.0), mass=(2.0, 100.0), eff=(-1.0, 1.0), p=(0.0, 1.0))
BASIS = dict(mag="LogYBSpline", tilt="LogYBSpline", mass="LogXLogYBSpline", eff="BSpline", p="BSpline", q="LogYBSpline")
NORM = dict(LogYBSpline=True, LogXLogYBSpline=True, BSpline=False)
VALS = dict(
    mag=np.array([-0.1, 0.0, 0.13, 0.4, 0.77, 1.0, 1.2]),
    tilt=np.array([-1.3, -1.0, -0.6, 0.1, 0.7, 1.0, 1.01]),
    mass=np.array([1.0, 2.3, 4.0, 9.0, 33.0, 77.0, 130.0]),
    eff=np.array([-1.2, -1.0, -0.55, 0.02, 0.5, 0.9, 1.5]),
    p=np.array([-0.2, 0.0, 0.2, 0.55, 0.8, 1.0, 1.3]),
    q=np.array([0.001, 0.02, 0.06, 0.3, 0.71, 1.0, 1.2]),
)


SHAPES = ((7, 7), (49,))  # a catalog of events, and the samples of a single event


def ref1(kind, x, c, n, xr=None, deg=3, norm=None):
    b = BASIS[kind]
    return density(b, x, np.asarray(c)[None], n, deg, xr or RANGE0[kind], NORM[b] if norm is None else norm, False)


def both(mod_call, x1, x2, shape2):
    """evaluate events and injections; events were given in 2-D if shape2."""
    pe = np.asarray(mod_call(True), float)
    return pe.ravel(), np.asarray(mod_call(False), float)


def pair(ctx, cls, k1, k2, iid):
    """magnitudes, tilts, masses, effective spins: two spline factors."""
    import jax.numpy as jnp

    x1, x2 = grid(VALS[k1], VALS[k2])
    m = len(x1)
    perm = np.roll(np.arange(m), 5)
    i1, i2 = x1[perm], x2[perm]
    r1 = {"mag": (0.1, 0.8), "tilt": (-0.9, 0.6), "mass": (3.0, 60.0), "eff": (-0.6, 0.8), "p": (0.05, 0.9)}
    names = dict(BSplineEffectiveSpinDims=("kwargs_e", "kwargs_p")).get(cls, ("kwargs1", "kwargs2"))
    opts = []
    if iid:
        opts = [({}, {}, {}), (dict(xrange=r1[k1]), dict(xr=r1[k1]), dict(xr=r1[k1])), (dict(degree=2), dict(deg=2), dict(deg=2)), (dict(normalize=False), dict(norm=False), dict(norm=False))]
        if k1 == "mass":
            opts += [(dict(mmin=3.0, mmax=50.0), dict(xr=(3.0, 50.0)), dict(xr=(3.0, 50.0)))]
    else:
        opts = [
            ({}, {}, {}),
            ({names[0]: dict(xrange=r1[k1])}, dict(xr=r1[k1]), {}),
            ({names[1]: dict(xrange=r1[k2])}, {}, dict(xr=r1[k2])),
            ({names[0]: dict(degree=2), names[1]: dict(xrange=r1[k2])}, dict(deg=2), dict(xr=r1[k2])),
            ({names[0]: dict(normalize=False), names[1]: dict(normalize=True)}, dict(norm=False), dict(norm=True)),
            (dict(degree=2), dict(deg=2), dict(deg=2)),
            ({names[1]: dict(degree=2), "normalize": True}, dict(norm=True), dict(deg=2, norm=True)),
        ]
        if k1 == "mass":
            opts += [(dict(mmin1=3.0, mmax1=80.0, mmin2=2.5, mmax2=50.0), dict(xr=(3.0, 80.0)), dict(xr=(2.5, 50.0)))]
            opts += [(dict(mmin2=4.5), {}, dict(xr=(4.5, 100.0))), (dict(mmax1=40.0), dict(xr=(2.0, 40.0)), {})]
    sizes = ((5, 5),) if iid else ((5, 7), (6, 4))
    ncoef = 5 if ctx.thorough else 3
    for ((o, a1, a2), (n1, n2)), shape in itertools.product(itertools.product(opts, sizes), SHAPES):
        if shape == SHAPES[1] and o:
            continue
        with ctx.at(model=cls, opts={k: str(v) for k, v in o.items()}, n=(n1, n2), shape=shape):
            arrays = [jnp.asarray(v) for v in (x1.reshape(shape), x2.reshape(shape), i1, i2)]
            mod = getattr(S(), cls)(*((n1,) if iid else (n1, n2)), *arrays, **o)
            betas = (None, -2.0, 0.0, 1.0, 2.5) if k1 == "mass" else (None,)
            for u, v, b in itertools.product(range(ncoef), range(ncoef), betas):
                if iid and v:
                    continue
                l1, l2 = "LogY" in BASIS[k1], "LogY" in BASIS[k2]
                c1 = cvec(n1, l1, u)
                c2 = c1 if iid else cvec(n2, l2, v)
                args = [jnp.asarray(c1)] if iid else [jnp.asarray(c1), jnp.asarray(c2)]
                kw = {} if b is None else dict(beta=b)
                pe, inj = np.asarray(mod(*args, **kw), float), np.asarray(mod(*args, pe_samples=False, **kw), float)
                ctx.step(2)
                ctx.trace(2)
                ctx.front(2 * m)
                ctx.check(pe.shape == shape, "event shape", shape, pe.shape)
                for what, got, y1, y2 in (("events", pe.ravel(), x1, x2), ("injections", inj, i1, i2)):
                    q = y2 / y1
                    ex = np.ones(m) if b is None else q**b
                    if k1 == "mass" and iid:
                        ex = np.where(q > 1, 0.0, ex)
                    compare(ctx, got, [ref1(k1, y1, c1, n1, **a1), ref1(k2, y2, c2, n2, **a2)], ex, what)
            ctx.sample(model=cls, opts={k: str(v) for k, v in o.items()})


def primary_powerlaw_ratio(ctx):
    import jax.numpy as jnp

    m1, q = grid(VALS["mass"], VALS["q"])
    perm = np.roll(np.arange(len(m1)), 9)
    cases = (({}, (2.0, 100.0), 3), (dict(mmin=3.5, mmax=60.0), (3.5, 60.0), 3), (dict(degree=2, mmax=80.0), (2.0, 80.0), 2))
    for (o, xr, deg), sh in itertools.product(cases, SHAPES):
        if sh == SHAPES[1] and o:
            continue
        mod = S().BSplinePrimaryPowerlawRatio(6, jnp.asarray(m1.reshape(sh)), jnp.asarray(m1[perm]), **o)
        for i, beta, mmin in itertools.product(range(3), (-2.0, -1.0, 0.0, 1.5), (1.0, 2.0, 3.3)):
            with ctx.at(opts=str(o), shape=sh, coef=i, beta=beta, mmin=mmin):
                c = cvec(6, True, i)
                for what, g, y, qq in (
                    ("events", mod(jnp.asarray(m1.reshape(sh)), jnp.asarray(q.reshape(sh)), beta, mmin, jnp.asarray(c)), m1, q),
                    ("injections", mod(jnp.asarray(m1[perm]), jnp.asarray(q[perm]), beta, mmin, jnp.asarray(c), pe_samples=False), m1[perm], q[perm]),
                ):
                    ctx.step()
                    ctx.trace()
                    g = np.asarray(g, float).ravel()
                    pq = dens.powerlaw(qq, beta, mmin / y, 1.0)
                    ok = y > mmin * (1 + 1e-9)  # below the minimum mass no ratio is allowed
                    pq = np.where(ok, pq, 0.0)
                    compare(ctx, np.where(np.isfinite(g) | ok, g, 0.0), [ref1("mass", y, c, 6, xr=xr, deg=deg)], pq, what)


def plpeak_ratio(ctx):
    import jax.numpy as jnp

    m1, q = grid(VALS["mass"], VALS["q"])
    perm = np.roll(np.arange(len(m1)), 9)
    cases = (({}, (0.0, 1.0), 3), (dict(qmin=0.05), (0.05, 1.0), 3), (dict(degree=2), (0.0, 1.0), 2))
    for (o, xr, deg), sh in itertools.product(cases, SHAPES):
        if sh == SHAPES[1] and o:
            continue
        mod = S().PLPeakPrimaryBSplineRatio(5, jnp.asarray(q.reshape(sh)), jnp.asarray(q[perm]), **o)
        for i, al, (lo, hi), lam in itertools.product(range(3), (-3.0, 0.5), ((2.1, 90.0), (5.0, 60.0)), (0.0, 0.3, 1.0)):
            with ctx.at(opts=str(o), shape=sh, coef=i, alpha=al, lo=lo, hi=hi, lam=lam):
                c = cvec(5, True, i)
                for what, g, y, qq in (
                    ("events", mod(jnp.asarray(m1.reshape(sh)), al, lo, hi, 33.0, 4.0, lam, jnp.asarray(c)), m1, q),
                    ("injections", mod(jnp.asarray(m1[perm]), al, lo, hi, 33.0, 4.0, lam, jnp.asarray(c), pe_samples=False), m1[perm], q[perm]),
                ):
                    ctx.step()
                    ctx.trace()
                    compare(ctx, np.asarray(g, float).ravel(), [ref1("q", qq, c, 5, xr=xr, deg=deg)], dens.plpeak(y, al, lo, hi, 33.0, 4.0, lam), what)


def primary_ratio(ctx):
    import jax.numpy as jnp

    m1, q = grid(VALS["mass"], VALS["q"])
    perm = np.roll(np.arange(len(m1)), 9)
    for o, am, aq in (
        ({}, dict(xr=(3.0, 100.0)), dict(xr=(0.03, 1.0))),
        (dict(mmax=80.0, m1min=5.0, m2min=2.0), dict(xr=(5.0, 80.0)), dict(xr=(0.025, 1.0))),
        (dict(kwargs_m=dict(degree=2)), dict(xr=(3.0, 100.0), deg=2), dict(xr=(0.03, 1.0))),
        (dict(kwargs_q=dict(degree=2, normalize=False)), dict(xr=(3.0, 100.0)), dict(xr=(0.03, 1.0), deg=2, norm=False)),
        (dict(degree=2, kwargs_q=dict(xrange=(0.1, 0.9))), dict(xr=(3.0, 100.0), deg=2), dict(xr=(0.1, 0.9), deg=2)),
        (dict(kwargs_m=dict(xrange=(4.0, 70.0))), dict(xr=(4.0, 70.0)), dict(xr=(0.03, 1.0))),
    ):
        for (nm, nq), sh in itertools.product(((6, 5), (4, 7)), SHAPES):
            if sh == SHAPES[1] and o:
                continue
            mod = S().BSplinePrimaryBSplineRatio(nm, nq, jnp.asarray(m1.reshape(sh)), jnp.asarray(m1[perm]), jnp.asarray(q.reshape(sh)), jnp.asarray(q[perm]), **o)
            for i, j in itertools.product(range(3), repeat=2):
                with ctx.at(opts=str(o), shape=sh, n=(nm, nq), coef=(i, j)):
                    cm, cq = cvec(nm, True, i), cvec(nq, True, j)
                    for what, g, y, qq in (
                        ("events", mod(jnp.asarray(cm), jnp.asarray(cq)), m1, q),
                        ("injections", mod(jnp.asarray(cm), jnp.asarray(cq), pe_samples=False), m1[perm], q[perm]),
                    ):
                        ctx.step()
                        ctx.trace()
                        compare(ctx, np.asarray(g, float).ravel(), [ref1("mass", y, cm, nm, **am), ref1("q", qq, cq, nq, **aq)], np.ones(len(y)), what)


PAIRS = (
    ("BSplineIIDSpinMagnitudes", "mag", "mag", True),
    ("BSplineIndependentSpinMagnitudes", "mag", "mag", False),
    ("BSplineIIDSpinTilts", "tilt", "tilt", True),
    ("BSplineIndependentSpinTilts", "tilt", "tilt", False),
    ("BSplineIIDComponentMasses", "mass", "mass", True),
    ("BSplineIndependentComponentMasses", "mass", "mass", False),
    ("BSplineEffectiveSpinDims", "eff", "p", False),
)


def shards(tier):
    out = []
    for x in (True, False):
        b = "64" if x else "32"
        if not x and tier == "quick":
            out += [Shard("pair32-" + p[0], pair, False, 4, cls=p[0], k1=p[1], k2=p[2], iid=p[3]) for p in PAIRS[:1] + PAIRS[6:]]
            continue
        for cls, k1, k2, iid in PAIRS:
            out.append(Shard("pair%s-%s" % (b, cls), pair, x, (4 if iid else 8) * (2 if k1 == "mass" else 1), cls=cls, k1=k1, k2=k2, iid=iid))
        out += [Shard("ratio1-" + b, primary_powerlaw_ratio, x, 4), Shard("ratio2-" + b, plpeak_ratio, x, 4), Shard("ratio3-" + b, primary_ratio, x, 6)]
    return out
