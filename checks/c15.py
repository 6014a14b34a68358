"""C15: effective-spin priors are the exact push-forward of isotropic or aligned spins."""

import itertools

import numpy as np
from mc.core import Shard

PROPERTY = "C15"
BOUNDS = dict(
    lattice="mass ratios {0.05..1} x maximum spins {0.3, 0.5, 0.8, 0.99, 1} x effective spins at, next to and between all case boundaries of the closed form, both signs, outside the range",
    shapes="scalars, 1-D, 2-D and broadcast arrays of effective spins and mass ratios; every ordered pair and triple of lattice cases within one array",
    conditional="precession given effective spin: 3 mass ratios x 4 effective spins x 2 maximum spins, fixed numpy streams, against a deterministic integral",
)
ASSUMPTIONS = [
    "exactly at a case boundary the code averages the two sides: judged to 1e-3",
    "the conditional precession prior is a kernel density estimate of random draws: its distribution function is judged to 0.06 (0.09 for vanishing effective spin, where the density jumps at the edge)",
]
QS = (0.003, 0.05, 0.1, 0.25, 1 / 3, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0)
AM = (0.3, 0.5, 0.8, 0.99, 1.0)

# double-exponential nodes on (0, 1): resolve logarithmic end points
_t = np.linspace(-3.4, 3.4, 241)
_x = 0.5 * (1 + np.tanh(0.5 * np.pi * np.sinh(_t)))
_w = 0.5 * 0.5 * np.pi * np.cosh(_t) / np.cosh(0.5 * np.pi * np.sinh(_t)) ** 2 * (_t[1] - _t[0])


def iso(chi, q, am):
    """density of (x1 + q x2)/(1+q), x = a cos(theta), a uniform, isotropic: p(x) = -ln(|x|/am)/(2 am)."""
    s = abs(chi) * (1 + q)
    lo, hi = max(-am, s - q * am), min(am, s + q * am)
    if hi <= lo:
        return 0.0
    br = sorted({lo, hi} | {b for b in (0.0, s) if lo < b < hi})
    tot = 0.0
    p = lambda x: -np.log(np.clip(np.abs(x) / am, 1e-300, 1.0)) / (2 * am)  # noqa: E731
    for a, b in zip(br[:-1], br[1:]):
        x = a + (b - a) * _x
        # distances to the two ends kept accurate next to the singular points
        tot += (b - a) * np.sum(_w * p(x) * p((s - x) / q))
    return tot * (1 + q) / q


def ali(chi, q, am):
    s = chi * (1 + q)
    lo, hi = max(-am, s - q * am), min(am, s + q * am)
    return max(0.0, hi - lo) / (2 * am) ** 2 * (1 + q) / q


def perp(y, q, am):
    """density of max(a1 sin1, r a2 sin2)"""
    r = q * (3 + 4 * q) / (4 + 3 * q)
    d = lambda y, m: np.where(y < m, np.arccos(np.clip(y / m, 0, 1)) / m, 0.0)  # noqa: E731
    F = lambda y, m: np.where(y < m, (m - np.sqrt(np.maximum(m * m - y * y, 0)) + y * np.arccos(np.clip(y / m, 0, 1))) / m, 1.0)  # noqa: E731
    return d(y, am) * F(y, r * am) + F(y, am) * d(y, r * am)


def cases(q, am):
    b = [am * (1 - q) / (1 + q), q * am / (1 + q), am / (1 + q)]
    pts = []
    for v in b:
        pts += [(v + d * am, False) for d in (-0.02, -1e-3, 1e-3, 0.02)] + [(v, True)]
    e = sorted(set([0.0, am] + b))
    for u, v in zip(e[:-1], e[1:]):
        pts += [(u + (v - u) * f, False) for f in (0.25, 0.5, 0.75)]
    pts += [(0.0, False), (1e-3 * am, False), (0.999 * am, False), (am, True), (1.001 * am, False), (1.3 * am, False)]
    # points that are both lattice neighbours and boundaries of another case are boundaries
    out = []
    for x, flag in pts:
        if x >= 0:
            out.append((x, flag or min(abs(x - v) for v in b) < 1e-9))
    return out


def chieff(ctx, ams):
    from gwinferno.preprocess import priors as P

    for q, am in itertools.product(QS, ams):
        with ctx.at(q=q, a_max=am):
            c = cases(q, am)
            x = np.array([v for v, _ in c])
            edge = np.array([f for _, f in c])
            E = np.array([iso(v, q, am) for v in x])
            A = np.array([ali(v, q, am) for v in x])
            # scalar, positive and negative, and as one array
            for sg in (1.0, -1.0):
                with np.errstate(all="ignore"):
                    arr = P.chi_effective_prior_from_isotropic_spins(sg * x, q, a_max=am)
                    one = np.array([np.asarray(P.chi_effective_prior_from_isotropic_spins(float(sg * v), q, a_max=am)).item() for v in x])
                    qa = P.chi_effective_prior_from_isotropic_spins((sg * x).reshape(1, -1), np.full((1, x.size), q), a_max=am)
                ctx.step(2 + len(x))
                ctx.trace(len(x))
                ctx.close(arr, E, "isotropic effective spin prior", rtol=2e-5, atol=2e-6, mask=~edge, sign=sg)
                ctx.close(arr, E, "isotropic effective spin prior at a case boundary", rtol=2e-3, atol=2e-3, mask=edge, sign=sg)
                ctx.close(one, arr, "scalar arguments agree with arrays", rtol=1e-9, atol=1e-12)
                ctx.close(np.asarray(qa).ravel(), arr, "2-D arguments agree with 1-D", rtol=1e-9, atol=1e-12)
                al = P.chi_effective_prior_from_aligned_spins(sg * x, q, a_max=am)
                ctx.close(al, A, "aligned effective spin prior", rtol=1e-8, atol=1e-8, mask=~(edge & (x >= am * (1 - 1e-12))), sign=sg)
                al1 = np.array([np.asarray(P.chi_effective_prior_from_aligned_spins(float(sg * v), q, a_max=am)).item() for v in x])
                ctx.close(al1, al, "aligned: scalar arguments agree with arrays", rtol=1e-12)
                ctx.step(1 + len(x))
            # normalisation
            e = np.unique(np.concatenate([[0, am], [am * (1 - q) / (1 + q), q * am / (1 + q), am / (1 + q)]]))
            tot = ta = 0.0
            for u, v in zip(e[:-1], e[1:]):
                if v - u < 1e-9:
                    continue
                y = u + (v - u) * _x
                y = np.clip(y, u + 1e-9, v - 1e-9)
                with np.errstate(all="ignore"):
                    tot += 2 * (v - u) * np.sum(_w * P.chi_effective_prior_from_isotropic_spins(y, q, a_max=am))
                ta += 2 * (v - u) * np.sum(_w * P.chi_effective_prior_from_aligned_spins(y, q, a_max=am))
            ctx.close(tot, 1.0, "isotropic prior integrates to one", rtol=1e-4)
            ctx.close(ta, 1.0, "aligned prior integrates to one", rtol=1e-6)
            ctx.front(4 * len(x))
            ctx.outcome((q, am, round(float(E.sum()), 6)))
    # default maximum spin is one
    with ctx.at(defaults=True):
        ctx.close(P.chi_effective_prior_from_isotropic_spins(0.3, 0.7), [iso(0.3, 0.7, 1.0)], "default maximum spin", rtol=1e-5)
        ctx.close(P.chi_effective_prior_from_aligned_spins(0.3, 0.7), [ali(0.3, 0.7, 1.0)], "default maximum spin", rtol=1e-5)
        ctx.close(P.chi_p_prior_from_isotropic_spins(0.3, 0.7), [perp(0.3, 0.7, 1.0)], "default maximum spin", rtol=1e-5)


def arrays(ctx, am):
    """every ordered selection of (effective spin, mass ratio) cases in one array gives the values of the cases asked alone"""
    from gwinferno.preprocess import priors as P

    pool = []
    for q in (0.1, 0.4, 0.8, 1.0):
        b = [am * (1 - q) / (1 + q), q * am / (1 + q), am / (1 + q)]
        e = sorted(set([0.0, am] + b))
        for u, v in zip(e[:-1], e[1:]):
            pool.append((0.5 * (u + v), q))
        pool += [(b[1], q), (0.0, q), (1.2 * am, q), (-0.3 * am, q)]
    with np.errstate(all="ignore"):
        alone = {p: tuple(np.asarray(f(p[0] if i < 2 else abs(p[0]), p[1], a_max=am)).item() for i, f in enumerate((P.chi_effective_prior_from_isotropic_spins, P.chi_effective_prior_from_aligned_spins, P.chi_p_prior_from_isotropic_spins))) for p in pool}
    for n in (2, 3) if ctx.thorough else (2,):
        for sel in itertools.product(pool, repeat=n):
            with ctx.at(cases=sel):
                x, q = np.array([s[0] for s in sel]), np.array([s[1] for s in sel])
                with np.errstate(all="ignore"):
                    g = (P.chi_effective_prior_from_isotropic_spins(x, q, a_max=am), P.chi_effective_prior_from_aligned_spins(x, q, a_max=am), P.chi_p_prior_from_isotropic_spins(np.abs(x), q, a_max=am))
                ctx.step(3)
                ctx.trace()
                for i, name in enumerate(("isotropic", "aligned", "precession")):
                    ctx.close(g[i], np.array([alone[s][i] for s in sel]), name + " prior of an array is elementwise", rtol=1e-9, atol=1e-12)
    # broadcasting a column of spins against a row of mass ratios, and scalar q
    with ctx.at(broadcast=True):
        x, q = np.linspace(-am, am, 9)[:, None] * 0.97, np.array([0.15, 0.5, 0.93])[None]
        X, Q = np.broadcast_arrays(x, q)
        with np.errstate(all="ignore"):
            ctx.close(P.chi_effective_prior_from_isotropic_spins(x, q, a_max=am), np.vectorize(lambda a, b: iso(a, b, am))(X, Q), "broadcast isotropic", rtol=2e-5, atol=1e-5)
            ctx.close(P.chi_effective_prior_from_aligned_spins(x, q, a_max=am), np.vectorize(lambda a, b: ali(a, b, am))(X, Q), "broadcast aligned", rtol=1e-7)
            ctx.close(P.chi_p_prior_from_isotropic_spins(np.abs(x), q, a_max=am), perp(np.abs(X), Q, am), "broadcast precession", rtol=1e-7, atol=1e-12)


def chip(ctx):
    from gwinferno.preprocess import priors as P

    for q, am in itertools.product(QS, AM):
        with ctx.at(q=q, a_max=am):
            r = q * (3 + 4 * q) / (4 + 3 * q) * am
            y = np.unique(np.concatenate([r * np.array([0, 1e-3, 0.1, 0.5, 0.9, 0.999]), [r * 1.001, r + 0.3 * (am - r), r + 0.9 * (am - r)]]))
            y = y[y < am]
            with np.errstate(all="ignore"):
                g = P.chi_p_prior_from_isotropic_spins(y, q, a_max=am)
                out = P.chi_p_prior_from_isotropic_spins(np.array([am, 1.01 * am, 2.0]), q, a_max=am)
            ctx.step(2)
            ctx.trace(len(y))
            ctx.front(len(y))
            ctx.close(g, perp(y, q, am), "effective precession prior", rtol=1e-8, atol=1e-10)
            ctx.close(out, np.zeros(3), "no precession beyond the maximum spin", atol=1e-12)
            tot = 0.0
            for u, v in ((0, r), (r, am)):
                if v - u > 1e-9:
                    z = np.clip(u + (v - u) * _x, u + 1e-12, v - 1e-12)
                    with np.errstate(all="ignore"):
                        tot += (v - u) * np.sum(_w * P.chi_p_prior_from_isotropic_spins(z, q, a_max=am))
            ctx.close(tot, 1.0, "precession prior integrates to one", rtol=1e-5)


def refcdf(chi, q, am, y, N=90):
    """distribution function of the effective precession given the effective spin, midpoint rule"""
    u = (np.arange(N) + 0.5) / N
    a1, a2, c2 = np.meshgrid(u * am, u * am, 2 * u - 1, indexing="ij")
    c1 = (chi * (1 + q) - q * a2 * c2) / a1
    ok = np.abs(c1) <= 1
    a1, a2, c1, c2 = a1[ok], a2[ok], c1[ok], c2[ok]
    v = np.maximum(a1 * np.sqrt(1 - c1**2), (3 + 4 * q) / (4 + 3 * q) * q * a2 * np.sqrt(1 - c2**2))
    w = 1 / a1
    return np.array([w[v <= t].sum() for t in y]) / w.sum()


def conditional(ctx, q):
    from gwinferno.preprocess import priors as P

    for am, f in itertools.product((0.8, 1.0), (0.0, 0.15, -0.35, 0.6)):
        chi = f * am
        s = (1 + q) * abs(chi)
        top = am if s / q < am else np.sqrt(am**2 - (s - q * am) ** 2)
        with ctx.at(q=q, a_max=am, chi_eff=chi):
            np.random.seed(5)
            g = np.linspace(0, top, 401)
            d = P.chi_p_prior_given_chi_eff_q(g, chi, q, a_max=am, ndraws=6000)
            ctx.step()
            ctx.trace()
            ctx.check(np.all(d >= 0) and np.all(np.isfinite(d)), "conditional density is non-negative", observed=d.min())
            C = np.concatenate([[0], np.cumsum(np.diff(g) * (d[1:] + d[:-1]) / 2)])
            ctx.close(C[-1], 1.0, "conditional density integrates to one over the allowed precessions", rtol=2e-3)
            y = np.linspace(0.1, 0.9, 9) * top
            ctx.close(np.interp(y, g, C), refcdf(chi, q, am, y), "conditional distribution of the precession", rtol=0, atol=0.06 if chi else 0.09)
            out = P.chi_p_prior_given_chi_eff_q(np.array([1.001 * top, 1.3 * top]), chi, q, a_max=am, ndraws=500)
            ctx.close(out, np.zeros(2), "no precession beyond what the effective spin allows", atol=1e-9)
            # joint = conditional x marginal, elementwise in all arguments
            np.random.seed(6)
            yy = np.array([0.3, 0.5, 0.7]) * top
            j = P.joint_prior_from_isotropic_spins(yy, np.full(3, chi), np.full(3, q), a_max=am, ndraws=3000)
            ctx.step()
            m = iso(chi, q, am)
            c = np.interp(yy, g, d)
            ctx.check(j.shape == (3,), "joint prior shape", (3,), j.shape)
            ctx.close(j, m * c, "joint prior is the product of the marginal and the conditional", rtol=0.2, atol=0.1 * m * c.max())
            ctx.outcome((q, am, f, round(float(top), 6)))
    with ctx.at(q=q, mixed=True):
        # different effective spins in one call keep their own conditional
        np.random.seed(7)
        chis = np.array([0.0, 0.35, -0.5])
        j = P.joint_prior_from_isotropic_spins(np.full(3, 0.4), chis, q, a_max=1.0, ndraws=3000)
        e = []
        for c in chis:
            s = (1 + q) * abs(c)
            top = 1.0 if s / q < 1 else np.sqrt(1 - (s - q) ** 2)
            h = 0.06
            if top < 0.5:
                e.append(np.nan)
                continue
            F = refcdf(c, q, 1.0, [0.4 - h, 0.4 + h])
            e.append((F[1] - F[0]) / (2 * h) * iso(c, q, 1.0))
        ctx.close(j, np.array(e), "joint prior of several effective spins", rtol=0.3, atol=0.1, mask=np.isfinite(e))


def shards(tier):
    out = [Shard("chieff-%g" % a, chieff, True, 3, ams=(a,)) for a in AM]
    out += [Shard("arrays-%g" % a, arrays, True, 4, am=a) for a in (1.0, 0.8) + ((0.5,) if tier == "thorough" else ())]
    out += [Shard("chip", chip, True, 1)]
    out += [Shard("conditional-%g" % q, conditional, True, 6, q=q) for q in (0.3, 0.65, 1.0) + ((0.15, 0.85) if tier == "thorough" else ())]
    return out
