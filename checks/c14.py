"""C14: cosmology is accurate, invertible and independent of query history."""

import copy

import numpy as np
from checks import cosmo
from mc.core import Shard

PROPERTY = "C14"
BOUNDS = dict(
    histories="every sequence of up to 2 (thorough: 4) queries over 14 (thorough: 18) queries, each answer and the resulting table checked at every step; states merged on (table end, step, table values)",
    queries="comoving distance, luminosity distance, volume element, log volume element, redshift of a distance; scalars, 1-D and 2-D arrays, ranges inside, just beyond and far beyond the table, coarse and fine step requests, explicit table rebuilds",
    objects="tables starting at z = 0.3, 1, 10 and 20 (queried up to z = 180) with steps 2e-2, 1e-2, 2e-3 and 1e-3, three parameter sets, one with radiation; the two module-level cosmologies",
)
ASSUMPTIONS = ["answers are judged to the accuracy of linear interpolation in a table of the initial step"]

SETS = {"LVK": cosmo.LVK, "P15": cosmo.P15, "LowH0": dict(H0=50.0, Om=0.9), "Rad": dict(H0=70.0, Om=0.25, Or=0.125)}


def queries(zend, thorough):
    z1, z2, z3 = 0.6 * zend, 1.0007 * zend, 1.9 * zend
    far = 7.3 * zend
    q = [
        ("z2Dc", z1), ("z2Dc", [0.013 * zend, z2]), ("z2DL", [[z1, 0.2 * zend], [0.9999 * zend, 0.5 * zend]]), ("z2DL", z3),
        ("dVcdz", [0.3 * zend, far, 0.04 * zend]), ("dVcdz", z1), ("logdVcdz", [z1, z2]), ("DL2z", ("DL", [0.5 * zend, z1])),
        ("DL2z", ("DL", [z3, 0.1 * zend])), ("DL2z", ("DL", far)), ("z2Dc+coarse", [0.7 * zend, z3]), ("z2DL+coarse", far), ("extend", 0.4 * zend), ("extend", 3.0 * zend),
    ]
    if thorough:
        q += [("DL2z+coarse", ("DL", [far, 0.3 * zend])), ("z2DL+fine", [z3, 0.2 * zend]), ("dVcdz+coarse", [z3, 0.15 * zend]), ("z2Dc", [0.0, z1])]
    return q


def ask(ctx, c, p, q, dz0):
    import jax.numpy as jnp

    op, arg = q
    op, _, mode = op.partition("+")
    kw = {"coarse": dict(dz=20 * dz0), "fine": dict(dz=dz0 / 4), "same": dict(dz=dz0)}.get(mode, {})
    ctx.step()
    if op == "extend":
        c.extend(arg)
        return
    sc = cosmo.C / p["H0"]
    eps = 0.0 if ctx.x64 else 1.5e-3
    if op == "DL2z":
        z = np.asarray(arg[1], float)
        got = np.asarray(c.DL2z(jnp.asarray(cosmo.DL(z, p)), **kw), float)
        ctx.close(got, z, "redshift of a luminosity distance", rtol=0.5 * dz0**1.5 + eps, atol=2 * dz0**2 + (0 if ctx.x64 else 1e-5), query=q)
        back = np.asarray(c.z2DL(jnp.asarray(got)), float)
        ctx.close(back, cosmo.DL(z, p), "the returned redshift has that luminosity distance", rtol=1e-9 + 5 * eps + dz0**1.5, atol=sc * dz0**2)
        return
    z = np.asarray(arg, float)
    got = np.asarray(getattr(c, op)(jnp.asarray(z), **kw), float)
    D, E = cosmo.Dc(z, p), cosmo.E(z, p)
    dD = sc * dz0**2 + dz0**2 * D
    if op == "z2Dc":
        ctx.close(got, D, "comoving distance", rtol=eps, atol=dD, query=q)
    elif op == "z2DL":
        ctx.close(got, (1 + z) * D, "luminosity distance", rtol=eps, atol=2 * (1 + z) * dD, query=q)
    elif op == "dVcdz":
        V = 4 * np.pi * D**2 * sc / E
        ctx.close(got, V, "comoving volume element", rtol=2 * eps, atol=3 * V * dD / np.maximum(D, 1e-9), query=q)
    else:
        V = np.log(4 * np.pi * D**2 * sc / E)
        ctx.close(got, V, "log comoving volume element", rtol=0, atol=np.maximum(4 * eps, 3 * dD / D), query=q)


def key(c):
    z, D = np.asarray(c.z), np.asarray(c.Dc)
    return (z.size, round(float(z[-1]), 9), float(D[-1]), float(D[len(D) // 2]), round(float(c.dz), 12))


def deep(zend):
    """Very high redshifts; every request names its step, so that the tables stay small."""
    far, far2, far3 = 3.1 * zend, 4.7 * zend, 9.0 * zend
    return [
        ("z2Dc+coarse", [0.7 * zend, far]), ("z2DL+coarse", far2), ("dVcdz+same", [far, 0.3 * zend]), ("DL2z+coarse", ("DL", [far2, 0.5 * zend])),
        ("logdVcdz+coarse", [far3, 0.2 * zend]), ("DL2z+same", ("DL", [far])), ("z2Dc+same", [0.1 * zend, far3]),
    ]


def histories(ctx, zend, dz, pset, depth, first):
    import jax.numpy as jnp  # noqa: F401
    from gwinferno.cosmology import Cosmology

    p = SETS[pset]
    c0 = Cosmology(p["H0"] * 1e3, p["Om"], p.get("Or", 0.0), 1.0 - p["Om"] - p.get("Or", 0.0), max_z=zend, dz=dz)
    Q = deep(zend) if zend > 15 else queries(zend, ctx.thorough)
    seen = {key(c0)}
    ctx.state(("table", key(c0)))
    frontier = [((), c0)]
    for d in range(depth):
        nxt = []
        for hist, c in frontier:
            for i, q in enumerate(Q):
                if d == 0 and i % 2 != first:
                    continue
                with ctx.at(history=hist + (q,)):
                    k = copy.deepcopy(c)
                    ask(ctx, k, p, q, dz)
                    ctx.trace()
                    tables(ctx, k, p, dz)
                    kk = key(k)
                    if kk not in seen:
                        seen.add(kk)
                        ctx.state(("table", kk))
                        nxt.append((hist + (q,), k))
        frontier = nxt
        if not frontier:
            break
    ctx.outcome((zend, dz, pset, len(seen)))
    ctx.sample(zend=zend, dz=dz, tables=len(seen), queries=len(Q))


def tables(ctx, c, p, dz0):
    """the tables themselves: increasing, never coarser than at the start, and correct."""
    z, D, V = (np.asarray(v, float) for v in (c.z, c.Dc, c.Vc))
    st = np.diff(z)
    ctx.check(z[0] == 0 and st.min() > 0 and st.max() <= dz0 * (1 + 1e-3), "table step never coarser than requested", dz0, (st.min(), st.max()))
    i = np.unique(np.linspace(1, len(z) - 1, 12).astype(int))
    R = cosmo.Dc(z[i], p)
    sc = cosmo.C / p["H0"]
    ctx.close(D[i], R, "comoving distance table", rtol=dz0**2 + (0 if ctx.x64 else 2e-3), atol=sc * dz0**2)
    ctx.close(V[i], 4 * np.pi / 3 * R**3, "comoving volume table", rtol=3 * dz0**2 + (1e-9 if ctx.x64 else 6e-3), atol=4 * z[i] * dz0**2 * sc**3)
    ctx.close(np.asarray(c.DL, float)[i], (1 + z[i]) * R, "luminosity distance table", rtol=dz0**2 + (0 if ctx.x64 else 2e-3), atol=(1 + z[i]) * sc * dz0**2)


def module(ctx):
    """the two cosmologies offered by the package, on a dense lattice, whatever was asked before."""
    import jax.numpy as jnp
    from gwinferno import cosmology as G

    for name, c, p in (("LVK", G.PLANCK_2015_LVK_Cosmology, cosmo.LVK), ("Planck15", G.PLANCK_2015_Cosmology, cosmo.P15)):
        z = np.concatenate([np.geomspace(1e-3, 9.9, 400), [10.0]])
        near = np.array([1e-5, 1e-4, 5e-4])
        far = ([("dVcdz", [12.0, 0.5])], [("logdVcdz", [21.0, 0.5])])
        for rnd in range(2):
            with ctx.at(cosmology=name, round=rnd):
                for q in (("z2Dc", z), ("z2DL", z), ("dVcdz", z), ("logdVcdz", z), ("DL2z", ("DL", z)), ("DL2z", ("DL", [14.0, 0.2])), ("z2Dc", near), ("z2DL", near), ("dVcdz", near), ("logdVcdz", near), ("DL2z", ("DL", near)), *far[rnd]):
                    ask(ctx, c, p, q, 1e-3)
                    ctx.trace()
                    ctx.front(400)
                zero = [float(getattr(c, op)(jnp.asarray(0.0))) for op in ("z2Dc", "z2DL", "dVcdz", "DL2z", "logdVcdz")]
                ctx.check(zero == [0.0, 0.0, 0.0, 0.0, -np.inf], "nothing at redshift zero", observed=zero)
                e = np.asarray(c.z2E(jnp.asarray(z)), float)
                ctx.close(e, cosmo.E(z, p), "expansion rate", rtol=1e-9 if ctx.x64 else 1e-5)
                ctx.close(np.asarray(c.dDcdz(jnp.asarray(z)), float), cosmo.C / p["H0"] / cosmo.E(z, p), "distance derivative", rtol=1e-9 if ctx.x64 else 1e-5)
                dc = np.linspace(1.0, 5000.0, len(z))
                ctx.close(np.asarray(c.dVcdz(jnp.asarray(z), jnp.asarray(dc)), float), 4 * np.pi * dc**2 * cosmo.C / p["H0"] / cosmo.E(z, p), "volume element of a supplied distance", rtol=1e-9 if ctx.x64 else 1e-4)
                ctx.close(np.asarray(c.logdVcdz(jnp.asarray(z), jnp.asarray(dc)), float), np.log(4 * np.pi * dc**2 * cosmo.C / p["H0"] / cosmo.E(z, p)), "log volume element of a supplied distance", rtol=1e-9 if ctx.x64 else 1e-4)
                dd = np.asarray(c.DL2z(jnp.asarray(c.z2DL(jnp.asarray(z)))), float)
                ctx.close(dd, z, "distance and back", rtol=1e-9 if ctx.x64 else 1e-3, atol=0 if ctx.x64 else 1e-5)


def elementwise(ctx, ops):
    """every element of a query is answered as if asked alone (values, order and shape)."""
    import itertools

    import jax.numpy as jnp
    from gwinferno.cosmology import Cosmology

    vals = (0.02, 0.4, 0.99, 1.4, 2.2)
    p = cosmo.LVK
    mk = lambda: Cosmology(p["H0"] * 1e3, p["Om"], 0.0, 1.0 - p["Om"], max_z=1.0, dz=2e-3)  # noqa: E731
    ref = mk()
    ref.extend(2.5, dz=2e-3)
    base = mk()
    for op in ops:
        conv = (lambda z: cosmo.DL(np.asarray(z), p)) if op == "DL2z" else np.asarray
        alone = {v: float(getattr(copy.deepcopy(ref), op)(jnp.asarray(conv(v)))) for v in vals}
        for r in (1, 2, 3) if ctx.thorough else (1, 2):
            for t in itertools.permutations(vals, r):
                with ctx.at(op=op, values=t):
                    got = np.asarray(getattr(copy.deepcopy(base), op)(jnp.asarray(conv(t)), dz=2e-3), float)
                    ctx.step()
                    ctx.trace()
                    ctx.close(got, np.array([alone[v] for v in t]), "elementwise answers", rtol=1e-5 if ctx.x64 else 1e-3)


def shards(tier):
    th = tier == "thorough"
    out = []
    for i, (zend, dz, ps, dep) in enumerate(((0.3, 2e-3, "LVK", 4 if th else 2), (1.0, 1e-2, "P15", 3 if th else 2), (1.0, 2e-3, "LowH0", 3 if th else 1), (0.5, 2e-3, "Rad", 3 if th else 1)) + (((2.3, 1e-3, "LVK", 3), (10.0, 5e-3, "P15", 3)) if th else ())):
        for f in range(2):
            out.append(Shard("histories64-%d-%d" % (i, f), histories, True, 10, zend=zend, dz=dz, pset=ps, depth=dep, first=f))
    for f in range(2):
        out.append(Shard("deep64-%d" % f, histories, True, 8, zend=20.0, dz=2e-2, pset="LVK", depth=3 if th else 2, first=f))
        out.append(Shard("histories32-0-%d" % f, histories, False, 8, zend=1.0, dz=5e-3, pset="LVK", depth=3 if th else 1, first=f))
    out += [Shard("module64", module, True, 4), Shard("module32", module, False, 4)]
    for op in ("z2Dc", "z2DL", "dVcdz", "logdVcdz", "DL2z"):
        out.append(Shard("elementwise64-" + op, elementwise, True, 4, ops=(op,)))
        if th:
            out.append(Shard("elementwise32-" + op, elementwise, False, 4, ops=(op,)))
    return out
