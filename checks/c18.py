"""C18: catalog collection delivers each event's samples and priors unchanged."""

import itertools
import json
import os

import numpy as np
from checks import cosmo
from checks.c15 import iso
from mc.core import Shard

PROPERTY = "C18"
BOUNDS = dict(
    catalogs="every sequence of 1 to 3 (thorough: 4) events over 12 event kinds (file flavour x number of samples x placement of samples above, at and below the maximum mass x redshift prior x redshifts below or far beyond 1.9)",
    parameters="all 10 requested parameter sets x maximum masses {50, 100} x metadata given directly or by file; effective spins",
    size="one catalog with more than 10000 samples per event",
)
ASSUMPTIONS = [
    "which samples are kept when an event has more than the common number is random: any selection without replacement is accepted",
    "samples of first-catalog (GWTC-1) files are not subject to the maximum mass in the code and are judged without it",
    "the redshift prior is tabulated by the code: judged to 0.5%",
    "the effective-spin prior is accepted either as the push-forward or with the documented spurious factor (known finding)",
]
BASE = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]


def offset(kind):
    """some events lie beyond the redshift the prior's table covers by default"""
    if kind[1] == 7:
        return 6.4
    return 2.2 if kind[1] in (1, 7) or kind[2] == (1,) else 0.0


def samples(ev, n, above=(), at=(), dz=0.0):
    """n distinguishable samples of event number ev; chosen positions at/above the maximum mass 100"""
    i = np.arange(n)
    m1 = 20.0 + 3.0 * ev + 25.0 * i / max(n, 1)
    m1 = np.where(np.isin(i, above), 120.0 + 2 * i + ev, np.where(np.isin(i, at), 100.0, m1))
    q = 0.35 + 0.6 * ((0.37 * (i + 1) + 0.11 * ev) % 1)
    z = 0.08 + 0.5 * ((0.29 * (i + 1) + 0.17 * ev) % 1) + (1.0 if ev == 2 else 0.0) + dz
    z = np.where((i == 1) & (ev == 1) & (dz == 0), 0.006, z)  # a nearby event
    a1, a2 = 0.1 + 0.8 * ((0.23 * (i + 1) + 0.05 * ev) % 1), 0.15 + 0.7 * ((0.41 * (i + 1) + 0.07 * ev) % 1)
    c1, c2 = -0.9 + 1.8 * ((0.31 * (i + 1) + 0.13 * ev) % 1), -0.8 + 1.7 * ((0.19 * (i + 1) + 0.03 * ev) % 1)
    return np.array([m1, q * m1, q, z, a1, a2, c1, c2])


KINDS = [  # flavour, samples, above, at, redshift prior
    ("GWTC-2", 3, (), (), "euclidean"), ("GWTC-2", 5, (), (), "comoving"), ("GWTC-3", 1, (), (), "comoving"), ("GWTC-1", 4, (), (), "euclidean"),
    ("GWTC-3", 4, (1,), (), "euclidean"), ("GWTC-2", 4, (0, 2), (3,), "comoving"), ("GWTC-4", 6, (5,), (0,), "comoving"), ("GWTC-1", 2, (), (), "comoving"),
    ("GWTC-3", 3, (), (1,), "euclidean"), ("GWTC-1", 5, (), (), "euclidean"), ("GWTC-4", 2, (0,), (), "euclidean"), ("GWTC-2", 7, (2, 3), (4,), "euclidean"),
]


def write(path, ev, kind):
    import h5py

    fl, n, above, at, _ = kind
    s = samples(ev, n, above, at, offset(kind))
    with h5py.File(path, "w") as f:
        if fl == "GWTC-1":
            z = s[3]
            d = dict(luminosity_distance_Mpc=cosmo.DL(z, cosmo.LVK), m1_detector_frame_Msun=s[0] * (1 + z), m2_detector_frame_Msun=s[1] * (1 + z), spin1=s[4], spin2=s[5], costilt1=s[6], costilt2=s[7], right_ascension=np.zeros(n))
            rec = np.zeros(n, dtype=[(k, "f8") for k in d])
            for k, v in d.items():
                rec[k] = v
            f["Overall"] = rec
            rec["spin1"] = 0.5
            f["Other"] = rec
        else:
            cols = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
            rec = np.zeros(n, dtype=[(k, "f8") for k in cols] + [("mass_1", "f8"), ("luminosity_distance", "f8")])
            for k, v in zip(cols, s):
                rec[k] = v
            rec["mass_1"] = s[0] * (1 + s[3])
            f.create_group("C01:Mixed")["posterior_samples"] = rec
            rec2 = rec.copy()
            rec2["mass_1_source"] = 1.0
            f.create_group("C01:Other")["posterior_samples"] = rec2
    return s


def catalog(ctx, kinds, tag="ev"):
    meta, truth = {}, {}
    for i, k in enumerate(kinds):
        p = os.path.join(ctx.scratch, "%s%d.h5" % (tag, i))
        name = ["GW190412", "GW150914", "S000", "A_event"][i]
        truth[name] = (write(p, i, k), k)
        meta[name] = dict(file_path=p, waveform="Overall" if k[0] == "GWTC-1" else "C01:Mixed", redshift_prior=k[4], catalog=k[0])
    return meta, truth


_pz = {}


def pz(kind, zmax):
    if (kind, zmax) not in _pz:
        z = np.linspace(0, 1.01 * zmax, 2001)
        D, E = cosmo.Dc(z, cosmo.LVK), cosmo.E(z, cosmo.LVK)
        if kind == "euclidean":
            dl = (1 + z) * D
            f = dl**2 * (D + (1 + z) * cosmo.C / cosmo.LVK["H0"] / E)
        else:
            f = 4 * np.pi * D**2 * cosmo.C / cosmo.LVK["H0"] / E / (1 + z)
        w = np.ones(2001)
        w[1:-1:2], w[2:-1:2] = 4, 2
        _pz[(kind, zmax)] = np.sum(f * w) * (z[1] - z[0]) / 3
    Zn = _pz[(kind, zmax)]

    def p(z):
        D, E = cosmo.Dc(z, cosmo.LVK), cosmo.E(z, cosmo.LVK)
        if kind == "euclidean":
            return ((1 + z) * D) ** 2 * (D + (1 + z) * cosmo.C / cosmo.LVK["H0"] / E) / Zn
        return 4 * np.pi * D**2 * cosmo.C / cosmo.LVK["H0"] / E / (1 + z) / Zn

    return p


def judge(ctx, ds, truth, params, mmax):
    arr = ds["posteriors"]
    names = list(truth)
    if not ctx.check(list(map(str, arr.event.values)) == names, "events in catalog order under their own names", names, list(arr.event.values)):
        return
    avail = {k: (v[0] if v[1][0] == "GWTC-1" else v[0][:, v[0][0] <= mmax]) for k, v in truth.items()}
    ns = min(10000, min(a.shape[1] for a in avail.values()))
    chi = "chi_eff" in params
    lab = list(params) + ["prior"]
    if not ctx.check(sorted(map(str, arr.param.values)) == sorted(lab), "requested parameters", sorted(lab), sorted(map(str, arr.param.values))):
        return
    if not ctx.check(dict(arr.sizes) == dict(event=len(names), param=len(lab), samples=ns), "the largest number of samples common to all events", ns, dict(arr.sizes)):
        return
    for k in names:
        a, kind = avail[k], truth[k][1]
        rt = 1e-9 if kind[0] != "GWTC-1" else 1e-4
        full = dict(zip(BASE, a))
        q = full["mass_ratio"]
        full["chi_eff"] = (full["a_1"] * full["cos_tilt_1"] + q * full["a_2"] * full["cos_tilt_2"]) / (1 + q)
        full["chi_p"] = np.maximum(full["a_1"] * np.sqrt(1 - full["cos_tilt_1"] ** 2), q * (3 + 4 * q) / (4 + 3 * q) * full["a_2"] * np.sqrt(1 - full["cos_tilt_2"] ** 2))
        # which sample of the file is each delivered sample?
        got = {p: np.asarray(arr.sel(event=k, param=p).values, float) for p in lab}
        key = params[0]
        idx = np.array([int(np.argmin(np.abs(full[key] - v))) for v in got[key]])
        if key == "mass_1" and len(np.unique(full[key])) < len(full[key]):  # ties at the maximum mass: use a second parameter
            k2 = params[1]
            idx = np.array([int(np.argmin(np.abs(full[key] - v) + np.abs(full[k2] - w))) for v, w in zip(got[key], got[k2])])
        ctx.check(len(set(idx)) == len(idx), "every sample is delivered at most once", observed=idx)
        for p in params:
            ctx.close(got[p], full[p][idx], "samples of %s keep their parameters together: %s" % (k, p), rtol=rt if ctx.x64 else 1e-3, atol=1e-9)
        # prior
        zmax = max(1.9, max_redshift(arr))
        pr = np.ones(ns)
        if "redshift" in params:
            pr = pr * pz(kind[4], zmax)(full["redshift"][idx])
        if "mass_1" in params:
            pr = pr * (1 + full["redshift"][idx]) ** 2
        if "mass_ratio" in params:
            pr = pr * full["mass_1"][idx]
        if "a_1" in params:
            pr = pr / 4
        if not chi:
            # linear interpolation in the code's table of 1000 redshifts
            zz = full["redshift"][idx]
            rt_z = (1.01 * zmax / 999 / zz) ** 2 / 3
            ctx.close(got["prior"], pr, "sampling prior of " + k, rtol=0, atol=(6e-3 + rt_z) * np.abs(pr))
        else:
            m = np.array([iso(c, r, 1.0) for c, r in zip(full["chi_eff"][idx], q[idx])])
            tol = 1e-2 + (1.01 * zmax / 999 / full["redshift"][idx]) ** 2 / 3
            if "chi_p" in params:
                from checks.c15 import refcdf

                h = 0.06
                m = m * np.array([np.diff(refcdf(c, r, 1.0, [max(v - h, 0), v + h]))[0] / (v + h - max(v - h, 0)) for c, r, v in zip(full["chi_eff"][idx], q[idx], full["chi_p"][idx])])
                tol = 0.5
            legacy = pr * m / ((2 * np.pi * full["a_1"][idx] ** 2) * (2 * np.pi * full["a_2"][idx] ** 2))
            ctx.comparisons += ns
            if np.all(np.abs(got["prior"] - pr * m) <= tol * pr * m):
                continue
            if np.all(np.abs(got["prior"] - legacy) <= tol * legacy):
                ctx.fail("effective-spin prior keeps the factor 1/(4 pi^2 a1^2 a2^2)", pr * m, got["prior"], known="C18-chieff-prior")
            else:
                ctx.fail("sampling prior in the effective spins of " + k, pr * m, got["prior"])


def max_redshift(arr):
    """largest redshift among the delivered samples (which samples those are is the code's random choice)"""
    if "redshift" in list(map(str, arr.param.values)):
        return float(arr.sel(param="redshift").max())
    return 0.0


SETS = [
    ["mass_1", "mass_ratio", "redshift"], ["mass_1", "redshift"], ["mass_1", "mass_2", "redshift"], ["redshift", "mass_ratio", "mass_1"], ["mass_1", "mass_ratio"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2"], ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_2", "redshift", "a_2", "a_1", "cos_tilt_2", "cos_tilt_1"], ["mass_1", "mass_ratio", "redshift", "chi_eff"], ["mass_1", "mass_2", "redshift", "chi_eff"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "cos_tilt_1"],
]


def catalogs(ctx, first, n):
    from gwinferno.preprocess.data_collection import load_posterior_dataset as load

    np.random.seed(1)
    for rest in itertools.product(range(len(KINDS)), repeat=n - 1):
        ks = [KINDS[i] for i in (first,) + rest]
        if not ctx.thorough and n == 3 and (sum(rest) + first) % 4:
            continue
        with ctx.at(events=(first,) + rest):
            meta, truth = catalog(ctx, ks)
            p = SETS[(first + sum(rest)) % 8] if n > 1 else None
            for params in [p] if p else SETS[:8]:
                ds = load(catalog_metadata=meta, param_names=list(params))
                ctx.step()
                ctx.trace()
                judge(ctx, ds, truth, params, 100.0)
            ctx.outcome((first,) + rest)


def options(ctx):
    from gwinferno.preprocess.data_collection import load_posterior_dataset as load

    np.random.seed(2)
    ks = [KINDS[6], KINDS[3], KINDS[5]]
    meta, truth = catalog(ctx, ks)
    kf = os.path.join(ctx.scratch, "key.json")
    json.dump(meta, open(kf, "w"))
    for params, mmax, by in itertools.product(SETS, (31.0, 50.0, 100.0, 125.0, 1000.0), ("dict", "file")):
        if mmax == 31.0 and "chi_eff" in params:
            continue
        with ctx.at(params=params, maximum_mass=mmax, by=by):
            if min(v[0][:, v[0][0] <= mmax].shape[1] for v in truth.values()) == 0:
                continue
            ds = load(maximum_mass=mmax, param_names=list(params), **(dict(catalog_metadata=meta) if by == "dict" else dict(key_file=kf)))
            ctx.step()
            ctx.trace()
            judge(ctx, ds, truth, params, mmax)
    with ctx.at(defaults=True):
        judge(ctx, load(catalog_metadata=meta), truth, SETS[0], 100.0)
    with ctx.at(chi_p=True):
        ds = load(catalog_metadata={k: meta[k] for k in list(meta)[1:]}, param_names=SETS[8] + ["chi_p"])
        judge(ctx, ds, {k: truth[k] for k in list(truth)[1:]}, SETS[8] + ["chi_p"], 100.0)
        ctx.step()
        ctx.trace()
    with ctx.at(bad_prior=True):
        m2 = {k: dict(v, redshift_prior="flat") for k, v in meta.items()}
        try:
            load(catalog_metadata=m2)
            ctx.fail("an unknown redshift prior was accepted")
        except AssertionError:
            pass
    # subsets and orders of the catalog: every event's file, prior and samples follow its name
    for r in (1, 2, 3):
        for sel in itertools.permutations(list(meta), r):
            with ctx.at(subset=sel):
                ds = load(catalog_metadata={k: meta[k] for k in sel}, param_names=list(SETS[6]))
                ctx.step()
                ctx.trace()
                judge(ctx, ds, {k: truth[k] for k in sel}, SETS[6], 100.0)


def large(ctx):
    """more samples than the cap: the common number is the cap, still without repetition"""
    from gwinferno.preprocess.data_collection import load_posterior_dataset as load

    np.random.seed(4)
    import h5py

    with ctx.at(samples=(10050, 10003)):
        meta, truth = {}, {}
        for i, n in enumerate((10050, 10003)):
            p = os.path.join(ctx.scratch, "l%d.h5" % i)
            u = np.arange(n) / n
            s = np.array([10 + 80 * u, (10 + 80 * u) * 0.5, np.full(n, 0.5), 0.1 + u, u * 0.9 + 0.05, np.full(n, 0.4), u, -u])
            with h5py.File(p, "w") as f:
                cols = ["mass_1_source", "mass_2_source", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
                rec = np.zeros(n, dtype=[(k, "f8") for k in cols])
                for k, v in zip(cols, s):
                    rec[k] = v
                f.create_group("W")["posterior_samples"] = rec
            meta["E%d" % i] = dict(file_path=p, waveform="W", redshift_prior="comoving", catalog="GWTC-3")
            truth["E%d" % i] = (s, ("GWTC-3", n, (), (), "comoving"))
        ds = load(catalog_metadata=meta)
        arr = ds["posteriors"]
        ctx.check(arr.sizes["samples"] == 10000, "at most 10000 samples", 10000, arr.sizes["samples"])
        for i, n in enumerate((10050, 10003)):
            m = arr.sel(event="E%d" % i, param="mass_1").values
            j = np.rint((m - 10) / 80 * n).astype(int)
            ctx.check(len(np.unique(j)) == len(j), "every sample at most once")
            ctx.close(arr.sel(event="E%d" % i, param="redshift").values, 0.1 + j / n, "samples keep their parameters together", rtol=1e-6)
        ctx.step()
        ctx.trace()


def shards(tier):
    th = tier == "thorough"
    out = [Shard("single-%d" % i, catalogs, True, 2, first=i, n=1) for i in range(len(KINDS))]
    out += [Shard("pairs-%d" % i, catalogs, True, 3, first=i, n=2) for i in range(len(KINDS))]
    out += [Shard("triples-%d" % i, catalogs, True, 5, first=i, n=3) for i in range(len(KINDS))]
    out += [Shard("options64", options, True, 8), Shard("options32", options, False, 8), Shard("large", large, True, 4)]
    return out
