"""C19: saved datasets load back unchanged apart from the events asked to be ignored."""

import itertools
import os

import numpy as np
from mc.core import Shard

PROPERTY = "C19"
BOUNDS = dict(
    datasets="1..4 events x 1..3 samples x 1..3 injections x 5 parameter sets and orders x 4 values of generated injections and analysis time; every pair of event and injection parameter sets and orders; special values (negative, tiny, huge, zero, infinite)",
    ignored="every ordered selection of ignored events for 4 events (65 lists), with unknown names, repetitions, as list, tuple and array, for 3 event orders",
    histories="every sequence of up to 5 operations over {save A, save B to two file names, load each with and without ignoring, load a copy}",
)
ASSUMPTIONS = ["float64 values are judged to float32 precision when the package runs in its default 32-bit mode"]
ALL = ["mass_1", "mass_ratio", "redshift", "a_1", "prior"]


def dataset(seed, names, params, ns, ni, total=1000.0, time=1.5, special=False, iparams=None):
    import xarray as xr

    iparams = params if iparams is None else iparams

    ne = len(names)
    pe = 1.0 + seed + np.arange(ne * len(params) * ns, dtype=float).reshape(ne, len(params), ns) / 7
    inj = 500.0 + seed + np.arange(len(iparams) * ni, dtype=float).reshape(len(iparams), ni) / 3
    if special:
        pe.flat[0], pe.flat[-1], inj.flat[0], inj.flat[-1] = -3.5, 1e-30, 0.0, np.inf
    p = xr.DataArray(pe, dims=["event", "param", "samples"], coords=dict(event=list(names), param=list(params), samples=np.arange(ns))).to_dataset(name="posteriors")
    i = xr.DataArray(inj, dims=["param", "injection"], coords=dict(param=list(iparams), injection=np.arange(ni)), attrs=dict(total_generated=total, analysis_time=time)).to_dataset(name="injections", promote_attrs=True)
    return dict(p=p, i=i, pe=pe, inj=inj, names=list(names), params=list(params), iparams=list(iparams), total=total, time=time)


def save(path, d):
    from gwinferno.preprocess.data_collection import save_posterior_samples_and_injection_datasets_as_idata as s

    s(path, d["p"], d["i"])


def load(path, ignore=None):
    from gwinferno.pipeline.utils import load_pe_and_injections_as_dict as f

    return f(path) if ignore is None else f(path, ignore=ignore)


def judge(ctx, got, d, ignore=()):
    pe, inj, const, names = got
    keep = [i for i, n in enumerate(d["names"]) if n not in set(ignore)]
    rt = 1e-12 if ctx.x64 else 1e-6
    ctx.check(list(map(str, names)) == d["params"], "parameters in order", d["params"], names)
    ctx.check(sorted(map(str, pe)) == sorted(d["params"]) and sorted(map(str, inj)) == sorted(d["iparams"]), "every parameter of events and injections", d["params"], (list(pe), list(inj)))
    for j, k in enumerate(d["params"]):
        ctx.close(np.asarray(pe[k]), d["pe"][keep, j], "posterior samples of " + k, rtol=rt)
    for j, k in enumerate(d["iparams"]):
        ctx.close(np.asarray(inj[k]), d["inj"][j], "injections of " + k, rtol=rt)
    ctx.check(int(const["nObs"]) == len(keep), "number of observations", len(keep), const["nObs"])
    ctx.close(float(const["total_inj"]), d["total"], "number of generated injections", rtol=1e-12)
    ctx.close(float(const["obs_time"]), d["time"], "analysis time", rtol=1e-12)


def roundtrip(ctx):
    n = 0
    ev = ["GW150914", "GW190521", "GW170104", "S200105"]
    for ne, ns, ni, ps, (tot, t), sp in itertools.product((1, 2, 4), (1, 3), (1, 3), (ALL, ALL[::-1], ALL[:2] + ["prior"], ["prior"], ["redshift", "prior", "mass_1"]), ((1, 0.25), (1000.0, 1.5), (123456789, 1e-3), (4e9, 30)), (False, True)):
        if not ctx.thorough and (n % 3 and not (ne == 2 and ns == 3)):
            n += 1
            continue
        n += 1
        with ctx.at(events=ne, samples=ns, injections=ni, params=ps, total=tot, time=t, special=sp):
            d = dataset(n, ev[:ne], ps, ns, ni, tot, t, sp and ctx.x64)
            f = os.path.join(ctx.scratch, "r%d.h5" % n)
            before = d["p"].copy(deep=True), d["i"].copy(deep=True)
            save(f, d)
            ctx.check(before[0].identical(d["p"]) and before[1].identical(d["i"]), "saving leaves the datasets unchanged")
            judge(ctx, load(f), d)
            ctx.step(2)
            ctx.trace()
            os.unlink(f)
    for i, (ps, ips) in enumerate(itertools.product((ALL, ALL[::-1], ["mass_1", "prior"], ["redshift", "prior", "mass_1"]), repeat=2)):
        for ig in (None, [ev[1]]):
            with ctx.at(params=ps, injection_params=ips, ignore=ig):
                d = dataset(i, ev[:3], ps, 2, 3, iparams=ips)
                f = os.path.join(ctx.scratch, "q%d.h5" % i)
                save(f, d)
                judge(ctx, load(f, ig), d, ig or ())
                ctx.step(2)
                ctx.trace()
                os.unlink(f)
    for bad in ("x.nc", "x", "x.hdf"):
        with ctx.at(filename=bad):
            try:
                save(os.path.join(ctx.scratch, bad), dataset(0, ev[:1], ALL, 1, 1))
                ctx.fail("a file name without the required extension was accepted")
            except AssertionError:
                ctx.check(not os.path.exists(os.path.join(ctx.scratch, bad)), "nothing is written")


def ignoring(ctx, order):
    ev = ["GW150914", "GW190521", "GW170104", "GW190521_074359"]
    ev = [ev[i] for i in order]
    d = dataset(0, ev, ALL[:3] + ["prior"], 3, 2)
    f = os.path.join(ctx.scratch, "i.h5")
    save(f, d)
    pool = ev + ["GW999999"]
    for r in range(0, 5):
        for sel in itertools.permutations(pool, r):
            if not ctx.thorough and r >= 3 and sel[0] > sel[-1]:
                continue
            with ctx.at(order=order, ignore=sel):
                judge(ctx, load(f, list(sel)), d, sel)
                ctx.step()
                ctx.trace()
                ctx.outcome(sel)
    for sel in ((ev[0], ev[0]), (ev[1], "nothing", ev[1], ev[3])):
        for conv in (list, tuple, np.array):
            with ctx.at(order=order, ignore=sel, form=conv.__name__):
                judge(ctx, load(f, conv(sel)), d, sel)
                ctx.step()
                ctx.trace()


def histories(ctx, depth, first):
    """every sequence of saves and loads: a load gives what was last saved under that name"""
    A = dataset(1, ["e1", "e2", "e3"], ALL[:2] + ["prior"], 2, 2, 100.0, 1.0)
    B = dataset(50, ["e2", "e4"], ["prior", "redshift"], 1, 3, 7.0, 2.0)
    ops = [("save", "A", "x.h5"), ("save", "B", "x.h5"), ("save", "B", "y.h5"), ("load", None, "x.h5"), ("load", ["e2"], "x.h5"), ("load", ["e4", "e1"], "y.h5"), ("edit", "A", None)]
    n = 0
    for L in range(1, depth + 1):
        for h in itertools.product(range(len(ops)), repeat=L):
            if h[0] != first:
                continue
            # drop histories that end in a save or load a file never written, and prefixes are covered by shorter L
            if ops[h[-1]][0] != "load":
                continue
            written, ok = set(), True
            for o in h:
                if ops[o][0] == "save":
                    written.add(ops[o][2])
                elif ops[o][0] == "load" and ops[o][2] not in written:
                    ok = False
                    break
            if not ok:
                continue
            with ctx.at(history=[ops[o] for o in h]):
                n += 1
                dd = os.path.join(ctx.scratch, "h%d" % n)
                os.makedirs(dd)
                files = {}
                cur = dict(A=dict(A, p=A["p"].copy(deep=True), pe=A["pe"].copy()), B=B)
                for o in h:
                    kind, a, fn = ops[o]
                    p = os.path.join(dd, fn) if fn else None
                    if kind == "save":
                        save(p, cur[a])
                        files[fn] = dict(cur[a], pe=cur[a]["pe"].copy())
                    elif kind == "edit":
                        cur["A"]["p"]["posteriors"].values[0, 0, 0] += 10.0
                        cur["A"]["pe"] = cur["A"]["p"]["posteriors"].values.copy()
                    else:
                        judge(ctx, load(p, a), files[fn], a or ())
                    ctx.step()
                ctx.trace()
                __import__("shutil").rmtree(dd)
    ctx.sample(depth=depth, first=ops[first], histories=n)


def pipeline(ctx):
    """collected catalog and injections survive the file"""
    from checks import c17, c18
    from gwinferno.preprocess.data_collection import load_injection_dataset, load_posterior_dataset

    np.random.seed(0)
    meta, truth = c18.catalog(ctx, [c18.KINDS[1], c18.KINDS[3], c18.KINDS[5]])
    p = os.path.join(ctx.scratch, "inj.h5")
    c17.write_o3(p, 4, {"ifar_x": [0.4, 3.0, 2.0, 9.0]})
    for params in c18.SETS[:8]:
        with ctx.at(params=params):
            pe = load_posterior_dataset(catalog_metadata=meta, param_names=list(params))
            inj = load_injection_dataset(p, list(params))
            f = os.path.join(ctx.scratch, "all.h5")
            if os.path.exists(f):
                os.unlink(f)
            save(f, dict(p=pe, i=inj))
            for ig in (None, ["GW150914"], ["S000", "GW190412"]):
                d, i, c, names = load(f, ig)
                keep = [e for e in meta if not ig or e not in ig]
                ctx.check(sorted(map(str, d)) == sorted(params + ["prior"]), "parameters", params, list(d))
                for k in map(str, d):
                    ctx.close(np.asarray(d[k]), pe.posteriors.sel(param=k, event=keep).values, "collected " + k, rtol=1e-12 if ctx.x64 else 1e-6)
                    ctx.close(np.asarray(i[k]), inj.injections.sel(param=k).values, "collected injections " + k, rtol=1e-12 if ctx.x64 else 1e-6)
                ctx.check(int(c["nObs"]) == len(keep), "number of observations", len(keep), c["nObs"])
                ctx.close([float(c["total_inj"]), float(c["obs_time"])], [1234.0, 2.5], "constants", rtol=1e-9)
                ctx.step(2)
                ctx.trace()


def shards(tier):
    th = tier == "thorough"
    out = [Shard("roundtrip64", roundtrip, True, 8), Shard("roundtrip32", roundtrip, False, 8), Shard("pipeline64", pipeline, True, 4), Shard("pipeline32", pipeline, False, 4)]
    out += [Shard("ignore-%d" % i, ignoring, True, 8, order=o) for i, o in enumerate(((0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)))]
    out += [Shard("histories-%d" % i, histories, True, 6, depth=5 if th else 4, first=i) for i in (0, 1, 2, 6)]
    return out
