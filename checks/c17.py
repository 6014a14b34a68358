"""C17: injection selection keeps exactly the found injections and their density."""

import itertools
import os

import numpy as np
from checks.c15 import iso
from mc.core import Shard

PROPERTY = "C17"
BOUNDS = dict(
    o3="every pattern of two pipelines' inverse false-alarm rates {below, at, above the threshold} for 3 (thorough: 4) injections; every pattern of observing run x network SNR x false-alarm rate for pairs; additional cuts",
    o4a="every pattern of two pipelines' false-alarm rates and the network SNR {below, at, above} for pairs of injections",
    parameters="all 12 requested parameter sets incl. effective spins x thresholds {0.5, 1, 4} x {4, 8, 10}; in-plane spins present or absent; three spellings of the analysis time",
    columns="every name a rate column goes by x all found patterns of three injections; analysis times from 86 seconds to 11 years; every subset of in-plane spin components missing",
    resampling="all weight patterns over {0, 1, 3} for 4 injections; the same pattern over 4000 injections",
)
ASSUMPTIONS = [
    "O3 files need a rate strictly above the threshold and the network SNR strictly above, O4a files at least the SNR or at most the inverse threshold",
    "the effective-spin density of injections is accepted either as the push-forward or as the push-forward times the documented spurious factor (known finding)",
]
YR = 365.25 * 24 * 3600
M1 = np.array([35.0, 12.5, 71.0, 8.25])
M2 = np.array([20.0, 11.0, 9.5, 6.0])
Z = np.array([0.31, 0.07, 0.9, 0.02])
S = dict(
    spin1x=np.array([0.1, -0.4, 0.2, 0.05]), spin1y=np.array([0.3, 0.2, -0.1, 0.6]), spin1z=np.array([0.5, -0.3, 0.1, -0.2]),
    spin2x=np.array([-0.2, 0.1, 0.6, 0.3]), spin2y=np.array([0.1, -0.5, 0.1, 0.2]), spin2z=np.array([-0.1, 0.7, -0.4, 0.35]),
)
PDF = np.array([1.5e-3, 0.02, 4.4e-4, 0.7])


def write_o3(path, n, ifars, names=None, snr=None, inplane=True, tkey="analysis_time_s", total=1234.0, extra=None):
    import h5py

    with h5py.File(path, "w") as f:
        g = f.create_group("injections")
        for k, v in (("mass1_source", M1), ("mass2_source", M2), ("redshift", Z), ("sampling_pdf", PDF)):
            g[k] = v[:n]
        for k, v in S.items():
            if inplane or k[-1] == "z":
                g[k] = v[:n]
        for k, v in ifars.items():
            g[k] = np.asarray(v, float)
        g["optimal_snr_net"] = np.asarray(snr if snr is not None else np.full(n, 3.0), float)
        if names is not None:
            g["name"] = np.array(names, dtype="S3")
        for k, v in (extra or {}).items():
            g[k] = np.asarray(v, float)
        g.attrs["total_generated"] = total
        f.attrs[tkey] = 2.5 * YR


def spins(n, inplane=True):
    out = {}
    for i in (1, 2):
        x, y, z = (S["spin%d%s" % (i, c)][:n] for c in "xyz")
        if not inplane:
            x, y = 0 * x, 0 * y
        out["a_%d" % i] = np.sqrt(x * x + y * y + z * z)
        out["cos_tilt_%d" % i] = z / out["a_%d" % i]
    return out


def truth(n, params, pdf, inplane=True):
    d = dict(mass_1=M1[:n], mass_2=M2[:n], mass_ratio=M2[:n] / M1[:n], redshift=Z[:n])
    d.update(spins(n, inplane))
    p = pdf[:n].copy()
    if "mass_ratio" in params:
        p = p * M1[:n]
    if "a_1" in params or "chi_eff" in params:
        p = p * (2 * np.pi * d["a_1"] ** 2) * (2 * np.pi * d["a_2"] ** 2)
    d["prior"] = p
    return d


def compare(ctx, arr, exp, keep, labels, total=1234.0, time=2.5, rtol=None):
    """an injection array against the expected values of the injections kept."""
    rtol = rtol or (1e-9 if ctx.x64 else 1e-5)
    n = int(np.sum(keep))
    if not ctx.check(list(arr.injection.values) == list(range(n)), "exactly the found injections are kept", n, arr.injection.size):
        return
    if labels is not None:
        ctx.check(sorted(map(str, arr.param.values)) == sorted(labels), "parameters", sorted(labels), sorted(map(str, arr.param.values)))
    for k in map(str, arr.param.values):
        ctx.close(np.asarray(arr.sel(param=k).values, float), exp[k][keep], "found injections: " + k, rtol=rtol)
    ctx.close(float(arr.attrs["total_generated"]), total, "total number of generated injections", rtol=1e-12)
    ctx.close(float(arr.attrs["analysis_time"]), time, "analysis time in years", rtol=1e-9)


def o3_patterns(ctx, n, first):
    from gwinferno.preprocess.selection import get_o3_cumulative_injection_dict as read

    lv = {0: 0.3, 1: 2.0, 2: 9.0}
    params = ["mass_1", "mass_ratio", "redshift"]
    exp = truth(n, params, PDF)
    p = os.path.join(ctx.scratch, "o3.h5")
    for pat in itertools.product(range(9), repeat=n):
        if pat[0] % 3 != first:
            continue
        with ctx.at(pattern=pat):
            a, b = [lv[v % 3] for v in pat], [lv[v // 3] for v in pat]
            write_o3(p, n, {"ifar_gstlal": a, "pycbc_IFAR": b})
            keep = np.array([x > 2.0 or y > 2.0 for x, y in zip(a, b)])
            compare(ctx, read(p, params, ifar=2.0, snr=10), exp, keep, ["mass_1", "mass_2", "mass_ratio", "redshift", "prior"])
            ctx.step()
            ctx.trace()
            ctx.outcome(tuple(keep))
    ctx.sample(n=n, patterns="9^%d" % n)


def columns(ctx):
    """a false-alarm rate column counts wherever its name mentions one; analysis times of any length; missing in-plane components"""
    import h5py
    from gwinferno.preprocess import selection as Sel

    p = os.path.join(ctx.scratch, "cols.h5")
    params = ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
    labels = params + ["mass_2", "prior"]
    for name in ("ifar_cwb", "pycbc_ifar", "gstlal_IFAR_o3", "ifar", "IFAR"):
        for pat in itertools.product((0.3, 9.0), repeat=3):
            with ctx.at(o3=name, pattern=pat):
                write_o3(p, 3, {name: pat})
                compare(ctx, Sel.get_o3_cumulative_injection_dict(p, params), truth(3, params, PDF), np.array(pat) > 1, labels)
                ctx.step()
                ctx.trace()
    for name in ("far_cwb", "pycbc_far", "gstlal_far_o4", "far"):
        for pat in itertools.product((0.3, 9.0), repeat=3):
            for other in (None, "mbta_far"):
                with ctx.at(o4a=name, pattern=pat, other=other):
                    write_o4a(p, 3, {name: np.array(pat), **({other: np.array([5.0, 0.2, 7.0])} if other else {})}, np.full(4, 2.0))
                    keep = (np.array(pat) <= 1) | (np.array([False, True, False]) if other else False)
                    compare(ctx, Sel.get_o4a_cumulative_injection_dict(p, params), truth(3, params, np.exp(LNP) / W), keep, labels)
                    ctx.step()
                    ctx.trace()
    for days in (1e-3, 0.5, 1.0, 365.25, 4000.0):
        with ctx.at(analysis_days=days):
            for o4, w in ((False, lambda: write_o3(p, 3, {"ifar_x": [5.0, 0.1, 5.0]})), (True, lambda: write_o4a(p, 3, {"x_far": [0.2, 9.0, 0.2]}, np.full(4, 2.0)))):
                w()
                with h5py.File(p, "a") as f:
                    for k in list(f.attrs):
                        if "time" in k:
                            f.attrs[k] = days * 86400.0
                read = Sel.get_o4a_cumulative_injection_dict if o4 else Sel.get_o3_cumulative_injection_dict
                compare(ctx, read(p, params), truth(3, params, np.exp(LNP) / W if o4 else PDF), np.array([True, False, True]), labels, time=days / 365.25)
                ctx.step()
                ctx.trace()
    comps = [k for k in S if k[-1] != "z"]
    for r in range(len(comps) + 1):
        for gone in itertools.combinations(comps, r):
            with ctx.at(missing=gone):
                write_o3(p, 3, {"ifar_x": [5.0, 0.1, 5.0]})
                with h5py.File(p, "a") as f:
                    for k in gone:
                        del f["injections/" + k]
                exp = truth(3, params, PDF)
                sp = {k: (np.zeros(3) if k in gone else v[:3]) for k, v in S.items()}
                jac = exp["prior"] / ((2 * np.pi * exp["a_1"] ** 2) * (2 * np.pi * exp["a_2"] ** 2))
                for i in (1, 2):
                    a = np.sqrt(sum(sp["spin%d%s" % (i, c)] ** 2 for c in "xyz"))
                    exp["a_%d" % i], exp["cos_tilt_%d" % i] = a, sp["spin%dz" % i] / a
                    jac = jac * 2 * np.pi * a**2
                exp["prior"] = jac
                compare(ctx, Sel.get_o3_cumulative_injection_dict(p, params), exp, np.array([True, False, True]), labels)
                ctx.step()
                ctx.trace()


def o3_runs(ctx):
    from gwinferno.preprocess.selection import get_o3_cumulative_injection_dict as read

    one = list(itertools.product(("o1", "o2", "o3", "", "o3a", "O1"), (9.0, 10.0, 11.0), (0.5, 1.0, 1.5)))
    params = ["mass_1", "mass_ratio", "redshift"]
    exp = truth(2, params, PDF)
    p = os.path.join(ctx.scratch, "o3.h5")
    for x, y in itertools.product(one, one) if ctx.thorough else itertools.chain(((a, one[0]) for a in one), ((one[-1], a) for a in one), zip(one, one[5:] + one[:5])):
        with ctx.at(injections=(x, y)):
            write_o3(p, 2, {"ifar_cwb": [x[2], y[2]]}, names=[x[0], y[0]], snr=[x[1], y[1]])
            keep = np.array([i > 1 or (nm in ("o1", "o2") and s > 10) for nm, s, i in (x, y)])
            compare(ctx, read(p, params), exp, keep, None)
            ctx.step()
            ctx.trace()
    for cuts in ({}, {"optimal_snr_net": 7.0}, {"other": 0.5}, {"optimal_snr_net": 7.0, "other": 0.5}):
        for s in itertools.product((6.0, 7.0, 8.0), repeat=2):
            for o in itertools.product((0.2, 0.5), repeat=2):
                with ctx.at(cuts=cuts, snr=s, other=o):
                    write_o3(p, 2, {"ifar_x": [0.5, 3.0]}, snr=s, extra={"other": o})
                    keep = np.array([False, True])
                    for i in range(2):
                        keep[i] |= ("optimal_snr_net" in cuts and s[i] >= 7.0) or ("other" in cuts and o[i] >= 0.5)
                    compare(ctx, read(p, params, additional_cuts=dict(cuts)), exp, keep, None)
                    ctx.step()
                    ctx.trace()


SETS = [
    ["mass_1"], ["mass_1", "redshift"], ["mass_1", "mass_2", "redshift"], ["mass_1", "mass_ratio", "redshift"], ["redshift", "mass_ratio", "mass_1"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2"], ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_2", "redshift", "a_1", "cos_tilt_1", "a_2", "cos_tilt_2"], ["a_2", "cos_tilt_2", "a_1", "cos_tilt_1", "redshift", "mass_ratio", "mass_1"],
]
CHI = [["mass_1", "mass_ratio", "redshift", "chi_eff"], ["mass_1", "mass_2", "redshift", "chi_eff"], ["mass_1", "mass_ratio", "redshift", "chi_eff", "chi_p"]]


def through(ctx, flavour):
    """the public loader: requested parameters, thresholds, analysis-time spellings, effective spins"""
    from gwinferno.preprocess.data_collection import load_injection_dataset as load

    n = 4
    p = os.path.join(ctx.scratch, "inj.h5")
    ifar, snr = [0.4, 0.8, 3.0, 9.0], [5.0, 9.0, 11.0, 8.5]
    kw = dict(through_o4a=True) if flavour == "o4a" else {}
    for params, thr, sth, tkey, inplane in itertools.product(SETS + CHI[:2], (0.5, 1, 4), (4, 8, 10), ("analysis_time", "total_analysis_time", "analysis_time_s"), (True, False)):
        if not ctx.thorough and tkey != "analysis_time" and params is not SETS[3]:
            continue
        if not inplane and flavour == "o4a":
            continue
        with ctx.at(params=params, ifar=thr, snr=sth, time=tkey, inplane=inplane):
            if flavour == "o4a":
                write_o4a(p, n, {"gstlal_far": 1 / np.array(ifar)}, snr, tkey=tkey)
                keep = np.array([i >= thr or s >= sth for i, s in zip(ifar, snr)])
                pdf = np.exp(LNP) / W
            else:
                write_o3(p, n, {"ifar_x": ifar}, names=["o1", "o3", "o3", "o2"], snr=snr, tkey=tkey, inplane=inplane)
                keep = np.array([i > thr or (k in (0, 3) and s > sth) for k, (i, s) in enumerate(zip(ifar, snr))])
                pdf = PDF
            ds = load(p, list(params), ifar_threshold=thr, snr_threshold=sth, **kw)
            ctx.step()
            ctx.trace()
            arr = ds["injections"]
            exp = truth(n, params, pdf, inplane)
            arr.attrs.update({k: ds.attrs[k] for k in ("total_generated", "analysis_time") if k in ds.attrs})
            if "chi_eff" not in params:
                compare(ctx, arr, exp, keep, params + ["prior"])
            else:
                chi(ctx, arr, exp, keep, params)
    for bad in (dict(through_o3=False),) if flavour == "o3" else ():
        with ctx.at(neither=True):
            try:
                load(p, SETS[3], **bad)
                ctx.fail("neither injection file flavour requested but something was read")
            except AssertionError:
                pass
    with ctx.at(missing_time=True):
        if flavour == "o4a":
            write_o4a(p, n, {"gstlal_far": 1 / np.array(ifar)}, snr, tkey="unrelated")
        else:
            write_o3(p, n, {"ifar_x": ifar}, tkey="unrelated")
        try:
            load(p, SETS[3], **kw)
            ctx.fail("a file without an analysis time was read")
        except Exception as e:
            ctx.check("time" in str(e), "a missing analysis time is reported", observed=str(e))
    if flavour == "o3" or ctx.thorough:
        with ctx.at(params=CHI[2]):
            np.random.seed(3)
            if flavour == "o4a":
                write_o4a(p, n, {"gstlal_far": 1 / np.array(ifar)}, snr)
                keep, pdf = np.array([i >= 1 or s >= 10 for i, s in zip(ifar, snr)]), np.exp(LNP) / W
            else:
                write_o3(p, n, {"ifar_x": ifar})
                keep, pdf = np.array([i > 1 for i in ifar]), PDF
            arr = load(p, list(CHI[2]), **kw)["injections"]
            chi(ctx, arr, truth(n, CHI[2], pdf), keep, CHI[2])
            ctx.step()
            ctx.trace()


def chi(ctx, arr, exp, keep, params):
    q = exp["mass_ratio"]
    ce = (exp["a_1"] * exp["cos_tilt_1"] + q * exp["a_2"] * exp["cos_tilt_2"]) / (1 + q)
    cp = np.maximum(exp["a_1"] * np.sqrt(1 - exp["cos_tilt_1"] ** 2), q * (3 + 4 * q) / (4 + 3 * q) * exp["a_2"] * np.sqrt(1 - exp["cos_tilt_2"] ** 2))
    e = dict(exp, chi_eff=ce, chi_p=cp)
    labels = ["mass_1", "redshift", "chi_eff", "prior", "mass_2" if "mass_2" in params else "mass_ratio"] + (["chi_p"] if "chi_p" in params else [])
    ctx.check(sorted(map(str, arr.param.values)) == sorted(labels), "parameters", sorted(labels), sorted(map(str, arr.param.values)))
    for k in labels:
        if k != "prior":
            ctx.close(np.asarray(arr.sel(param=k).values, float), e[k][keep], "found injections: " + k, rtol=1e-9 if ctx.x64 else 1e-5, atol=1e-7)
    got = np.asarray(arr.sel(param="prior").values, float)
    marg = np.array([iso(c, r, 1.0) for c, r in zip(ce[keep], q[keep])])
    jac = (2 * np.pi * exp["a_1"][keep] ** 2) * (2 * np.pi * exp["a_2"][keep] ** 2)
    rt = 1e-3
    if "chi_p" in params:
        from checks.c15 import refcdf

        h = 0.05
        marg = np.array([m * (lambda F: (F[1] - F[0]) / (2 * h))(refcdf(c, r, 1.0, [v - h, v + h])) for m, c, r, v in zip(marg, ce[keep], q[keep], cp[keep])])
        rt = 0.35
    right = exp["prior"][keep] / 0.25 * marg  # uniform, isotropic component spins replaced by their push-forward
    legacy = exp["prior"][keep] / jac * marg
    d = lambda r: got.shape == r.shape and np.all(np.abs(got - r) <= rt * r)  # noqa: E731
    if d(right):
        return
    ctx.comparisons += got.size
    if d(legacy):
        ctx.fail("injection density in the effective spin keeps the spin-magnitude factor 1/(16 pi^2 a1^2 a2^2)", right[:3], got[:3], known="C17-chieff-density")
    else:
        ctx.fail("injection density in the effective spins", right, got)


LNP = np.log(PDF) - 2.0
W = np.array([1.0, 2.5, 0.4, 1.7])
NAME = "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"


def write_o4a(path, n, fars, snr, tkey="analysis_time", total=1234.0):
    import h5py

    cols = dict(mass1_source=M1, mass2_source=M2, redshift=Z, weights=W, semianalytic_observed_phase_maximized_snr_net=np.asarray(snr, float), **S, **{k: np.asarray(v, float) for k, v in fars.items()})
    cols[NAME] = LNP
    rec = np.zeros(n, dtype=[(k, "f8") for k in cols])
    for k, v in cols.items():
        rec[k] = v[:n]
    with h5py.File(path, "w") as f:
        f["events"] = rec
        f.attrs["total_generated"] = total
        f.attrs[tkey] = 2.5 * YR


def o4a_patterns(ctx, first):
    from gwinferno.preprocess.selection import get_o4a_cumulative_injection_dict as read

    p = os.path.join(ctx.scratch, "o4.h5")
    params = ["mass_1", "mass_ratio", "redshift"]
    exp = truth(2, params, np.exp(LNP) / W)
    fl, sl = (0.2, 0.5, 0.9), (7.0, 9.0, 11.0)
    one = list(itertools.product(fl, fl, sl))
    for x, y in itertools.product(one[first::3], one):
        with ctx.at(injections=(x, y)):
            write_o4a(p, 2, {"pycbc_far": [x[0], y[0]], "gstlal_far": [x[1], y[1]]}, [x[2], y[2]])
            keep = np.array([a <= 0.5 or b <= 0.5 or s >= 9.0 for a, b, s in (x, y)])
            compare(ctx, read(p, params, ifar=2.0, snr=9.0), exp, keep, ["mass_1", "mass_2", "mass_ratio", "redshift", "prior"])
            ctx.step()
            ctx.trace()
            ctx.outcome(tuple(keep))


def counts(ctx):
    """total generated and analysis time do not depend on how many injections are found"""
    from gwinferno.preprocess import selection as Sel

    p = os.path.join(ctx.scratch, "c.h5")
    for n, k, total in itertools.product((1, 2, 3, 4), range(5), (1.0, 7.0, 5e8)):
        if k > n:
            continue
        with ctx.at(n=n, found=k, total=total):
            params = ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]
            i = np.where(np.arange(n) < k, 5.0, 0.1)
            keep = np.arange(n) < k
            write_o3(p, n, {"ifar_x": i}, total=total)
            compare(ctx, Sel.get_o3_cumulative_injection_dict(p, params), truth(n, params, PDF), keep, params + ["mass_2", "prior"], total=total)
            write_o4a(p, n, {"x_far": 1 / i}, np.full(4, 2.0), total=total)
            compare(ctx, Sel.get_o4a_cumulative_injection_dict(p, params), truth(n, params, np.exp(LNP) / W), keep, params + ["mass_2", "prior"], total=total)
            ctx.step(2)
            ctx.trace(2)


def resample(ctx):
    import jax
    import jax.numpy as jnp
    from gwinferno.preprocess.selection import resample_injections

    pm = dict(mass_1=0, weight=1, prior=2)
    pri = np.array([0.5, 2.0, 1.0, 4.0])
    for w in itertools.product((0.0, 1.0, 3.0), repeat=4):
        w = np.array(w)
        if not w.any():
            continue
        for Ndraw, seed in ((10, 0), (400, 3)):
            with ctx.at(weights=w, Ndraw=Ndraw, seed=seed):
                dat = jnp.asarray(np.array([M1, w * pri, pri]))
                model = lambda d, scale: d[1] * scale  # noqa: E731
                new, N, neff = resample_injections(jax.random.PRNGKey(seed), model, dat, Ndraw, pm, scale=2.0)
                new = np.asarray(new, float)
                ww = 2.0 * w
                norm = ww.sum() / Ndraw
                ne = ww.sum() ** 2 / (ww**2).sum()
                ctx.check(abs(N - np.floor(ne + 1e-6)) <= (1 if abs(ne - round(ne)) < 1e-3 else 0) and new.shape == (3, N), "as many draws as effective injections", ne, (N, new.shape))
                for j in range(new.shape[1]):
                    i = int(np.argmin(np.abs(M1 - new[0, j])))
                    ctx.check(w[i] > 0, "only injections with weight are drawn", observed=i)
                    ctx.close(new[:, j], np.array([M1[i], w[i] * pri[i], 2.0 * w[i] * pri[i] / norm]), "drawn injections keep their parameters and carry the model density", rtol=1e-5)
                s2 = (ww**2).sum() / Ndraw**2 - norm**2 / Ndraw
                if s2 > 1e-9:
                    ctx.close(float(neff), norm**2 / s2, "effective number of the resampled injections", rtol=1e-3)
                ctx.step()
                ctx.trace()

    # one heavy injection among eleven: draws are made with replacement, so it is drawn more than once and not always
    w = np.array([10.0] + [1.0] * 10)
    m1 = 5.0 + np.arange(11.0)
    N = int(np.floor(w.sum() ** 2 / (w**2).sum() + 1e-6))
    times = []
    for seed in range(120):
        with ctx.at(heavy=True, seed=seed):
            new, n, _ = resample_injections(jax.random.PRNGKey(seed), lambda d: d[1], jnp.asarray(np.array([m1, w, np.ones(11)])), 100, pm)
            times.append(int((np.asarray(new[0]) == 5.0).sum()))
            ctx.check(n == N, "as many draws as effective injections", N, n)
            ctx.step()
            ctx.trace()
    with ctx.at(heavy=True, seeds=120):
        ctx.check(max(times) >= 2 and min(times) == 0, "an injection may be drawn several times or not at all", observed=np.bincount(times))
        m = np.mean(times)
        ctx.check(abs(m - N / 2) < 6 * np.sqrt(N / 4 / 120), "injections are drawn in proportion to their weights", N / 2, m)
    for base in itertools.product((0.0, 1.0, 3.0), repeat=3):
        w = np.resize(np.array(base), 4000)
        if not w.any():
            continue
        with ctx.at(weights=base, injections=4000):
            pri = 0.5 + np.arange(4000) % 7
            m1 = 5.0 + np.arange(4000) / 64.0
            new, N, _ = resample_injections(jax.random.PRNGKey(1), lambda d: d[1], jnp.asarray(np.array([m1, w * pri, pri])), 10**6, pm)
            ne = w.sum() ** 2 / (w**2).sum()
            ctx.check(abs(N - np.floor(ne + 1e-6)) <= (1 if abs(ne - round(ne)) < 1e-3 else 0) and np.shape(new) == (3, N), "as many draws as effective injections", ne, (N, np.shape(new)))
            i = np.clip(np.round((np.asarray(new[0], float) - 5.0) * 64).astype(int), 0, 3999)
            ctx.check((w[i] > 0).all(), "only injections with weight are drawn", observed=i[w[i] == 0][:3])
            ctx.close(np.asarray(new[2], float), w[i] * pri[i] / (w.sum() / 1e6), "drawn injections carry the model density", rtol=1e-5)
            ctx.check(len(np.unique(i)) > 0.3 * len(i) , "injections are drawn independently", len(i), len(np.unique(i)))
            ctx.step()
            ctx.trace()


def shards(tier):
    out = [Shard("o3-patterns-%d" % i, o3_patterns, True, 6, n=4 if tier == "thorough" else 3, first=i) for i in range(3)]
    out += [Shard("o4a-patterns-%d" % i, o4a_patterns, True, 6, first=i) for i in range(3)]
    out += [Shard("o3-runs", o3_runs, True, 5), Shard("through-o3", through, True, 6, flavour="o3"), Shard("through-o4a", through, True, 6, flavour="o4a")]
    out += [Shard("through32-o4a", through, False, 6, flavour="o4a"), Shard("counts", counts, True, 3), Shard("resample", resample, True, 4), Shard("columns", columns, True, 4)]
    return out
