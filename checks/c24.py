"""C24: models, densities and estimators are pure: no call affects its arguments or any other call."""

import itertools
import os
import pickle
import subprocess
import sys

import numpy as np
from checks import ops
from mc.core import Shard

PROPERTY = "C24"
BOUNDS = dict(
    operations="about 260 calls: every operation of the registry at two hyper-parameter settings, model constructors with every way of passing options, conversions, spin priors, catalog priors, estimators, cosmology, export and prediction functions",
    histories="every ordered pair of calls within a group (a walk in which every ordered pair of operations is consecutive; for constructors and predictions in the quick tier a repetition of the whole sequence); three process histories per group (forward, backward, interleaved order of first calls), so that every call is made first both before and after every other one",
    generators="every call between two seedings of the global generators",
    arguments="numpy arrays, dictionaries, lists and labelled arrays, the same objects in every call",
)
ASSUMPTIONS = [
    "results are compared to 1e-11 relative (32-bit: 1e-5): rounding of vectorised kernels is not judged",
    "results that depend on the cosmology tables may change by interpolation accuracy (5e-5) when the tables are extended by another call",
    "functions whose documented result is random (catalog down-sampling, the sampled effective precession prior) are not compared",
]


def copy(x):
    """deep snapshot of an argument or a result as plain numpy containers"""
    if isinstance(x, dict):
        return {str(k): copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [copy(v) for v in x]
    if hasattr(x, "data_vars"):
        return dict(data={str(k): copy(x[k]) for k in x.data_vars}, attrs=copy(dict(x.attrs)))
    if hasattr(x, "dims") and hasattr(x, "coords"):
        return dict(values=np.array(x.values), dims=[str(d) for d in x.dims], coords={str(k): np.array(v.values) for k, v in x.coords.items()}, attrs=copy(dict(x.attrs)))
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    return np.array(x)


def same(a, b, tol):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind not in "fc":
            return bool(np.array_equal(a, b))
        if tol == 0:
            return bool(np.array_equal(a, b, equal_nan=True))
        top = np.abs(np.where(np.isfinite(a), a, 0)).max(initial=0)
        return bool(np.allclose(a, b, rtol=tol, atol=tol * top * 1e-3, equal_nan=True))
    return a == b


def plain(h):
    return {k: (float(v) if np.ndim(v) == 0 else np.array(v, float)) for k, v in h.items()}


def registry(group):
    out = {}
    for name, op in ops.load(group).items():
        for i in sorted({0, len(op["lattice"]) - 1}):
            out["%s@%d" % (name, i)] = (op["f"], (plain(op["lattice"][i]), {k: np.array(v) for k, v in op["data"].items()}), op["cosmo"])
    return out


def construct():
    """model construction followed by evaluation: arguments of the constructors are the caller's"""
    from gwinferno import interpolation as I
    from gwinferno.models import spline_perturbation as SP
    from gwinferno.models.bsplines import separable as S
    from gwinferno.models.bsplines import single as B
    from gwinferno.models.parametric import parametric as P
    from gwinferno.pipeline import utils as U

    m, q, a, t, z = ops.pe(3.2, 97.0), ops.pe(0.1, 0.99, 7), ops.pe(0.02, 0.97), ops.pe(-0.99, 0.97), ops.pe(0.02, 1.2)
    f = lambda x: x.ravel()[::-1].copy()  # noqa: E731
    c6, c5 = ops.cvec(6, 0), ops.cvec(5, 1)
    kn = np.linspace(-0.75, 1.75, 11)
    out = {}

    def add(name, fn, *args, cosmo=False):
        out[name] = (fn, args, cosmo)

    for cls in ("BSpline", "LogYBSpline"):
        for norm in (True, False):
            add("%s(%s)" % (cls, norm), lambda x, c, cls=cls, norm=norm: getattr(I, cls)(6, xrange=(0.0, 1.0), normalize=norm)(x, c), a, np.abs(c6) + 0.1)
        add(cls + "(knots)", lambda x, c, k, kw, cls=cls: getattr(I, cls)(7, knots=k, normalize=False, **kw).bases(x), a, c6, kn, dict(xrange=(0.0, 1.0), k=4))
    add("get_coefficients", lambda x, y: I.BSpline(6, normalize=False).get_coefficients(x, y), np.linspace(0.01, 0.99, 30), np.sin(np.linspace(0, 3, 30)))
    add("NaturalCubic", lambda k, y, x: I.NaturalCubicUnivariateSpline(k, y)(x), np.array([0.0, 0.2, 0.5, 1.0]), np.array([1.0, -1.0, 2.0, 0.5]), a)
    add("Rect", lambda x, y, c: (lambda r: r.project(r.bases(x, y), c))(I.RectBivariateBasisSpline(4, 5, normalize=True)), a.ravel(), q.ravel(), np.arange(20.0).reshape(4, 5) + 1)
    add("Rect(small)", lambda x, y, c: (lambda r: r.project(r.bases(x, y), c))(I.RectBivariateBasisSpline(5, 4, normalize=False)), q.ravel(), a.ravel(), np.arange(20.0).reshape(5, 4) + 1)
    add("SpinMagnitude", lambda x, y, c: B.BSplineSpinMagnitude(6, x, y)(c), a, f(a), c6)
    add("SpinMagnitude(kw)", lambda x, y, c, kw: B.BSplineSpinMagnitude(5, x, y, **kw)(c, pe_samples=False), a, f(a), c5, dict(xrange=(0.0, 1.2), normalize=True))
    add("Tilt", lambda x, y, c: B.BSplineSpinTilt(6, x, y)(c), t, f(t), c6)
    add("Mass", lambda x, y, c: B.BSplineMass(6, x, y, mmin=2.0, mmax=100.0)(c), m, f(m), c6)
    add("Ratio", lambda x, y, c: B.BSplineRatio(6, x, y)(c), q, f(q), c6)
    add("Ratio(qmin)", lambda x, y, c: B.BSplineRatio(5, x, y, qmin=0.1)(c), q, f(q), c5)
    add("Redshift", lambda x, y, v, w, c: B.BSplineRedshift(6, x, y, v, w)(c), z, f(z), 1 + z, 1 + f(z), c6, cosmo=True)
    kw1, kw2 = dict(normalize=True), dict(normalize=True, xrange=(0.0, 1.1))
    add("IndependentMagnitudes(kw)", lambda x, y, c, e, k1, k2: S.BSplineIndependentSpinMagnitudes(6, 5, x, y, f(x), f(y), kwargs1=k1, kwargs2=k2)(c, e), a, q, c6, c5, kw1, kw2)
    add("IndependentMagnitudes", lambda x, y, c, e: S.BSplineIndependentSpinMagnitudes(6, 5, x, y, f(x), f(y))(c, e), a, q, c6, c5)
    add("IIDMagnitudes", lambda x, y, c: S.BSplineIIDSpinMagnitudes(6, x, y, f(x), f(y))(c), a, q, c6)
    add("IndependentTilts(kw)", lambda x, y, c, e, k1: S.BSplineIndependentSpinTilts(6, 5, x, y, f(x), f(y), kwargs1=k1)(c, e), t, t[::-1].copy(), c6, c5, dict(normalize=True))
    add("PrimaryRatio(kw)", lambda x, y, c, e, k1, k2: S.BSplinePrimaryBSplineRatio(6, 5, x, f(x), y, f(y), kwargs_m=k1, kwargs_q=k2)(c, e), m, q, c6, c5, dict(normalize=True), dict(normalize=True))
    add("PrimaryRatio", lambda x, y, c, e: S.BSplinePrimaryBSplineRatio(6, 5, x, f(x), y, f(y), m1min=2.0, m2min=2.5)(c, e), m, q, c6, c5)
    add("ComponentMasses(kw)", lambda x, y, c, e, k1, k2: S.BSplineIndependentComponentMasses(6, 5, x, y, f(x), f(y), mmin2=0.2, kwargs1=k1, kwargs2=k2)(c, e, 1.5), m, m * q, c6, c5, dict(normalize=True), {})
    add("Effective(kw)", lambda x, y, c, e, k1: S.BSplineEffectiveSpinDims(6, 5, x, y, f(x), f(y), kwargs_e=k1)(c, e), t, a, np.abs(c6), np.abs(c5), {})
    add("Perturbed(kw)", lambda x, y, c, kw: SP.PowerlawBasisSplinePrimaryPowerlawRatio(6, x, f(x))(x, y, **kw), m, q, c6, dict(alpha=2.0, mmin=3.0, mmax=100.0, cs=c6, beta=1.0))
    add("RedshiftModel", lambda x, y: P.PowerlawRedshiftModel(x, y)(x, 2.0), z, f(z), cosmo=True)
    ped, ind = dict(mass_1=m, mass_ratio=q, a_1=a, a_2=q, cos_tilt_1=t, cos_tilt_2=t, redshift=z), {k: f(v) for k, v in dict(mass_1=m, mass_ratio=q, a_1=a, a_2=q, cos_tilt_1=t, cos_tilt_2=t, redshift=z).items()}
    add("setup_mass", lambda p, i, c, e: U.setup_bspline_mass_models(p, i, 6, 5, 3.0, 100.0)(c, e), ped, ind, c6, c5)
    add("setup_spin_iid", lambda p, i, c: [mm(c) for mm in U.setup_bspline_spin_models(p, i, 6, 6, IID=True)], ped, ind, c6)
    add("setup_spin", lambda p, i, c: [mm(c, c) for mm in U.setup_bspline_spin_models(p, i, 6, 6, a2_nsplines=6, ct2_nsplines=6)], ped, ind, c6)
    add("setup_redshift", lambda p, i, c: (lambda zm: zm(p["redshift"], 1.5, c))(U.setup_powerlaw_spline_redshift_model(p, i, 6)), ped, ind, c6, cosmo=True)
    return out


def options():
    """every model class with its defaults and with every way of passing options: no option given once is remembered"""
    from gwinferno import interpolation as I
    from gwinferno.models.bsplines import separable as S
    from gwinferno.models.bsplines import single as B

    m, q, a, b, t, u = ops.pe(3.2, 97.0), ops.pe(0.1, 0.99, 7), ops.pe(0.02, 0.97), ops.pe(0.1, 0.9, 7), ops.pe(-0.99, 0.97), ops.pe(-0.9, 0.99, 7)
    f = lambda x: x.ravel()[::-1].copy()  # noqa: E731
    c4, c5 = ops.cvec(4, 0), ops.cvec(5, 1)
    off, on = dict(normalize=False), dict(normalize=True)
    lin = dict(basis=I.BSpline)
    out = {}

    def flip(nm):
        """the other normalisation than the class's default"""
        return on if nm in ("Effective", "ChiEff", "ChiP", "SymChiEff") else off

    def both(model, *c):
        return [model(*c), model(*c, pe_samples=False)]

    two = dict(
        Magnitudes=(S.BSplineIndependentSpinMagnitudes, (a, b), "kwargs1", "kwargs2"),
        Tilts=(S.BSplineIndependentSpinTilts, (t, u), "kwargs1", "kwargs2"),
        Masses=(S.BSplineIndependentComponentMasses, (m, 0.05 * m + 3), "kwargs1", "kwargs2"),
        Effective=(S.BSplineEffectiveSpinDims, (t, a), "kwargs_e", "kwargs_p"),
    )
    for nm, (cls, (x, y), k1, k2) in two.items():
        for tag, kw in (("", {}), ("(shared)", flip(nm)), ("(first)", {k1: dict(flip(nm))}), ("(second)", {k2: dict(flip(nm))}), ("(basis)", {k1: dict(lin), k2: dict(lin)})):
            out[nm + tag] = (lambda x, y, c, e, kw, cls=cls: both(cls(4, 5, x, y, f(x), f(y), **kw), c, e), (x, y, np.abs(c4) + 0.1, np.abs(c5) + 0.1, kw), False)
    for tag, kw in (("", {}), ("(shared)", off), ("(first)", dict(kwargs_m=dict(off))), ("(second)", dict(kwargs_q=dict(off)))):
        out["PrimaryRatio" + tag] = (lambda x, y, c, e, kw: both(S.BSplinePrimaryBSplineRatio(4, 5, x, f(x), y, f(y), **kw), c, e), (m, q, c4, c5, kw), False)
    one = dict(IIDMagnitudes=(S.BSplineIIDSpinMagnitudes, (a, b)), IIDTilts=(S.BSplineIIDSpinTilts, (t, u)), IIDMasses=(S.BSplineIIDComponentMasses, (m, 0.05 * m + 3)))
    for nm, (cls, (x, y)) in one.items():
        for tag, kw in (("", {}), ("(shared)", off)):
            out[nm + tag] = (lambda x, y, c, kw, cls=cls: both(cls(4, x, y, f(x), f(y), **kw), c), (x, y, c4, kw), False)
    single = dict(Magnitude=(B.BSplineSpinMagnitude, a), Tilt=(B.BSplineSpinTilt, t), Mass=(B.BSplineMass, m), Ratio=(B.BSplineRatio, q), ChiEff=(B.BSplineChiEffective, t), ChiP=(B.BSplineChiPrecess, a), SymChiEff=(B.BSplineSymmetricChiEffective, t))
    for nm, (cls, x) in single.items():
        n = 4
        for tag, kw in (("", {}), ("(flip)", flip(nm)), ("(range)", dict(xrange=(float(x.min()) - 0.2 * (x.min() < 0), float(x.max())))), ("(degree)", dict(degree=2))):
            if tag == "(range)" and nm in ("Mass", "SymChiEff"):
                continue
            out[nm + tag] = (lambda x, c, kw, cls=cls, n=n: both(cls(n, x, f(x), **kw), c), (x, np.abs(ops.cvec(4, 2)) + 0.1, kw), False)
    return out


def data():
    """conversions, priors, catalog steps, estimators, exports, cosmology"""
    import jax
    import jax.numpy as jnp
    import xarray as xr
    from gwinferno.cosmology import PLANCK_2015_Cosmology as C1
    from gwinferno.cosmology import PLANCK_2015_LVK_Cosmology as C2
    from gwinferno.cosmology import Cosmology
    from gwinferno.pipeline import analysis as A
    from gwinferno.pipeline import utils as U
    from gwinferno.preprocess import conversions as CV
    from gwinferno.preprocess import data_collection as DC
    from gwinferno.preprocess import priors as PR
    from gwinferno.preprocess.selection import resample_injections

    out = {}

    def add(name, fn, *args, cosmo=False):
        out[name] = (fn, args, cosmo)

    m, q, a, b, t, u, z = ops.pe(3.2, 97.0), ops.pe(0.1, 0.99, 7), ops.pe(0.02, 0.97), ops.pe(0.1, 0.9, 7), ops.pe(-0.99, 0.97), ops.pe(-0.9, 0.99, 7), ops.pe(0.02, 1.2)
    add("chieff", CV.chieff_from_q_component_spins, q, a, b, t, u)
    add("chip", CV.chip_from_q_component_spins, q, a, b, t, u)
    add("mu_var", CV.mu_var_from_alpha_beta, 1 + 4 * a, 2 + b)
    add("mu_var(max)", lambda x, y: CV.mu_var_from_alpha_beta(x, y, xmax=0.8), 1 + 4 * a, 2 + b)
    add("alpha_beta", CV.alpha_beta_from_mu_var, 0.3 + 0.3 * a, 0.01 + 0.05 * b)
    add("alpha_beta(max)", lambda x, y: CV.alpha_beta_from_mu_var(x, y, xmax=1.5), 0.3 + 0.3 * a, 0.01 + 0.05 * b)
    add("Di", PR.Di, t.ravel())
    for am in (1.0, 0.6):
        add("aligned(%s)" % am, lambda x, y, am=am: PR.chi_effective_prior_from_aligned_spins(x, y, a_max=am), t.ravel() * 0.5, q.ravel())
        add("isotropic(%s)" % am, lambda x, y, am=am: PR.chi_effective_prior_from_isotropic_spins(x, y, a_max=am), t.ravel() * 0.5, q.ravel())
        add("chip(%s)" % am, lambda x, y, am=am: PR.chi_p_prior_from_isotropic_spins(x, y, a_max=am), a.ravel() * 0.6, q.ravel())
    add("dl2(e)", lambda x: DC.dl_2_prior_on_z(x, euclidean=True), z, cosmo=True)
    add("dl2(c)", DC.dl_2_prior_on_z, z, cosmo=True)
    prm = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"]

    def catalog(s, hi):
        arr = [m, m * q, q, z * hi, a, b, t, u]
        ev = {"e%d" % i: xr.DataArray(np.array([v[i] for v in arr]) * (1 if i else s), dims=["param", "samples"], coords=dict(param=prm, samples=np.arange(4)), attrs=dict(redshift_prior=("euclidean", "comoving")[i % 2], catalog="GWTC-3")) for i in range(2)}
        return xr.Dataset(ev)

    add("append_prior", DC.append_prior_to_processed_catalog, catalog(1.0, 1.0), list(prm[:4]), cosmo=True)
    add("append_prior(far)", DC.append_prior_to_processed_catalog, catalog(0.9, 2.5), ["mass_1", "redshift", "a_1"], cosmo=True)
    full = xr.DataArray(np.array([m, m * q, q, z, a, b, t, u, 0.1 + a]).transpose(1, 0, 2).copy(), dims=["event", "param", "samples"], coords=dict(event=["x", "y", "w"], param=prm + ["prior"], samples=np.arange(4)), attrs=dict(note="n"))
    add("to_chieff", DC.convert_component_spins_to_chieff, full, ["mass_1", "mass_ratio", "redshift", "chi_eff"])
    flat = xr.DataArray(np.array([v.ravel() for v in (m, m * q, q, z, a, b, t, u, 0.1 + a)]), dims=["param", "injection"], coords=dict(param=prm + ["prior"], injection=np.arange(12)), attrs=dict(total_generated=100.0, analysis_time=1.5))
    add("to_chieff(inj)", lambda x, p: DC.convert_component_spins_to_chieff(x, p, injections=True), flat, ["mass_1", "mass_ratio", "redshift", "chi_eff"])
    inj = jnp.asarray(np.array([m.ravel(), q.ravel(), 0.1 + a.ravel()]))
    add("resample", lambda x, mp, kw: resample_injections(jax.random.PRNGKey(3), lambda d, s: d[1] ** s, x, 50, mp, **kw), inj, dict(mass_1=0, mass_ratio=1, prior=2), dict(s=2.0))
    w = ops.pe(0.1, 3.0)
    for log in (False, True):
        add("bayes(%s)" % log, lambda x, log=log: A.per_event_log_bayes_factors(x, log=log), np.log(w) if log else w)
        add("efficiency(%s)" % log, lambda x, log=log: A.detection_efficiency(x, 100, log=log), (np.log(w) if log else w).ravel())
    add("posterior_export", U.posterior_dict_to_xarray, dict(alpha=a.ravel()[:4].copy(), cs=m.reshape(4, 3), zz=t.reshape(4, 3)))
    add("posterior_export(2)", U.posterior_dict_to_xarray, dict(cs=m.reshape(4, 3)))
    P3 = dict(mass_1=[m, q], a_1=[a, b], redshift=z)
    G = dict(mass_1=np.arange(4.0), a_1=np.arange(4.0) / 4, redshift=np.arange(4.0) / 9)
    add("pdf_export", lambda p, g: U.pdf_dict_to_xarray(p, g, 3), dict(mass_1=m, redshift=z), {k: G[k] for k in ("mass_1", "redshift")})
    add("pdf_export(sub)", lambda p, g, n: U.pdf_dict_to_xarray(p, g, 3, subpop_names=n), P3, G, ["A", "B"])
    for nm, C in (("P15", C1), ("LVK", C2)):
        for fn in ("z2DL", "dVcdz", "logdVcdz", "z2Dc", "dDcdz", "z2E"):
            add("%s.%s" % (nm, fn), getattr(C, fn), z.ravel(), cosmo=True)
        add(nm + ".DL2z", C.DL2z, 100 + 4000 * a.ravel(), cosmo=True)
        add(nm + ".far", C.z2DL, np.array([0.5, 14.0]), cosmo=True)
    add("Cosmology", lambda x: Cosmology(70.0, 0.3, 0.0, 0.7, max_z=2.0).z2DL(x), z.ravel(), cosmo=True)
    add("Cosmology(2)", lambda x: Cosmology(50.0, 1.0, 0.0, 0.0, max_z=2.0).z2Dc(x), z.ravel(), cosmo=True)
    return out


def predictions():
    from gwinferno.models.parametric.parametric import PowerlawRedshiftModel
    from gwinferno.pipeline.utils import setup_powerlaw_spline_redshift_model
    from gwinferno.postprocess import calculations as K

    out = {}

    def add(name, fn, *args, cosmo=False):
        out[name] = (fn, args, cosmo)

    z = ops.pe(0.02, 1.2)
    r, f = np.array([20.0, 3.0]), np.array([0.2, 0.9])
    al, be = np.array([-2.0, -3.0]), np.array([1.0, -0.5])
    cm, cq = np.stack([ops.cvec(6, 0), ops.cvec(6, 1)]), np.stack([ops.cvec(5, 1), ops.cvec(5, 0)])
    for nm, kw in (("", {}), ("(scaled)", dict(rate=r, pop_frac=f))):
        add("masses" + nm, lambda a, b, n, kw: K.calculate_bspline_mass_ppds(a, b, n, 3.0, 100.0, **kw), cm, cq, dict(m1=6, q=5), kw)
        add("plpeak" + nm, lambda a, b, kw: K.calculate_powerlaw_peak_mass_ppds(a, b, np.array([35.0, 20.0]), np.array([3.0, 6.0]), np.array([0.1, 0.4]), 5.0, 90.0, **kw), al, be, kw)
        add("logpeak" + nm, lambda a, n, kw: K.calculate_peak_logm1_bspline_q_ppds(np.array([2.5, 3.0]), np.array([0.2, 0.4]), a, n, 3.0, 100.0, **kw), cq, dict(q=5), kw)
        add("beta" + nm, lambda a, b, kw: K.calculate_beta_spin_mag(a, b, amax=0.9 if kw else 1, **kw), 2 - al, 2 + be, kw)
        add("tilt" + nm, lambda a, b, kw: K.calculate_mixture_iso_aligned_spin_tilt(a, b, **kw), f + 0.1, f, kw)
        add("iid" + nm, lambda a, b, n, kw: K.calculate_bspline_spin_ppds(a, b, n, **kw), cm, cq, dict(a=6, tilt=5), kw)
        add("ind" + nm, lambda a, b, n, kw: K.calculate_bspline_spin_ppds(a, b, n, a2_cs=b, tilt2_cs=a, **kw), cm, cq, dict(a1=6, tilt1=5, a2=5, tilt2=6), kw)
    import jax.numpy as jnp

    pl = PowerlawRedshiftModel(jnp.asarray(z), jnp.asarray(z.ravel()))
    sp = setup_powerlaw_spline_redshift_model(dict(redshift=jnp.asarray(z)), dict(redshift=jnp.asarray(z.ravel())), 6)
    for nm, kw in (("", {}), ("(scaled)", dict(pop_frac=f))):
        add("rate_of_z" + nm, lambda a, r, kw: K.calculate_powerlaw_rate_of_z_ppds(a, r, pl, **kw), al, r, kw, cosmo=True)
        add("rate_of_z_spline" + nm, lambda a, c, r, kw: K.calculate_powerlaw_spline_rate_of_z_ppds(a, c, r, sp, **kw), al, cq, r, kw, cosmo=True)
    add("model.rate", lambda: pl(jnp.asarray(z), 2.0), cosmo=True)
    return out


def cross():
    """some calls of every group: histories across modules"""
    out = {}
    for g in ("parametric", "splines", "perturbed", "samplers", "likelihood"):
        c = registry(g)
        ks = list(c)
        for k in ks[1 :: max(1, len(ks) // 5)]:
            out[g + ":" + k] = c[k]
    for nm, c in (("construct", construct()), ("data", data())):
        ks = list(c)
        for k in ks[2 :: max(1, len(ks) // 6)]:
            out[nm + ":" + k] = c[k]
    for k in ("P15.far", "LVK.far", "append_prior(far)", "dl2(c)"):
        out["data:" + k] = data()[k]
    return out


GROUPS = dict(
    parametric=lambda: registry("parametric"),
    splines=lambda: registry("splines"),
    perturbed=lambda: registry("perturbed"),
    samplers=lambda: registry("samplers"),
    likelihood=lambda: registry("likelihood"),
    construct=construct,
    options=options,
    data=data,
    predictions=predictions,
    cross=cross,
)
ORDERS = ("forward", "backward", "interleaved")


def ordered(names, order):
    if order == "backward":
        return names[::-1]
    if order == "interleaved":
        h = len(names) // 2
        return [n for p in itertools.zip_longest(names[h:], names[:h]) for n in p if n is not None]
    return names


def walk(n):
    """a sequence over n letters in which every ordered pair (also of a letter with itself) is consecutive"""
    seq = []
    for i in range(n):
        seq.append(i)
        for j in range(i + 1, n):
            seq += [i, j]
    return seq + [0]


def run(call, log):
    """one call; returns its result, records a modification of its arguments"""
    fn, args, _ = call
    before = copy(list(args))
    try:
        res = copy(fn(*args))
    except Exception as e:  # a call that cannot be evaluated is judged like any other result
        res = ["raised", type(e).__name__]
        log.append("raised %s: %s" % (type(e).__name__, str(e)[:150]))
    if not same(before, copy(list(args)), 0):
        log.append("arguments modified")
    return res


def execute(group, order, walks=True):
    """first calls in the given order, then the walk; returns {name: first result}, list of violations, number of calls"""
    x64 = os.environ.get("JAX_ENABLE_X64") == "1"
    calls = GROUPS[group]()
    names = ordered(list(calls), order)
    first, bad, n, hist = {}, [], 0, []
    for nm in names:
        log = []
        first[nm] = run(calls[nm], log)
        hist.append(nm)
        n += 1
        bad += [(nm, "first call: " + m, hist[-4:]) for m in log]
    if walks and not bad:
        # alternate the settings of an operation: @0 / @k are different letters
        for i in walk(len(names)) if walks == "pairs" else range(len(names)):
            nm = names[i]
            log = []
            r = run(calls[nm], log)
            hist.append(nm)
            n += 1
            tol = 5e-5 if calls[nm][2] else (1e-11 if x64 else 1e-5)
            if not same(first[nm], r, tol):
                log.append("result differs from the first call")
            bad += [(nm, m, hist[-4:]) for m in log]
            if len(bad) > 5:
                break
    return first, bad, n, {nm: calls[nm][2] for nm in names}


def explore(ctx, group, walks=ORDERS[:1], orders=ORDERS, kind="pairs"):
    """three processes with different histories"""
    runs = {}
    procs = []
    for o in orders:
        path = os.path.join(ctx.scratch, "%s-%s.pkl" % (group, o))
        cmd = [sys.executable, "-c", "import warnings;warnings.filterwarnings('ignore')\nfrom checks import c24;c24.child(%r, %r, %r, %r)" % (group, o, o in walks and kind, path)]
        procs.append((o, path, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    for o, path, p in procs:
        err = p.communicate()[1]
        with ctx.at(order=o):
            if p.returncode:
                raise RuntimeError(err.decode(errors="replace")[-1500:])
            runs[o] = pickle.load(open(path, "rb"))
            first, bad, n, cosmo = runs[o]
            ctx.step(n)
            ctx.front(n)
            for nm, m, hist in bad[:5]:
                ctx.fail("%s: %s" % (nm, m), observed=dict(history=hist))
            ctx.check(not bad, "every call of the walk leaves its arguments and repeats its result", observed=len(bad))
            ctx.trace(n)
            ctx.comparisons += 2 * n
    for o in orders[1:]:
        if o in runs and orders[0] in runs:
            for nm, r in runs[orders[0]][0].items():
                with ctx.at(call=nm, order=o):
                    tol = 5e-5 if runs[o][3][nm] else (1e-11 if ctx.x64 else 1e-5)
                    ctx.check(same(r, runs[o][0][nm], tol), "%s does not depend on the calls made before it" % nm, expected=repr(r)[:200], observed=repr(runs[o][0][nm])[:200])
                    ctx.trace()
                    ctx.outcome((nm, repr(r)[:60]))


def switches():
    """process-wide settings that decide what later calls return"""
    import jax

    return dict(x64=bool(jax.config.jax_enable_x64), nans=bool(jax.config.jax_debug_nans), jit=bool(jax.config.jax_disable_jit), matmul=str(jax.config.jax_default_matmul_precision), err=dict(np.geterr()), cwd=os.getcwd())


def generators(ctx):
    """No call resets the caller's random number generators: after it they continue the stream they were in."""
    import random

    from gwinferno.preprocess.data_collection import load_posterior_dataset
    from checks import c18

    meta, _ = c18.catalog(ctx, [c18.KINDS[i] for i in (6, 3, 5)])
    GROUPS["catalog"] = lambda: {",".join(p): (lambda p: load_posterior_dataset(catalog_metadata=meta, param_names=p), (list(p),), True) for p in c18.SETS[:8]}
    for g in ("catalog", "parametric", "splines", "perturbed", "samplers", "likelihood", "construct", "data", "predictions"):
        for nm, call in GROUPS[g]().items():
            with ctx.at(group=g, call=nm):
                seen, before = [], switches()
                for s in (1, 2):
                    np.random.seed(s)
                    random.seed(s)
                    run(call, [])
                    seen.append((float(np.random.random()), random.random()))
                    ctx.step()
                after = switches()
                ctx.check(after == before, "process-wide numerical settings are left alone", before, after)
                ctx.check(seen[0][0] != seen[1][0] and seen[0][1] != seen[1][1], "random streams of the caller are not reset", observed=seen)
                ctx.trace()
                ctx.outcome((g, nm))


def child(group, order, walks, path):
    with open(path, "wb") as f:
        pickle.dump(execute(group, order, walks), f)


def shards(tier):
    out = []
    for g in GROUPS:
        heavy = g in ("construct", "options", "predictions") and tier == "quick"
        out.append(Shard(g, explore, True, 10, group=g, walks=ORDERS[:1] if tier == "quick" else ORDERS, kind="repeat" if heavy else "pairs"))
    for g in GROUPS if tier == "thorough" else ("parametric", "construct", "data"):
        out.append(Shard(g + "32", explore, False, 5, group=g, walks=ORDERS[:1] if tier == "thorough" else ()))
    out.append(Shard("generators", generators, True, 5))
    return out
