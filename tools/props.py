"""The properties (single source for properties.jsonl and MANIFEST.json; run tools/gen.py after editing)."""

A = "gwinferno/pipeline/analysis.py"
U = "gwinferno/pipeline/utils.py"
PA = "gwinferno/pipeline/parser.py"
I = "gwinferno/interpolation.py"
D = "gwinferno/distributions.py"
ND = "gwinferno/numpyro_distributions.py"
P = "gwinferno/models/parametric/parametric.py"
SP = "gwinferno/models/spline_perturbation.py"
B1 = "gwinferno/models/bsplines/single.py"
B2 = "gwinferno/models/bsplines/separable.py"
SM = "gwinferno/models/bsplines/smoothing.py"
CO = "gwinferno/cosmology.py"
CV = "gwinferno/preprocess/conversions.py"
PR = "gwinferno/preprocess/priors.py"
SE = "gwinferno/preprocess/selection.py"
DC = "gwinferno/preprocess/data_collection.py"
PC = "gwinferno/postprocess/calculations.py"
PL = "gwinferno/postprocess/plot.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    PROPS.append(
        dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note)
    )


prop(
    "C01",
    "The log-likelihood is the importance-sampling estimate of the catalog likelihood",
    "For every table of per-sample weights, every vector of found-injection weights and every number of events, samples and injections, the "
    "log-likelihood handed to the sampler equals the sum over events of the log of the mean sample weight minus the number of events times the log "
    "of (sum of injection weights / total injections generated), with the documented correction when selection uncertainty is marginalised. It does not depend on "
    "the order of events, samples or injections, it is the same whether linear or log weights are supplied, it scales exactly when all weights of an "
    "event or all injection weights are multiplied by a constant, and with latent categorical assignments each event uses the weights of the subpopulation it is assigned to.",
    ["inputs", "configurations"],
    "all weight tables over the alphabet, all event/sample/injection counts within bounds, linear/log, marginalisation on/off, categorical assignments",
    "The tests evaluate the estimators on one random table and never run the likelihood over tables containing zeros, ties, single samples or extreme ranges.",
    [A],
    [("per-event Monte Carlo integrals", A + ": per_event_log_bayes_factors"), ("selection integral", A + ": detection_efficiency"), ("assembly of the likelihood", A + ": hierarchical_likelihood")],
    "exhaustive explicit-state exploration of weight tables on the real likelihood vs a reference model",
    "every table over the alphabet within the bounds is executed on the real code and compared with a float64 reference",
)
prop(
    "C02",
    "Convergence cuts yield a finite floor exactly when the estimate is unreliable",
    "The log-likelihood is never NaN or +infinity: when an event or the injection set carries no weight, when the effective number of injections is below four times the "
    "number of events or the effective number of samples of any event does not exceed the number of events (if the effective-size cut is requested), or when the "
    "estimated variance of the log-likelihood exceeds one (if the variance cut is requested), it is the most negative finite number. "
    "Otherwise the cut leaves the value unchanged, and asking for the variance cut together with the other options is refused.",
    ["inputs", "configurations"],
    "all weight tables and graded effective sizes crossing each threshold, for every cut configuration",
    "The tests only use well-converged weights, so the cut branches and their boundaries are never taken.",
    [A],
    [("effective sample size cut", A + ": hierarchical_likelihood"), ("variance cut", A + ": hierarchical_likelihood")],
    "exhaustive explicit-state exploration of weight tables and thresholds on the real likelihood",
    "every table and every integer effective size around each threshold is executed; cases within 0.1% of a threshold are not judged",
)
prop(
    "C03",
    "Reported diagnostics and merger rate are consistent with the likelihood",
    "For every input, the recorded diagnostics (per-event log Bayes factors and their sum, effective sample sizes, detection efficiency, selection factor, variances, "
    "surveyed hypervolume in Gpc^3 yr) are the quantities that produced the log-likelihood. "
    "The merger rate is the Gamma(number of events) draw divided by the detection efficiency and the surveyed hypervolume, and it is only "
    "produced when the rate is to be reconstructed, without ever changing the log-likelihood.",
    ["inputs", "configurations"],
    "all weight tables within bounds x all observation times, volumes and option combinations",
    "No test looks at the recorded sites or the rate.",
    [A],
    [("deterministic sites", A + ": hierarchical_likelihood"), ("rate reconstruction", A + ": hierarchical_likelihood")],
    "exhaustive exploration of inputs and option combinations on the real likelihood, all recorded sites compared with a reference",
    "all recorded sites of every explored execution are compared with a float64 reference",
)
prop(
    "C04",
    "Posterior-predictive draws follow the weights and respect the mass cuts",
    "Each event's observed draw is one of that event's own samples and each predicted draw one of the found injections, only ever with nonzero weight and with component masses inside the "
    "requested mass limits, and all requested parameters of a draw come from the same sample. "
    "Draws are made in proportion to the weights, for linear and log weights alike (of any size) and, with latent categorical assignments, by the weights of the assigned subpopulation, independently for different events; the reported subpopulation fractions are the individual weights over the total weight of the drawn sample.",
    ["inputs", "configurations"],
    "all placements of nonzero weights, all placements of samples relative to the mass limits, linear/log, all events",
    "No test requests posterior-predictive draws.",
    [A],
    [("posterior predictive block", A + ": hierarchical_likelihood")],
    "exhaustive enumeration of weight supports and mass-limit patterns on the real likelihood",
    "every one- and two-point support and every pattern of samples around the mass limits is executed; proportions are checked on the fixed per-event streams",
)
prop(
    "C05",
    "B-spline bases follow the Cox-de Boor definition and partition unity",
    "For every number of basis functions, polynomial order (two or more) and domain, the basis functions evaluated at any point inside the domain (end points included) are the non-negative B-splines of that order on "
    "equally spaced knots (in the variable or its logarithm), sum to one, and at most order-many are nonzero; at every point outside the domain they are all exactly zero. "
    "Knots or interior knots supplied by the caller are the ones used, the result has one leading basis axis followed by the shape of the input, and the M-spline variant is the same basis with every function scaled to unit integral over its own knots.",
    ["inputs", "configurations"],
    "all numbers of basis functions, orders, domains and grid points (knots, knot neighbours, end points, outside) within the bounds",
    "The tests use one number of degrees of freedom and check shapes or a few norms.",
    [I],
    [("Cox-de Boor recursion", I + ": BasisSpline._basis"), ("knot placement", I + ": BasisSpline.__init__"), ("log transforms", I + ": LogXBSpline, LogXLogYBSpline")],
    "exhaustive enumeration of bases and grid points on the real code vs an exact recursion",
    "every basis configuration and lattice point within the bounds is executed and compared with an independent recursion",
)
prop(
    "C06",
    "Spline functions are the stated combination of their basis and integrate to one",
    "For every coefficient vector, a spline evaluates to the basis combination its type promises (linear, or the exponential of it, in the variable or its logarithm) times a single positive constant that does not depend on the evaluation point, "
    "and with normalisation requested that function integrates to one over its domain. "
    "Two-dimensional splines combine the two bases with the coefficient matrix indexed (first variable, second variable), and evaluating through a precomputed design matrix equals direct evaluation.",
    ["inputs", "configurations"],
    "all coefficient vectors over the alphabet x spline types x basis sizes x grid points",
    "The tests check the normalisation of randomly drawn coefficients for one size per type.",
    [I],
    [("projection", I + ": BasisSpline.project, BSpline.project, LogYBSpline.project"), ("norms", I + ": BasisSpline.norm"), ("2D", I + ": RectBivariateBasisSpline")],
    "exhaustive enumeration of coefficient vectors and spline types on the real code vs a reference",
    "every coefficient vector over the alphabet within the bounds is executed and compared",
)
prop(
    "C07",
    "Natural cubic spline interpolates its knots smoothly with natural end conditions",
    "For every set of increasing knots and values, the spline passes through every knot, is a cubic on every interval with continuous value, slope and curvature, and has zero curvature at both ends, so it equals the natural cubic interpolant everywhere inside the knots. "
    "The result does not depend on the order or shape of the evaluation points and is the same when the spline is built or evaluated inside a compiled or mapped function.",
    ["inputs", "configurations"],
    "all knot spacings and values over the alphabet, all positions (knots, mid-points, quarter points)",
    "The tests evaluate one random spline.",
    [I],
    [("tridiagonal solve", I + ": NaturalCubicUnivariateSpline"), ("pytree registration", I + ": NaturalCubicUnivariateSpline.tree_flatten")],
    "exhaustive enumeration of knot/value sets on the real code vs an exact natural spline",
    "every knot set and value vector over the alphabet is executed and compared with an independent solver",
)
prop(
    "C08",
    "Spline population models evaluate one density for events and injections",
    "Every one-dimensional spline population model returns, for event samples and for injections, the value of one and the same function of the parameter: the spline density of its type on its configured range, and exactly zero outside that range. "
    "The result has the shape of the input it was built for, its value at a sample does not depend on the other samples, and models declared symmetric take equal values at opposite arguments.",
    ["inputs", "configurations"],
    "all model classes, basis sizes, ranges, coefficient vectors over the alphabet, samples inside, on and outside the range",
    "The tests only check shapes and grid normalisation for random coefficients.",
    [B1],
    [("base model", B1 + ": Base1DBSplineModel"), ("mass, mass ratio, spin, redshift models", B1)],
    "exhaustive enumeration of models, coefficients and samples on the real code vs a reference density",
    "every model, coefficient vector and lattice sample within the bounds is executed",
)
prop(
    "C09",
    "Joint spline models are exact products of their one-dimensional factors",
    "Every joint spline population model equals the product of the one-dimensional models of its parameters, evaluated on each parameter's own samples with its own coefficients and options, for event samples and injections alike. "
    "Models with identically distributed components use one set of coefficients for both, and independently distributed ones keep the two sets (and options) apart.",
    ["inputs", "configurations"],
    "all joint model classes, per-parameter basis sizes and coefficient vectors over the alphabet",
    "The tests only check output shapes with all parameters sharing sizes and random coefficients.",
    [B2, B1],
    [("products", B2)],
    "exhaustive enumeration of joint models and one-at-a-time/pairwise coefficient choices on the real code vs products",
    "every joint class is executed on every choice of distinguishable per-parameter coefficients within the bounds",
)
prop(
    "C10",
    "Redshift models follow comoving volume, normalised by the surveyed volume",
    "For every hyper-parameter value, a redshift model's density at any redshift in range is the comoving volume element times (1+z)^(slope-1) (times its spline factor, if any) divided by its normalisation, which is the integral of that same unnormalised function over its redshift range. "
    "Power-law redshift models vanish beyond the largest redshift covered by both events and injections, the reported normalisation is the surveyed volume used for the merger rate, and event samples and injections share one density.",
    ["inputs", "configurations"],
    "all slopes, maximum redshifts, spline coefficients over the alphabet and redshifts on a lattice",
    "The tests check a single slope on a single grid, mostly shapes.",
    [P, B1, SP, ND],
    [("power-law redshift", P + ": PowerlawRedshiftModel"), ("spline redshift", B1 + ": BSplineRedshift"), ("perturbed redshift", SP + ": PowerlawSplineRedshiftModel"), ("distribution", ND + ": PowerlawRedshift")],
    "exhaustive enumeration of hyper-parameters and redshifts on the real code vs a cosmology reference",
    "every hyper-parameter lattice point is executed and compared with an independent comoving-volume reference",
)
prop(
    "C11",
    "Parametric densities are correct, normalised and zero outside their bounds",
    "For every hyper-parameter value, the parametric densities (power law, truncated normal and log-normal, beta, smoothed and mixture mass models, mass-ratio, spin magnitude and tilt models, plus peaks and falloffs) equal their defining formulas at every point, "
    "integrate to one over their support where they are densities, and are zero outside the stated bounds. "
    "The low-mass smoothing window is zero below and one above the smoothing region and increases in between, and slopes at which closed forms degenerate give the continuous limit.",
    ["inputs", "configurations"],
    "all hyper-parameter combinations over the alphabet including degenerate slopes and bounds x all lattice points inside, on and outside the bounds",
    "The tests evaluate one or two parameter choices and mostly check grid normalisation.",
    [D, P],
    [("densities", D), ("mass, ratio and spin models", P)],
    "exhaustive enumeration of hyper-parameters and evaluation points on the real code vs closed forms and quadrature",
    "every hyper-parameter lattice point and evaluation point is executed and compared",
)
prop(
    "C12",
    "Perturbed power-law models multiply the power law by the exponentiated spline",
    "A power-law model with a spline perturbation equals the underlying power-law population times the exponential of the spline perturbation in its own variable, for event samples and injections alike, and with vanishing coefficients it is the power law itself. "
    "The perturbation acts only inside its own range and honours the requested number and order of splines.",
    ["inputs", "configurations"],
    "all model variants, hyper-parameters and coefficient vectors over the alphabet",
    "No test constructs these models.",
    [SP],
    [("perturbed models", SP)],
    "exhaustive enumeration of models, coefficients and samples on the real code vs a reference",
    "every model variant and coefficient vector within the bounds is executed",
)
prop(
    "C13",
    "Sampler distributions have matching density, CDF, quantile and draws",
    "For every parameter value, each distribution offered to the sampler integrates to one over its support, its CDF is the integral of its density, its quantile function inverts the CDF, and its draws lie in the support and follow that CDF (where it offers them); the support it declares to the sampler is the interval it was given. "
    "Closed-form log densities are minus infinity (or the most negative number) outside their bounds, and smoothing priors penalise exactly the squared finite differences of the requested order.",
    ["inputs", "configurations"],
    "all parameter combinations over the alphabet x evaluation points and probabilities on a lattice x fixed random streams",
    "The tests check a single parameter choice per distribution with random samples.",
    [ND],
    [("distributions", ND)],
    "exhaustive enumeration of parameters and quantile levels on the real code vs closed forms",
    "every parameter lattice point is executed; grids used internally by the code limit the tolerance",
)
prop(
    "C14",
    "Cosmology is accurate, invertible and independent of query history",
    "Comoving distance and its derivative, luminosity distance and comoving volume and its element agree with the flat Lambda-CDM integrals for every redshift, and the redshift returned for a luminosity distance has that luminosity distance. "
    "Every answer is the same, to interpolation accuracy, whatever queries were made before in whatever order.",
    ["inputs", "histories"],
    "all query sequences up to the depth bound over a set of redshift and distance queries of widely different ranges",
    "The tests make a single query on a fresh object or compare on one grid.",
    [CO],
    [("table extension", CO + ": Cosmology.extend"), ("lookups", CO)],
    "explicit-state search over all query histories of the real object vs quadrature",
    "all histories up to the depth bound are executed on the real object",
)
prop(
    "C15",
    "Effective-spin priors are the exact push-forward of isotropic or aligned spins",
    "For every mass ratio, maximum spin and effective spin, the effective-inspiral-spin priors equal the density of the mass-weighted sum of spin projections for spins uniform in magnitude and isotropic (or uniform and aligned), are symmetric, integrate to one and vanish outside the allowed range. "
    "The effective-precession prior and the joint prior are non-negative densities consistent with the same spin prior, and scalar and array arguments agree element by element.",
    ["inputs", "configurations"],
    "all mass ratios, maximum spins and effective spins on a lattice including the case boundaries of the closed form",
    "No test exercises the priors.",
    [PR],
    [("closed-form isotropic prior", PR + ": chi_effective_prior_from_isotropic_spins"), ("aligned prior", PR + ": chi_effective_prior_from_aligned_spins"), ("precession prior", PR + ": chi_p_prior_from_isotropic_spins")],
    "exhaustive lattice enumeration including case boundaries on the real code vs a convolution reference",
    "every lattice point is executed and compared with an independent convolution integral",
)
prop(
    "C16",
    "Spin and beta-shape conversions are exact, invertible and elementwise",
    "The effective inspiral spin, the effective precession spin and the conversions between the shape parameters and the mean and variance of a (scaled) beta distribution equal their defining formulas for every admissible input, "
    "and the two beta conversions are inverses of one another. "
    "They act elementwise on numbers and arrays of any shape, broadcast, and never modify their arguments.",
    ["inputs"],
    "all lattice points of the input parameters (mass ratios, spins, tilts, moments), scalar and array",
    "The tests evaluate a handful of values.",
    [CV],
    [("conversions", CV)],
    "exhaustive lattice enumeration on the real code vs defining formulas and round trips",
    "every lattice point is executed and compared",
)
prop(
    "C17",
    "Injection selection keeps exactly the found injections and their density",
    "Reading an injection file keeps exactly the injections that pass the requested thresholds (O3 files: any pipeline's inverse false-alarm rate above the threshold, a first- or second-run injection with network signal-to-noise above its threshold, or any additional cut reached; "
    "O4a files: any pipeline's false-alarm rate at most the inverse threshold or signal-to-noise at least its threshold), in file order, each with its own parameters and its sampling density in the requested variables including the mass-ratio and spin Jacobians and the injection weights. "
    "The total number of generated injections and the analysis time (in years) are those of the file, independent of how many injections are found, and resampling injections to a model only draws injections with weight and gives them the model's density.",
    ["inputs", "configurations"],
    "all detection patterns over pipelines for a bounded number of injections x thresholds x file flavours x parameter sets",
    "The tests need files that are not available and never cover the thresholds.",
    [SE],
    [("O3 and O4a readers", SE)],
    "exhaustive enumeration of detection patterns in synthetic injection files read by the real code",
    "every pattern within the bounds is written to a scratch file and read by the real code",
)
prop(
    "C18",
    "Catalog collection delivers each event's samples and priors unchanged",
    "Collecting a catalog returns, for every event in the catalog's order and under its name, samples taken without repetition from that event's own file and waveform with all parameters of a sample kept together and (second catalog and later) source-frame primary masses up to the requested maximum; "
    "every event gets the same number of samples, the largest available to all and at most ten thousand. "
    "The sampling prior of each sample is the event's own redshift prior (Euclidean or comoving) times the mass, mass-ratio and spin Jacobians of exactly the requested parameters, and unknown redshift priors are refused.",
    ["inputs", "configurations"],
    "all small catalogs over events, sample counts, file flavours and parameter sets",
    "The tests need data files that are not available.",
    [DC],
    [("catalog reader", DC)],
    "exhaustive enumeration of small synthetic catalogs read by the real code",
    "every catalog configuration within the bounds is written to scratch files and read by the real code",
)
prop(
    "C19",
    "Saved datasets load back unchanged apart from the events asked to be ignored",
    "Saving posterior samples and injections and loading them back yields the same arrays, parameters, number of generated injections, analysis time and constants in the same order. "
    "Ignoring any subset of events removes exactly those events and reduces the number of observations accordingly, whatever the order of the events or of the ignore list.",
    ["inputs", "histories", "configurations"],
    "all datasets within bounds, all subsets of ignored events, all save/load sequences up to the depth bound",
    "The tests load a single file written by themselves, if at all.",
    [DC, U],
    [("save and load", DC), ("ignore list", DC)],
    "exhaustive enumeration of datasets, ignore subsets and save/load histories on the real code",
    "every dataset and subset within the bounds is written and read by the real code in a scratch directory",
)
prop(
    "C20",
    "A configuration file builds exactly the hierarchical model it describes",
    "For every combination of parameters, models, mixtures, shared parameters and priors in a configuration, the constructed model samples exactly the hyper-parameters with a prior, uses the fixed values of the others, and weights each sample by the product of the configured population densities divided by the sampling prior. "
    "A parameter configured to share another's model is evaluated with that model, and run options and likelihood options given in a configuration or on the command line arrive unchanged.",
    ["inputs", "configurations"],
    "all small configurations over parameters, model kinds, shared parameters, fixed or sampled hyper-parameters",
    "The tests load one configuration.",
    [PA, A],
    [("configuration parser", PA), ("model assembly", A + ": construct_hierarchical_model")],
    "exhaustive enumeration of configurations run through the real parser and model vs a reference",
    "every configuration within the bounds is parsed and executed on the real code",
)
prop(
    "C21",
    "Loading a model file always runs the code of the file that was named",
    "Whatever model files were loaded before, with whatever names and from whatever directories, loading a model file gives the model function defined in that very file's current contents. "
    "A missing file or missing model is reported as an error instead of silently using something else, a model loaded earlier keeps its own code, and a model file never replaces a module the program can otherwise import.",
    ["histories"],
    "all sequences up to the depth bound of writing, replacing and loading model files over a set of names and directories",
    "No test loads two files.",
    [PA, U],
    [("model file loading", PA)],
    "explicit-state search over all load histories of the real loader",
    "all histories up to the depth bound are executed on the real loader in a scratch directory",
)
prop(
    "C22",
    "Posterior population predictions equal the fitted model, draw by draw",
    "For every set of hyper-posterior draws, the population predictions returned for plotting are, draw by draw and in draw order, the marginal densities of the model that the pipeline's setup helpers build, evaluated and normalised on the returned grid and scaled by that draw's merger rate and subpopulation fraction (each one if not given); "
    "redshift predictions are rate times fraction times (1+z)^slope (times the exponentiated spline, if any). "
    "Predictions vanish where the secondary would be below the minimum mass, and no draw's prediction depends on the other draws.",
    ["inputs", "configurations"],
    "all small sets of draws over the hyper-parameter alphabet and all their orders",
    "The tests check shapes.",
    [PC],
    [("posterior predictions", PC)],
    "exhaustive enumeration of sets and orders of draws on the real code vs per-draw reference",
    "every set of draws within the bounds is executed",
)
prop(
    "C23",
    "Exported datasets contain exactly the supplied posteriors and predictions",
    "Exporting posteriors and predictions to labelled datasets keeps every value at its place: every variable under its own name with its own dimensions, coordinates equal to the supplied grids, and subpopulations under their own labels (the redshift prediction is common to them). "
    "The caller's dictionaries are left untouched and exporting twice gives the same result.",
    ["inputs", "histories", "configurations"],
    "all small dictionaries over parameters, subpopulations and shapes; repeated exports",
    "The tests do not export.",
    [PC, U],
    [("export", PC)],
    "exhaustive enumeration of dictionaries and export histories on the real code",
    "every dictionary within the bounds is exported and compared value by value",
)
prop(
    "C24",
    "Models, densities and estimators are pure: no call affects any other",
    "Constructing or evaluating any population model, density, spline, conversion, prior, estimator, prediction or export never modifies the arguments passed in and never changes what any later call on any object returns. "
    "The same call repeated after any sequence of other calls gives the same result (cosmology-dependent results to interpolation accuracy).",
    ["histories"],
    "all call sequences up to the depth bound over a set of public operations",
    "No test repeats a call after other calls.",
    [I, D, P, B1, CV, PR, CO, A],
    [("no shared mutable state", "whole package")],
    "explicit-state search over all call histories of the real public operations",
    "all call sequences up to the depth bound are executed on the real code, arguments and results compared bit by bit",
)
prop(
    "C25",
    "Smoothing priors penalise exactly the differences of the coefficients",
    "For every coefficient vector, inverse variance and difference order, the smoothing prior contributes minus half the inverse variance times the sum of squared differences of that order, and is zero exactly for coefficients that are polynomials of lower degree. "
    "The prior builders sample exactly the named coefficients, as many as requested and with the requested widths, and add exactly these penalties to the model (the redshift builder fixes its first coefficient to zero).",
    ["inputs", "configurations"],
    "all coefficient vectors over the alphabet, all difference orders and scales within bounds, all builder options",
    "The tests evaluate one coefficient vector.",
    [SM, U, ND],
    [("difference penalties", SM), ("prior builders", U)],
    "exhaustive enumeration of coefficient vectors, orders and scales on the real code vs finite differences",
    "every coefficient vector over the alphabet is executed and compared",
)
prop(
    "C26",
    "Compiled, mapped and eager evaluation agree and gradients are finite",
    "Every population model, density, spline and likelihood gives the same values when evaluated eagerly, inside a compiled function and mapped over a batch of hyper-parameters. "
    "Its gradient with respect to the hyper-parameters is finite wherever the value is finite and nonzero, and equals the slope of the value.",
    ["inputs", "configurations"],
    "all models x hyper-parameter lattice points x transformation sequences up to depth two",
    "The tests evaluate eagerly only.",
    [A, I, D, P, B1, B2, SP],
    [("jit-compatible implementations", "whole package")],
    "exhaustive enumeration of transformation sequences over a hyper-parameter lattice on the real code",
    "every transformation sequence up to depth two is executed on every lattice point",
)
prop(
    "C27",
    "Plots show the median and 90% interval of predictions and save what they show",
    "Every plot of mass, mass-ratio, spin and rate predictions draws, for each subpopulation and at each grid point, the median over the draws and the band from the 5th to the 95th percentile, under that "
    "subpopulation's own name and colour and on the axis of its own parameter (first or second component as requested). With saving on, exactly one file per panel is written, in the given directory, under the "
    "parameter and run label, showing the same content whatever the display does with the figure; with saving off nothing is written. No figure is left open and the predictions are not modified.",
    ["inputs", "configurations", "histories"],
    "all small tables of draws, all option combinations, displays that keep or close figures, sequences of plots",
    "The tests call each function once with saving off and look at nothing.",
    [PL],
    [("summary of the draws", PL + ": plot_pdf"), ("panels and files", PL + ": plot_mass_pdfs, plot_spin_pdfs, plot_rate_of_z_pdfs")],
    "exhaustive enumeration of draw tables, options and plot sequences on the real code, artists compared with reference quantiles",
    "every table, option combination and sequence within the bounds is executed and its artists compared",
)
prop(
    "C28",
    "The MAP search returns the peak of the joint density the sampler would explore",
    "Run to convergence, the MAP search returns, for every latent site of the model and in that site's own units, the point that maximises the joint density of priors and likelihood, whatever the random key. "
    "It takes exactly the requested number of steps of the requested size, it hands the model exactly the arguments it was given, in order, with observed and deterministic sites left out of the search.",
    ["inputs", "configurations"],
    "all combinations of prior and data over the alphabets, all keys, learning rates and step counts within bounds, models of several latent kinds",
    "The tests do not run the search.",
    [A],
    [("MAP search", A + ": find_map")],
    "exhaustive enumeration of targets, keys and step counts on the real search vs closed-form maxima and the Adam recursion",
    "every target and step count within the bounds is executed and compared",
)
prop(
    "C29",
    "Set-up helpers build the models they describe on the events and injections given",
    "Given dictionaries of event samples and injections, the set-up helpers return models with the requested number of splines per parameter and component, over the requested mass range, whose event densities use the event samples and whose injection densities use the injections, each parameter its own "
    "column, identical or independent components as asked. The assembled population density (masses times spins times redshift over the sampling prior) gives the weights and log-likelihood of that population.",
    ["inputs", "configurations"],
    "all combinations of spline numbers, mass ranges, component options and coefficient vectors within bounds",
    "The tests build each helper's model at most once, with equal numbers of splines, and look at shapes.",
    [U, B1, B2, SP],
    [("mass set-up", U + ": setup_bspline_mass_models"), ("spin set-up", U + ": setup_bspline_spin_models"), ("redshift set-up", U + ": setup_powerlaw_spline_redshift_model")],
    "exhaustive enumeration of set-up options and coefficient vectors on the real code vs reference densities",
    "every option combination and coefficient vector within the bounds is executed and compared",
)
