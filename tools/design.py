"""Fill the per-property section of DESIGN.md from the checks (run after editing bounds)."""
import importlib
import os
import sys

H={
"C01":"Explicit-state exploration of the real `hierarchical_likelihood`: every weight table over the alphabet (a state) with every injection pattern is executed (compiled and vectorised over the states, plus eager calls through the default options) and the value of the `log_likelihood` factor the sampler sees is compared with a float64 importance-sampling estimator written from the paper's formula (`checks/lik.py`). Order-, scale- and log/linear-independence follow because permuted, scaled and logged tables are all states of the same space; categorical assignments are enumerated completely by substituting the latent `Qs`.",
"C02":"Same spaces, every cut configuration; the oracle classifies each state as pass/fail/too-close from float64 effective sizes and demands the floor or the unmodified value. `graded` walks the number of equal weights through every integer around each threshold.",
"C03":"Every deterministic site is compared with the reference for all tables, and all combinations of Nobs, totals, times, hypervolumes and substituted `unscaled_rate` values are executed to decide the rate relation and that asking for the rate never moves the likelihood.",
"C04":"All patterns of sample kinds (at, inside, outside each mass limit; zero weight) for events and injections are executed; the draw must be a permitted row and every requested parameter must come from that one row (rows are pairwise distinguishable). Proportions are decided on the code's own fixed per-event streams, which are enumerated, not sampled.",
"C05":"Every (class, n, order, domain, knots) configuration is built and evaluated on a lattice that contains every knot, its neighbours, interior points, both ends and outside points; oracle: independent float64 Cox-de Boor recursion (`checks/ref.py`).",
"C06":"Every coefficient vector over the alphabet is projected through the real splines; oracle: reference basis combination, Gauss-Legendre integral per knot cell.",
"C07":"Every knot-spacing pattern and value vector within bounds; oracle: natural cubic solved in float64; derivatives of the real code decide C2 continuity and end curvature; every transformation order of {eager, jit, vmap, pytree round trip}.",
"C08":"Every model x option x coefficient vector x sample kind; oracle: reference density with exact normalisation; the same samples are fed as events and injections and alone / together.",
"C09":"Every joint model x option set x pair of coefficient vectors x pair of sample kinds; oracle: product of the 1-D reference densities (so that a defect in a 1-D class is reported here as well as in C08).",
"C10":"All slopes x overlaps x samples x coefficient vectors; oracle: quadrature of the flat Lambda-CDM integrals (`checks/cosmo.py`).",
"C11":"Full hyper-parameter lattices with all boundary points; oracle: float64 closed forms and quadrature (`checks/dens.py`).",
"C12":"All coefficient vectors and slopes, all pairs of masses and ratios; oracle: float64 product and quadrature with grid-cell tolerance.",
"C13":"Every distribution x parameter combination x lattice of values and probabilities; density/CDF/quantile are checked against closed-form references, draws on enumerated keys.",
"C14":"Explicit-state breadth-first search over query histories on real `Cosmology` objects: a state is (table end, step, table contents), successors are all queries of the alphabet; every answer and the table after every transition are checked against quadrature. States reached by different histories are merged only when the tables are bitwise equal.",
"C15":"All case boundaries of the piecewise closed form for each (q, a_max), their neighbours and interior points; oracle: numerical convolution of the projected-spin density, not the closed form. Arrays: every ordered pair/triple of lattice cases.",
"C16":"Complete products of the input alphabets, all array kinds, round trips and argument-mutation monitors.",
"C17":"HDF5 files are generated for every pattern of (IFAR, SNR, run) relative to the thresholds and read by the real code; oracle: row-wise predicate and density in numpy.",
"C18":"Every sequence of event kinds up to the depth is written to HDF5 in a scratch directory and collected by the real pipeline; samples carry unique tags so that repetition, mixing between events and re-ordering are visible.",
"C19":"All ordered ignore lists; explicit-state search over save/load histories with two datasets and two names against a dictionary model of the file system.",
"C20":"Configurations are enumerated (every fixed/sampled subset of hyper-parameters per model kind, every order and sharing pattern), written as YAML, read by `ConfigReader` and executed through `construct_hierarchical_model`; oracle: weights computed from scipy densities and the reference estimator; the set of latent sites and their priors are compared.",
"C21":"Every history of write/delete/load operations up to depth 5 (6) is executed from scratch in a fresh scratch directory in a child interpreter state; oracle: the contents last written.",
"C22":"All draw orders (de Bruijn sequences containing each ordered pair) and scaling options; oracle: float64 model of each population on the returned grid.",
"C23":"All ordered selections of variables/parameters/subpopulations; all export histories of length 3; disk round trip.",
"C24":"Operation-history exploration: a walk in which every ordered pair of about 190 public calls is consecutive, executed in three processes with different first-call orders; every result is compared with the first, every argument with its snapshot after every call.",
"C25":"All integer-valued coefficient vectors over the alphabets, all orders; builders run under a trace handler, all option combinations.",
"C26":"All sequences of up to two transformations of each operation on its full lattice; forward and reverse derivatives of every hyper-parameter at every lattice point against central differences of the value.",
"C27":"The real functions run on matplotlib's file backend with stand-ins for saving, showing and closing that record the artists of the figure at that moment; the medians, bands, names, colours, scales and file names are compared with independently computed order statistics. Backends that close a figure on showing it are one of the environment choices; sequences of plots share one process.",
"C28":"The real `find_map` runs on every target of the enumerated family; the returned point is compared with the closed-form (or grid-refined float64) maximum and, for short searches, the whole path of 1..6 steps with the Adam recursion, so that the number and size of steps are decided exactly.",
"C29":"The real helpers are called with every option combination on dictionaries that also hold decoy columns; the returned models are evaluated on every sample with every coefficient vector and compared with products of the reference densities. The assembly shards go on to the likelihood itself.",
}
COST = dict(C01=16, C02=28, C03=11, C04=15, C05=38, C06=50, C07=15, C08=29, C09=27, C10=13, C11=11, C12=17, C13=14, C14=32, C15=6, C16=5, C17=8, C18=14, C19=21, C20=16, C21=16, C22=47, C23=9, C24=187, C25=8, C26=80, C27=30, C28=25, C29=25)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from props import PROPS  # noqa: E402

out = []
for p in PROPS:
    m = importlib.import_module("checks." + p["id"].lower())
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(H[p["id"]] + "\n")
    out.append("Bounds: " + "; ".join(f"*{k.replace('_', ' ')}*: {v}" for k, v in m.BOUNDS.items()) + ".\n")
    out.append("Not judged / assumed: " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append(f"Why tests cannot: {p['why']} Cost: quick about {COST[p['id']]} s on 8 idle cores.\n")
s = open(ROOT + "/DESIGN.md").read()
a, b = s.index("<!-- properties -->"), s.index("<!-- end properties -->")
open(ROOT + "/DESIGN.md", "w").write(s[:a] + "<!-- properties -->\n" + "\n".join(out) + s[b:])

import json  # noqa: E402

R = json.load(open(ROOT + "/tools/seeded_results.json"))
rows = ["| change | property | first run | now | what it needs |", "|---|---|---|---|---|"]
for k in sorted(R):
    meta = ROOT + "/seeded/" + k + "/meta.json"
    if os.path.exists(meta):
        m = json.load(open(meta))
        rows.append(f"| {k} | {m['property']} | {R[k]['first']} | {R[k]['now']} | {m['needs']} |")
s = open(ROOT + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- end seeds -->")
open(ROOT + "/DESIGN.md", "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
