"""Regenerate the 'fixed' list of known_findings.json from the fix: commits in /repo."""
import json, subprocess
MAP = [("plots are saved", "C27"), ("draws with categorical", "C04"), ("draws do not under", "C04"), ("cosmology tables", "C14"), ("smoothing window is 0", "C11"), ("smoothing window has finite", "C26"), ("logistic truncations", "C26"), ("beta density", "C11"), ("sine and cosine", "C13"), ("power law tails", "C13"),
("right end", "C07"), ("jax transformations", "C07"), ("interior knots", "C05"), ("2D basis", "C06"), ("spline order", "C12"), ("B-spline redshift norm", "C10"),
("integer valued", "C05"), ("parameters sharing", "C20"), ("configured redshift", "C20"), ("without a redshift", "C20"), ("model files", "C21"), ("number of observations", "C19"),
("subpopulation pdf", "C23"), ("exporting posteriors", "C23"), ("beta shape", "C16"), ("projecting a basis", "C24"), ("effective precession samples", "C18"),
("in-plane spin", "C17"), ("command line", "C20"), ("isotropic effective spin", "C15"), ("largest effective precession", "C15"), ("maximum mass", "C18"),
("injection effective sample", "C01"), ("mixture models can be", "C20"), ("squared number", "C01"), ("power law with slope", "C11"), ("joint perturbed", "C12"), ("sampler power law", "C13"), ("isotropic prior is finite", "C15"), ("effective precession can be requested", "C17")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "8c26404..HEAD"], capture_output=True, text=True).stdout
k = json.load(open("/verif/known_findings.json"))
k["fixed"] = []
reverted = [l.split("Revert \"fix: ")[1].rstrip("\"") for l in log.splitlines() if " Revert \"fix: " in l]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or s[5:] in reverted:
        continue
    p = [c for t, c in MAP if t in s]
    assert len(p) == 1, (s, p)
    k["fixed"].append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
