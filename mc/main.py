"""python -m mc.main CHECK [quick|thorough] [--replay FILE]   (run from /verif)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed."""

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MC_REPO", "/repo")


def env_for(x64):
    e = dict(os.environ)
    e.update(
        PYTHONPATH=REPO + os.pathsep + ROOT,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        JAX_ENABLE_X64="1" if x64 else "0",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_disable_hlo_passes=constant_folding intra_op_parallelism_threads=1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TQDM_DISABLE="1",
        HDF5_USE_FILE_LOCKING="FALSE",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    return e


def shard_list(check, tier):
    """Ask a child for the shard names (the parent never imports jax)."""
    code = (
        "import json,sys,warnings\nwarnings.filterwarnings('ignore')\nimport importlib\n"
        "m=importlib.import_module('checks.%s')\n"
        "print('@@'+json.dumps(dict(prop=m.PROPERTY,bounds=m.BOUNDS,assumptions=m.ASSUMPTIONS,"
        "shards=[[s.name,s.x64,s.cost] for s in m.shards('%s')])))" % (check, tier)
    )
    p = subprocess.run([PY, "-c", code], cwd=ROOT, env=env_for(False), capture_output=True, text=True, timeout=300)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:]), None
    return None, p.stderr[-3000:]


def main():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i : i + 2]
    check = args[0].lower()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    limit = float(os.environ.get("MC_LIMIT", 840 if tier == "quick" else 6 * 3600))
    prop = check.upper()
    results, fatal = [], []
    info, err = shard_list(check, tier)
    if info is None:
        fatal.append({"fatal": "check module (and the code it imports) cannot be loaded", "trace": err})
        info = dict(prop=prop, bounds={}, assumptions=[], shards=[])
    shards = info["shards"]
    if replay:
        want = {v.get("shard") for v in replay.get("violations", [])}
        shards = [s for s in shards if s[0] in want] or shards
    workers = int(os.environ.get("MC_WORKERS", "8"))
    tmp = tempfile.mkdtemp(prefix="mc_run_")
    procs = []
    try:
        # longest-processing-time assignment of shards to workers, one float width per worker
        tot = {x: sum(s[2] for s in shards if s[1] is x) for x in (True, False)}
        alltot = max(sum(tot.values()), 1e-9)
        nbins = {}
        for x in (True, False):
            n = sum(1 for s in shards if s[1] is x)
            nbins[x] = min(n, max(1, round(workers * tot[x] / alltot))) if n else 0
        jobs = []
        for x in (True, False):
            bins = [[0.0, []] for _ in range(nbins[x])]
            for s in sorted((s for s in shards if s[1] is x), key=lambda s: -s[2]):
                b = min(bins, key=lambda b: b[0])
                b[0] += s[2]
                b[1].append(s[0])
            jobs += [(x, b[1]) for b in bins if b[1]]
        for i, (x, names) in enumerate(jobs):
            out = os.path.join(tmp, "o%d" % i)
            log = open(os.path.join(tmp, "l%d" % i), "w")
            p = subprocess.Popen(
                [PY, "-m", "mc.worker", check, tier, out, json.dumps(names)], cwd=ROOT, env=env_for(x), stdout=log, stderr=subprocess.STDOUT
            )
            procs.append((p, out, log.name, names))
        for p, out, log, names in procs:
            try:
                rc = p.wait(timeout=max(5, limit - (time.time() - t0)))
                why = "worker ended with status %s" % rc
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, why = None, "did not terminate within the time bound"
            got = []
            if os.path.exists(out):
                for line in open(out):
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        pass
            fatal += [g for g in got if "fatal" in g]
            got = [g for g in got if "fatal" not in g]
            results += got
            missing = [n for n in names if n not in {g["shard"] for g in got}]
            if missing and not any("fatal" in g for g in fatal):
                fatal.append({"fatal": why, "shards": missing, "trace": open(log, errors="replace").read()[-2500:]})
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    prop = info["prop"]
    viol = [v for r in results for v in r["violations"]] + fatal
    nviol = sum(r["nviol"] for r in results) + len(fatal)
    known = {}
    for r in results:
        known.update(r["known"])
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(
        property=prop,
        tier=tier if tier in ("quick", "thorough") else "quick",
        seed=int(os.environ.get("VERIF_SEED", "0") or 0),
        level="model_checking",
        coverage=dict(
            states=sum(r["states"] for r in results),
            transitions=sum(r["transitions"] for r in results),
            traces_validated_against_impl=sum(r["traces"] for r in results),
            comparisons=sum(r["comparisons"] for r in results),
            distinct_outcomes=sum(r["outcomes"] for r in results),
            exhaustive=not fatal,
            shards=len(results),
            bounds=info["bounds"],
            samples=[s for r in results for s in r["samples"]][:6],
        ),
        assumptions=info["assumptions"],
        wall_s=round(wall, 2),
        violations=nviol,
    )
    if not replay:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    kf = {k["id"]: k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["known"]}
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, kf.get(k, {}).get("what", known[k])))
    c = ev["coverage"]
    print(
        "%s %s: states=%d transitions=%d traces=%d comparisons=%d outcomes=%d shards=%d wall=%.1fs"
        % (
            prop,
            tier,
            c["states"],
            c["transitions"],
            c["traces_validated_against_impl"],
            c["comparisons"],
            c["distinct_outcomes"],
            len(results),
            wall,
        )
    )
    if os.environ.get("MC_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"]):
            print("   %-50s x64=%d %.1fs states=%d traces=%d" % (r["shard"], r["x64"], r["wall"], r["states"], r["traces"]))
    if nviol:
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(
                dict(property=prop, tier=tier, replay_cmd="./check %s %s --replay %s" % (prop, tier, path), n=nviol, violations=viol[:20]), f, indent=1
            )
        for v in viol[:4]:
            print("  -", json.dumps(v)[:700])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # never end in any other way than 0 / 1
        import traceback

        traceback.print_exc()
        d = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = (sys.argv[1] if len(sys.argv) > 1 else "C00").upper()
        path = os.path.join(d, p + ".json")
        open(path, "w").write(json.dumps({"property": p, "error": repr(e)}))
        print("VIOLATION property=%s replay=%s" % (p, path))
        sys.exit(1)
