"""Mechanical mutants of the package, run against the checks in scratch copies.

MUT_DIR (default /tmp/mut) holds everything: `mkdir -p $MUT_DIR; cp -a /repo $MUT_DIR/base; cp -a /verif $MUT_DIR/verif`, then
`mutate.py gen SEED DENSITY` writes mutants.json and `mutate.py run I N` runs every N-th mutant, appending to results.txt."""

import ast, copy, hashlib, json, os, random, subprocess, sys, time, shutil, signal

W = os.environ.get("MUT_DIR", "/tmp/mut")
R = W + "/base/gwinferno/"
MAP = {
    "pipeline/analysis.py": ["C01", "C03", "C02", "C04", "C28", "C20"],
    "interpolation.py": ["C05", "C06", "C07", "C26"],
    "distributions.py": ["C11", "C26"],
    "cosmology.py": ["C14"],
    "models/bsplines/single.py": ["C08", "C10", "C24"],
    "models/bsplines/separable.py": ["C09"],
    "models/bsplines/smoothing.py": ["C25"],
    "models/parametric/parametric.py": ["C11", "C10"],
    "models/spline_perturbation.py": ["C12", "C10"],
    "numpyro_distributions.py": ["C13", "C10", "C25"],
    "preprocess/conversions.py": ["C16"],
    "preprocess/data_collection.py": ["C18", "C17", "C19"],
    "preprocess/priors.py": ["C15"],
    "preprocess/selection.py": ["C17"],
    "pipeline/parser.py": ["C20", "C21"],
    "pipeline/utils.py": ["C25", "C23", "C19", "C20", "C22"],
    "postprocess/calculations.py": ["C22"],
    "postprocess/plot.py": ["C27"],
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
FN = {
    "less": "less_equal",
    "less_equal": "less",
    "greater": "greater_equal",
    "greater_equal": "greater",
    "min": "max",
    "max": "min",
    "log": "log1p",
    "sum": "mean",
    "minimum": "maximum",
    "maximum": "minimum",
    "sin": "cos",
    "cos": "sin",
    "zeros": "ones",
    "ones": "zeros",
    "zeros_like": "ones_like",
    "ones_like": "zeros_like",
    "isinf": "isnan",
    "isnan": "isinf",
}
SW = [("1", "2"), ("a1", "a2"), ("ct1", "ct2"), ("m1", "m2"), ("mmin", "mmax"), ("low", "high"), ("alpha", "beta"), ("pe", "inj"), ("x", "y"), ("k1", "k2")]


def muts(tree):
    out = []

    def doc(n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str)

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), []):
                out.append((n.lineno, "cmp", lambda n=n, c=c: n.ops.__setitem__(0, c())))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((n.lineno, "bin", lambda n=n: setattr(n, "op", BIN[type(n.op)]())))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            out.append((n.lineno, "const", lambda n=n, v=v: setattr(n, "value", v + 1 if isinstance(v, int) else v * 1.5 + 0.1)))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n.lineno, "bool", lambda n=n: setattr(n, "value", not n.value)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
            out.append((n.lineno, "neg", lambda n=n: setattr(n, "op", ast.UAdd())))
        if isinstance(n, ast.Attribute) and n.attr in FN:
            out.append((n.lineno, "fn", lambda n=n: setattr(n, "attr", FN[n.attr])))
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    out.append((n.lineno, "dropkw:" + k.arg, lambda n=n, i=i: n.keywords.pop(i)))
            pos = [i for i, a in enumerate(n.args)]
            for i in pos[:-1]:
                out.append((n.lineno, "swaparg", lambda n=n, i=i: n.args.__setitem__(slice(i, i + 2), [n.args[i + 1], n.args[i]])))
        if isinstance(n, (ast.Name, ast.arg)) and isinstance(getattr(n, "ctx", None), ast.Load):
            for a, b in SW:
                for p, q in ((a, b), (b, a)):
                    if n.id.endswith(p) and len(n.id) >= len(p):
                        out.append((n.lineno, f"name:{n.id}->{n.id[: -len(p)] + q}", lambda n=n, p=p, q=q: setattr(n, "id", n.id[: -len(p)] + q)))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value[-2:] in ("_1", "_2"):
            out.append((n.lineno, "str", lambda n=n: setattr(n, "value", n.value[:-1] + ("2" if n.value[-1] == "1" else "1"))))
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for i, s in enumerate(n.body):
                if (
                    isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr))
                    and not doc(s)
                    and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") in ("print", "super"))
                ):
                    out.append((s.lineno, "delstmt", lambda n=n, i=i: n.body.__setitem__(i, ast.Pass())))
        if isinstance(n, ast.If):
            out.append((n.lineno, "ifnot", lambda n=n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
        if isinstance(n, ast.If):
            out.append((n.lineno, "iftrue", lambda n=n: setattr(n, "test", ast.Constant(True))))
    return out


def apply(f, idx):
    t = ast.parse(open(R + f).read())
    m = muts(t)
    ln, kind, fn = m[idx]
    fn()
    ast.fix_missing_locations(t)
    return ln, kind, ast.unparse(t)


if sys.argv[1] == "gen":
    rnd = random.Random(int(sys.argv[2]))
    per = float(sys.argv[3])
    L = []
    import py_compile

    for f in MAP:
        src = open(R + f).read()
        base = ast.unparse(ast.parse(src))
        n = len(muts(ast.parse(src)))
        names = {x.id for x in ast.walk(ast.parse(src)) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(ast.parse(src)) if isinstance(x, ast.arg)}
        ids = list(range(n))
        rnd.shuffle(ids)
        k = 0
        want = max(4, int(per * n**0.75))
        for i in ids:
            ln, kind, new = apply(f, i)
            if new == base:
                continue
            if kind.startswith("name:") and kind.split("->")[1] not in names:
                continue
            L.append((f, i, ln, kind))
            k += 1
            if k >= want:
                break
        print(f, n, k)
    rnd.shuffle(L)
    json.dump(L, open(W + "/mutants.json", "w"))
    print(len(L))
else:
    L = json.load(open(W + "/mutants.json"))
    me = int(sys.argv[2])
    nw = int(sys.argv[3])
    done = set()
    if os.path.exists(W + "/results.txt"):
        for l in open(W + "/results.txt"):
            done.add(int(l.split()[0]))
    for j, (f, i, ln, kind) in enumerate(L):
        if j % nw != me or j in done:
            continue
        c = W + f"/c{me}"
        shutil.rmtree(c, ignore_errors=True)
        shutil.copytree(W + "/base", c, ignore=shutil.ignore_patterns(".git", "build"))
        _, _, new = apply(f, i)
        open(c + "/gwinferno/" + f, "w").write(new)
        res = "SURVIVED"
        t0 = time.time()
        for chk in MAP[f]:
            ff = W + f"/ff{me}"
            if os.path.exists(ff):
                os.remove(ff)
            p = subprocess.Popen(
                [W + "/verif/check", chk, "quick"],
                cwd=W + "/verif",
                env=dict(os.environ, MC_REPO=c, MC_FAILFAST=ff, MC_WORKERS="4", MC_LIMIT="500"),
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
                start_new_session=True,
            )
            while p.poll() is None and not os.path.exists(ff):
                time.sleep(0.3)
            if os.path.exists(ff):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                res = "killed " + chk
                break
            if p.returncode != 0:
                res = "killed " + chk
                break
        line = f"{j} {res} {f}:{ln} {kind} {time.time() - t0:.0f}s"
        open(W + "/results.txt", "a").write(line + "\n")
    shutil.rmtree(W + f"/c{me}", ignore_errors=True)
