"""C21: loading a model file always runs the code of the file that was named."""

import importlib
import itertools
import os
import sys

from mc.core import Shard

PROPERTY = "C21"
BOUNDS = dict(
    files="four files in two directories: the same name twice, a second name, and the name of a standard-library module",
    operations="write new contents (good, using a sibling module, without model, broken), delete, load (absolute, relative, through another directory)",
    histories="every sequence of up to 5 (quick) or 6 (thorough) write/delete/load operations over the files; hidden state is never merged, every history is executed from scratch",
)
ASSUMPTIONS = ["every write gives the file a new modification time (Python's own byte-code cache relies on it)"]
FILES = ("A/model.py", "B/model.py", "A/other.py", "B/colorsys.py")
GOOD = "V = %d\n\n\ndef helper():\n    return V\n\n\ndef model(*args):\n    return helper()\n"
NOMODEL = "V = %d\n\n\ndef not_the_model():\n    return V\n"
BROKEN = "V = %d\ndef model(:\n"
SIB = "from %s import V\n\n\ndef model(*args):\n    return V\n"
MARK = [1000]


class World:
    def __init__(self, ctx):
        MARK[0] += 1
        self.root = os.path.join(ctx.scratch, "h%d" % MARK[0])
        self.dirs = {d: os.path.join(self.root, d) for d in "AB"}
        for d in self.dirs.values():
            os.makedirs(d)
        self.contents, self.loaded = {}, []

    def path(self, f):
        return os.path.join(self.root, f)

    def write(self, f, kind):
        MARK[0] += 1
        v = MARK[0]
        text = {"good": GOOD, "nomodel": NOMODEL, "broken": BROKEN}.get(kind)
        if kind == "sibling":
            h = "sib_%d" % v
            with open(os.path.join(os.path.dirname(self.path(f)), h + ".py"), "w") as s:
                s.write("V = %d\n" % v)
            text = SIB % h
        else:
            text = text % v
        with open(self.path(f), "w") as s:
            s.write(text)
        os.utime(self.path(f), (10**9 + v * 10, 10**9 + v * 10))
        importlib.invalidate_caches()
        self.contents[f] = (kind, v)

    def delete(self, f):
        if os.path.exists(self.path(f)):
            os.remove(self.path(f))
        self.contents.pop(f, None)


def name(f, form, w):
    if form == "absolute":
        return w.path(f)
    if form == "relative":
        return os.path.relpath(w.path(f))
    if form == "dotted":
        d, b = f.split("/")
        return os.path.join(w.root, "B" if d == "A" else "A", "..", d, b)


def run(ctx, history):
    from gwinferno.pipeline.parser import load_model_from_python_file as load

    path0, mods0, cwd = list(sys.path), set(sys.modules), os.getcwd()
    w = World(ctx)
    try:
        for i, op in enumerate(history):
            if op[0] == "write":
                w.write(op[1], op[2])
            elif op[0] == "delete":
                w.delete(op[1])
            elif op[0] == "cd":
                os.chdir(w.dirs[op[1]])
            else:
                f = op[1]
                kind, v = w.contents.get(f, ("missing", None))
                try:
                    m = load(name(f, op[2], w))
                    got = m()
                except Exception as e:
                    got = "error"
                    if kind in ("good", "sibling"):
                        ctx.fail("loading an existing model file raised " + repr(e)[:150], v, "error")
                ctx.step()
                if kind in ("good", "sibling"):
                    ctx.check(got == v, "model of the named file", v, got)
                    if got == v:
                        w.loaded.append((m, v))
                else:
                    ctx.check(got == "error", "a %s model file is an error" % kind, "error", got)
                for m, vv in w.loaded:
                    ctx.check(m() == vv, "model loaded earlier keeps its own code", vv, m())
                if f.endswith("colorsys.py"):
                    std = importlib.import_module("colorsys")
                    ctx.check(hasattr(std, "rgb_to_hsv"), "the program's own imports", "standard library", getattr(std, "__file__", "?"))
                    sys.modules.pop("colorsys", None)
                    std = importlib.import_module("colorsys")
                    ctx.check(hasattr(std, "rgb_to_hsv"), "the program's later imports", "standard library", getattr(std, "__file__", "?"))
                    sys.modules.pop("colorsys", None)
                ctx.outcome((kind, got == v))
        ctx.trace()
    finally:
        os.chdir(cwd)
        sys.path[:] = path0
        for k in set(sys.modules) - mods0:
            del sys.modules[k]
        import shutil

        shutil.rmtree(w.root, ignore_errors=True)


def search(ctx, files, kinds, forms, depth, cds=False, first=None):
    """depth-first over all histories that contain a load; histories ending without one add nothing and are not executed"""
    ops = [("write", f, k) for f in files for k in kinds] + [("delete", f) for f in files] + [("load", f, fm) for f in files for fm in forms]
    if cds:
        ops += [("cd", d) for d in "AB"]
    sys.dont_write_bytecode = False
    for n in range(1, depth + 1):
        for h in itertools.product(ops, repeat=n):
            if h[-1][0] != "load":
                continue  # the verdicts are all on loads
            if any(h[i][0] != "load" and i + 1 < n and h[i + 1][0] != "load" and h[i][1] == h[i + 1][1] and h[i][0] == h[i + 1][0] == "delete" for i in range(n - 1)):
                continue
            if first is not None and hash_(h[0], len(ops), ops) % first[1] != first[0]:
                continue
            with ctx.at(history=h):
                run(ctx, h)


def hash_(op, n, ops):
    return ops.index(op)


def shards(tier):
    t = tier == "thorough"
    out = []
    P = 7
    for i in range(P):
        out.append(Shard("same-name-%d" % i, search, True, 5, files=FILES[:2], kinds=("good",), forms=("absolute",), depth=6 if t else 5, first=(i, 6)) if i < 6 else Shard("contents", search, True, 6, files=FILES[:1], kinds=("good", "sibling", "nomodel", "broken"), forms=("absolute",), depth=5 if t else 4))
    for i in range(4 if t else 2):
        out.append(Shard("four-files-%d" % i, search, True, 6, files=FILES, kinds=("good",), forms=("absolute",), depth=5 if t else 4, first=(i, 4 if t else 2)))
    out.append(Shard("siblings", search, True, 4, files=(FILES[0], FILES[3]), kinds=("sibling",), forms=("absolute",), depth=5 if t else 4))
    out.append(Shard("forms", search, True, 5, files=FILES[:2], kinds=("good",), forms=("absolute", "relative", "dotted"), depth=5 if t else 4, cds=True))
    return out
