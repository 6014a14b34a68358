"""Bounded exhaustive exploration core shared by all checks.

A check module (``checks/cNN.py``) exposes

    PROPERTY = "C01"
    BOUNDS   = {...}                 # the alphabet and the bounds, written to the evidence
    ASSUMPTIONS = [...]
    def shards(tier): -> [Shard(...)]

A *shard* is one independent part of the bounded space; it runs in a process of its own configuration
(64-bit or default 32-bit floats) and explores every path of its part.  Within a shard

* a **state** is a node of the explored graph: a canonical key given to ``ctx.state`` (hashed and
  de-duplicated) or, for a vectorised front, one element of an array of states (``ctx.front``),
* a **transition** is one call into the code under test (``ctx.step``),
* a **trace** is one complete path whose observations on the real code were compared with the
  reference model (``ctx.trace``).

Nothing in the exploration is random: VERIF_SEED is recorded but changes nothing.
"""

import contextlib
import hashlib
import json
import os
import time
import traceback

import numpy as np


class Shard:
    def __init__(self, name, fn, x64=True, cost=1.0, /, **kw):
        self.name, self.fn, self.x64, self.cost, self.kw = name, fn, x64, cost, kw


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    try:
        a = np.asarray(x)
        if a.dtype.kind in "fiub":
            if a.ndim == 0:
                return jsonable(a.item())
            if a.size > 40:
                return {"shape": list(a.shape), "head": jsonable(a.ravel()[:12].tolist())}
            return jsonable(a.tolist())
    except Exception:
        pass
    return repr(x)[:300]


class Ctx:
    """Bookkeeping for one shard."""

    MAX_KEEP = 5

    def __init__(self, prop, shard, tier, x64, known):
        self.prop, self.shard, self.tier, self.x64 = prop, shard, tier, x64
        self.known_ids = known
        self.states, self.n_front = set(), 0
        self.transitions = self.traces = self.comparisons = 0
        self.violations, self.nviol = [], 0
        self.known_hits = {}
        self.samples = []
        self.outcomes = set()
        self.path = []
        self.thorough = tier == "thorough"
        self.scratch = None

    # ---- exploration bookkeeping ----
    def state(self, key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def front(self, n):
        """n states explored as one vectorised front (distinct by construction)."""
        self.n_front += int(n)

    def step(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, o):
        if len(self.outcomes) < 20000:
            self.outcomes.add(repr(o)[:80])

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(jsonable(dict(shard=self.shard, **kw)))

    @contextlib.contextmanager
    def at(self, **choices):
        """Enter a sub-path of the choice tree; an exception of the code under test there is a violation."""
        self.path.append(choices)
        self.state([self.shard] + self.path)
        try:
            yield
        except Exception as e:
            self.fail("raised " + type(e).__name__ + ": " + str(e)[:300], trace=traceback.format_exc()[-2500:])
        finally:
            self.path.pop()

    # ---- verdicts ----
    def fail(self, what, expected=None, observed=None, trace=None, known=None, **info):
        if known is not None and known in self.known_ids:
            self.known_hits.setdefault(known, str(what)[:200])
            return
        self.nviol += 1
        if os.environ.get("MC_FAILFAST"):  # bug-planting campaigns stop at the first alarm
            open(os.environ["MC_FAILFAST"], "w").write(json.dumps(jsonable(dict(shard=self.shard, what=what, path=list(self.path)))))
        if len(self.violations) < self.MAX_KEEP:
            self.violations.append(
                jsonable(
                    dict(
                        shard=self.shard,
                        x64=self.x64,
                        path=list(self.path),
                        what=what,
                        expected=expected,
                        observed=observed,
                        trace=trace,
                        **info,
                    )
                )
            )

    def check(self, cond, what, expected=None, observed=None, known=None, **info):
        self.comparisons += 1
        if not bool(cond):
            self.fail(what, expected, observed, known=known, **info)
            return False
        return True

    def close(self, obs, exp, what, rtol=None, atol=0.0, mask=None, known=None, shape=True, **info):
        """Element-wise agreement of an observation with the reference model (NaN never agrees with a number)."""
        obs, exp = np.asarray(obs), np.asarray(exp)
        if rtol is None:
            rtol = 1e-9 if self.x64 else 5e-4
        self.comparisons += max(1, int(exp.size))
        if shape and obs.shape != exp.shape:
            self.fail(what + ": shape", list(exp.shape), list(obs.shape), known=known, **info)
            return False
        if obs.dtype.kind not in "fiub":
            self.fail(what + ": dtype", str(exp.dtype), str(obs.dtype), known=known, **info)
            return False
        try:
            obs, exp = np.broadcast_arrays(obs.astype(float), exp.astype(float))
        except ValueError:
            self.fail(what + ": shape", list(exp.shape), list(obs.shape), known=known, **info)
            return False
        with np.errstate(all="ignore"):
            ok = np.abs(obs - exp) <= atol + rtol * np.abs(exp)
        ok |= obs == exp
        ok |= np.isnan(obs) & np.isnan(exp)
        if mask is not None:
            ok |= ~np.broadcast_to(mask, ok.shape)
        if ok.all():
            return True
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        self.fail(
            what,
            exp[i] if exp.ndim else float(exp),
            obs[i] if obs.ndim else float(obs),
            known=known,
            index=[int(k) for k in i],
            n_bad=int(len(bad)),
            n=int(ok.size),
            rtol=rtol,
            atol=atol,
            **info,
        )
        return False

    def result(self):
        return dict(
            shard=self.shard,
            x64=self.x64,
            states=len(self.states) + self.n_front,
            transitions=self.transitions,
            traces=self.traces,
            comparisons=self.comparisons,
            outcomes=len(self.outcomes),
            violations=self.violations,
            nviol=self.nviol,
            known=self.known_hits,
            samples=self.samples,
        )


def product(**axes):
    """All combinations of named axes, simplest first (the given order of every axis is kept)."""
    names = list(axes)

    def rec(i, acc):
        if i == len(names):
            yield dict(acc)
            return
        for v in axes[names[i]]:
            acc[names[i]] = v
            yield from rec(i + 1, acc)

    yield from rec(0, {})


def bfs(ctx, initial, enabled, build, canon, invariant, depth):
    """Explicit-state search over histories of the real object: a state is the event history reaching it;
    every edge is executed on a freshly built real object, states are merged on ``canon``."""
    seen = set()
    frontier = [tuple(initial)]
    obj = build(frontier[0])
    seen.add(canon(obj))
    ctx.state(("bfs", canon(obj)))
    for _ in range(depth):
        nxt = []
        for hist in frontier:
            for ev in enabled(hist):
                h = hist + (ev,)
                with ctx.at(history=[repr(e) for e in h]):
                    obj = build(h)
                    ctx.step(len(h))
                    ctx.trace()
                    invariant(obj, h)
                    k = canon(obj)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(h)
                        ctx.state(("bfs", k))
        frontier = nxt
        if not frontier:
            break
    return len(seen)


def run_shard(mod, shard, tier, x64, known):
    ctx = Ctx(mod.PROPERTY, shard.name, tier, x64, known)
    t0 = time.time()
    import shutil
    import tempfile

    ctx.scratch = tempfile.mkdtemp(prefix="mc_%s_" % mod.PROPERTY)
    try:
        shard.fn(ctx, **shard.kw)
    except Exception as e:
        ctx.fail("raised " + type(e).__name__ + ": " + str(e)[:300], trace=traceback.format_exc()[-2500:])
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    r = ctx.result()
    r["wall"] = time.time() - t0
    return r


def load_known():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}
