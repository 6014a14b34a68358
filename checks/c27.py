"""C27: plots show the median and the 90% interval of the predictions, once per subpopulation, and save exactly what is shown."""

import contextlib
import itertools
import os

import numpy as np

from mc.core import Shard

PROPERTY = "C27"
BOUNDS = dict(
    tables="every table of up to three draws on a two-point grid and every table of four draws on one point over {1e-6, 0.3, 1, 40}; every draw count up to 41 with distinct values",
    figures="one to three subpopulations x save on/off x default/explicit colours x first/second component x linear and non-uniform grids",
    backends="one that keeps a figure open after showing it and one that closes it (as a notebook or a closed window does); sequences of up to three plots in one process",
)
ASSUMPTIONS = ["figures are read from matplotlib's own artists at the moment they are saved, shown or closed; rendering to pixels is not judged", "axis limits are not judged"]


def mpl():
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    return matplotlib, plt


def snap(fig):
    """What a figure shows: per axes the lines (x, y, colour, label), the bands (x, low, high, colour), scales, x label, legend entries."""
    from matplotlib.colors import to_hex

    out = []
    for ax in fig.axes:
        lines = [(np.asarray(li.get_xdata(), float), np.asarray(li.get_ydata(), float), to_hex(li.get_color()), str(li.get_label())) for li in ax.get_lines()]
        bands = []
        for c in ax.collections:
            v = np.concatenate([p.vertices for p in c.get_paths()]) if c.get_paths() else np.zeros((0, 2))
            fc = c.get_facecolor()
            bands.append((v, to_hex(fc[0][:3]) if len(fc) else None))
        leg = ax.get_legend()
        out.append(dict(lines=lines, bands=bands, scale=(ax.get_xscale(), ax.get_yscale()), xlabel=ax.get_xlabel(), legend=[t.get_text() for t in leg.get_texts()] if leg else []))
    return out


@contextlib.contextmanager
def recording(closing):
    """Stand-ins that record what is saved and shown; saving writes a marker file instead of rendering."""
    matplotlib, plt = mpl()
    from matplotlib.figure import Figure

    events = []
    plt.close("all")

    def save(self, fname, *a, **k):
        events.append(("save", os.fspath(fname), snap(self)))
        with open(fname, "w") as f:
            f.write("plot")

    def show(*a, **k):
        for n in plt.get_fignums():
            events.append(("show", n, snap(plt.figure(n))))
        if closing:
            old_close("all")

    def close(*a, **k):
        for n in plt.get_fignums():
            events.append(("close", n, snap(plt.figure(n))))
        return old_close(*a, **k)

    old_save, old_show, old_close, old_fshow = Figure.savefig, plt.show, plt.close, Figure.show
    Figure.savefig, plt.show, plt.close = save, show, close
    Figure.show = lambda self, *a, **k: show()
    try:
        yield events, plt
    finally:
        Figure.savefig, plt.show, plt.close, Figure.show = old_save, old_show, old_close, old_fshow
        plt.close("all")


def quantile(t, p):
    """Independent linear-interpolation quantile over the draws (axis 0)."""
    t = np.sort(np.asarray(t, float), axis=0)
    h = (len(t) - 1) * p
    i = min(int(np.floor(h)), len(t) - 1)
    j = min(i + 1, len(t) - 1)
    return t[i] + (h - i) * (t[j] - t[i])


def band_ok(ctx, v, x, lo, hi, what):
    for k in range(len(x)):
        y = v[np.isclose(v[:, 0], x[k], rtol=1e-12, atol=1e-12), 1]
        if not ctx.check(y.size >= 2, what + ": drawn at every grid point", float(x[k]), y.tolist()):
            return
        ctx.close(np.array([y.min(), y.max()]), np.array([lo[k], hi[k]]), what, rtol=1e-9, atol=1e-15)
    ctx.check(v.size and v[:, 0].min() >= x.min() - 1e-12 and v[:, 0].max() <= x.max() + 1e-12, what + ": within the grid")


def judge_axes(ctx, ax, x, tables, names, colors, xlog, ylog):
    from matplotlib.colors import to_hex

    n = len(tables)
    ctx.check(len(ax["lines"]) == n and len(ax["bands"]) == n, "one median and one band per subpopulation", n, (len(ax["lines"]), len(ax["bands"])))
    ctx.check(ax["scale"] == ("log" if xlog else "linear", "log" if ylog else "linear"), "axis scales", (xlog, ylog), ax["scale"])
    for i in range(min(n, len(ax["lines"]), len(ax["bands"]))):
        lx, ly, c, lab = ax["lines"][i]
        ctx.close(lx, x, "median drawn on the grid", rtol=1e-12)
        ctx.close(ly, quantile(tables[i], 0.5), "median over the draws", rtol=1e-9)
        if names is not None:
            ctx.check(lab == names[i], "label of the curve", names[i], lab)
        if colors is not None:
            ctx.check(c == to_hex(colors[i]), "colour of the curve", colors[i], c)
            ctx.check(ax["bands"][i][1] == to_hex(colors[i]), "colour of the band", colors[i], ax["bands"][i][1])
        band_ok(ctx, ax["bands"][i][0], np.asarray(x, float), quantile(tables[i], 0.05), quantile(tables[i], 0.95), "5th to 95th percentile band")


VALS = (1e-6, 0.3, 1.0, 40.0)


def tables(n, g, vals):
    for t in itertools.product(vals, repeat=n * g):
        yield np.array(t).reshape(n, g)


def pdf_tables(ctx, shapes, part=0, parts=1, vals=VALS):
    from gwinferno.postprocess.plot import plot_pdf

    with recording(False) as (ev, plt):
        k = 0
        for n, g in shapes:
            x = np.array([0.5, 2.0, 7.0])[:g]
            for t in tables(n, g, vals):
                k += 1
                if k % parts != part:
                    continue
                loglog = bool((k // parts) % 2)
                with ctx.at(table=t.tolist(), loglog=loglog):
                    fig = plt.figure()
                    before = t.copy()
                    plot_pdf(x, t, "name", color="green", loglog=loglog)
                    ctx.step()
                    s = snap(fig)
                    ctx.check(np.array_equal(t, before), "the draws are left as they were")
                    ctx.check(len(s) == 1, "one panel", 1, len(s))
                    judge_axes(ctx, s[0], x, [t], ["name"], ["green"], loglog, loglog)
                    ctx.trace()
                    ctx.outcome(np.sort(t, axis=0).tolist())
                    plt.close(fig)
                    ev.clear()


def draw_counts(ctx, top):
    from gwinferno.postprocess.plot import plot_pdf

    with recording(False) as (ev, plt):
        for n in range(1, top + 1):
            for order in ("up", "down", "interleaved"):
                for kind in ("numpy", "jax", "float32"):
                    with ctx.at(draws=n, order=order, kind=kind):
                        r = np.arange(1, n + 1, dtype=float)
                        r = {"up": r, "down": r[::-1], "interleaved": np.concatenate([r[::2], r[1::2]])}[order]
                        t = np.stack([r, r**2, 1 / r], axis=1)
                        x = np.array([1.0, 2.0, 10.0])
                        arg = t
                        if kind == "jax":
                            import jax.numpy as jnp

                            arg = jnp.asarray(t)
                        elif kind == "float32":
                            arg = t = t.astype(np.float32)
                        fig = plt.figure()
                        plot_pdf(x, arg, "n")
                        ctx.step()
                        s = snap(fig)
                        judge = dict(names=["n"], colors=["blue"], xlog=True, ylog=True)
                        if kind == "float32":
                            lx, ly, c, lab = s[0]["lines"][0]
                            ctx.close(ly, quantile(t, 0.5), "median over the draws", rtol=1e-5)
                        else:
                            judge_axes(ctx, s[0], x, [t], **judge)
                        ctx.trace()
                        plt.close(fig)
                        ev.clear()


NAMES = ("BBH", "other sub-population", "3")
COLORS = ("#102030", "orange", "k")
DEFAULT = ("red", "blue", "green")


def make(nsub, g, salt, n=5, scale=1.0):
    k = np.arange(1, nsub * n * g + 1)
    t = scale * (0.02 + ((k * 37 + salt * 101) % 89) / 50.0)
    return t.reshape(nsub, n, g)


def one(fam, sub, save, cols, secondary, salt, d, label):
    """Arguments of one plotting call and the panels it has to produce."""
    kw = {}
    colors = DEFAULT
    if cols:
        kw["colors"], colors = list(COLORS), COLORS
    names = list(NAMES[:sub])
    if fam == "mass":
        m, q = np.array([5.0, 20.0, 60.0, 90.0]), np.array([0.1, 0.4, 1.0])
        a, b = make(sub, 4, salt), make(sub, 3, salt + 7)
        args = (list(a), list(b), m, q, names, label, d)
        panels = [("mass_pdf_%s.png" % label, m, a, True, True, "m1", names, colors), ("mass_ratio_pdf_%s.png" % label, q, b, False, True, "q", names, colors)]
    elif fam == "spin":
        x, c = np.array([0.0, 0.2, 0.5, 1.0]), np.array([-1.0, 0.3, 1.0])
        a, b = make(sub, 4, salt), make(sub, 3, salt + 7)
        args = (list(a), list(b), x, c, names, label, d)
        if secondary is not None:
            kw["secondary"] = secondary
        k = "2" if secondary else "1"
        panels = [("spin_mag%s_pdf_%s.png" % (k, label), x, a, False, False, k, names, colors), ("cos_tilt%s_pdf_%s.png" % (k, label), c, b, False, False, k, names, colors)]
    else:
        z = np.array([0.001, 0.3, 0.9, 1.5])
        a = make(1, 4, salt, scale=50.0)
        args = (a[0], z, label, d)
        kw.pop("colors", None)
        panels = [("redshift_pdf_%s.png" % label, z, a, True, True, "z", None, None)]
    if save is not None:
        kw["save"] = save
    return args, kw, panels


def call_and_judge(ctx, P, plt, ev, fam, spec, d, label, closing):
    args, kw, panels = one(fam, d=d, label=label, **spec)
    fn = dict(mass=P.plot_mass_pdfs, spin=P.plot_spin_pdfs, redshift=P.plot_rate_of_z_pdfs)[fam]
    copies = [np.array(a, copy=True) for a in args[0]] if fam != "redshift" else [np.array(args[0], copy=True)]
    before = set(os.listdir(d))
    ev.clear()
    fn(*args, **kw)
    ctx.step()
    save = spec["save"] is not False
    saves = [e for e in ev if e[0] == "save"]
    now = args[0] if fam != "redshift" else [args[0]]
    ctx.check(all(np.array_equal(a, b) for a, b in zip(copies, now)), "the predictions are left as they were")
    ctx.check(not plt.get_fignums(), "no figure is left open", [], plt.get_fignums())
    want = [p[0] for p in panels] if save else []
    ctx.check(sorted(os.path.relpath(e[1], d) for e in saves) == sorted(want), "files written", want, [e[1] for e in saves])
    ctx.check(set(os.listdir(d)) - before <= set(want), "nothing else is written", want, os.listdir(d))
    for fname, x, tabs, xl, yl, lab, names, colors in panels:
        views = [e[2] for e in saves if os.path.relpath(e[1], d) == fname]
        shown = [e[2] for e in ev if e[0] in ("show", "close") and e[2] and e[2][0]["xlabel"] and matches(e[2][0], x)]
        ctx.check(len(shown) >= 1, "every panel is shown", fname, [])
        for v in views + shown:
            if not ctx.check(len(v) == 1, "one panel per file", 1, len(v), file=fname):
                continue
            judge_axes(ctx, v[0], x, tabs, names, colors, xl, yl)
            ctx.check(lab in v[0]["xlabel"], "x axis names the parameter", lab, v[0]["xlabel"])
            if names is not None:
                ctx.check(v[0]["legend"] == list(names), "legend", names, v[0]["legend"])
        ctx.outcome((fname, len(views)))
    ctx.trace()


def matches(ax, x):
    return bool(ax["lines"]) and ax["lines"][0][0].shape == np.shape(x) and np.allclose(ax["lines"][0][0], x)


def figures(ctx, fam, subs, labels=("run1", "a.b-c")):
    import gwinferno.postprocess.plot as P

    cfg = itertools.product(subs, (None, True, False), (False, True), (None, False, True) if fam == "spin" else (None,), (False, True), labels)
    for sub, save, cols, sec, closing, label in cfg:
        spec = dict(sub=sub, save=save, cols=cols, secondary=sec, salt=sub)
        with ctx.at(family=fam, closing=closing, label=label, **spec):
            with recording(closing) as (ev, plt):
                d = scratch(ctx)
                call_and_judge(ctx, P, plt, ev, fam, spec, d, label, closing)


N = [0]


def scratch(ctx):
    N[0] += 1
    d = os.path.join(ctx.scratch, "p%d" % N[0])
    os.makedirs(d)
    return d


def histories(ctx, depth, part, parts):
    """Sequences of plots written to one directory: each file shows its own call, whatever was plotted before."""
    import gwinferno.postprocess.plot as P

    ops = [("mass", None), ("spin", False), ("spin", True), ("redshift", None)]
    k = 0
    for n in range(2, depth + 1):
        for h in itertools.product(ops, repeat=n):
            for closing in (False, True):
                k += 1
                if k % parts != part:
                    continue
                with ctx.at(history=h, closing=closing):
                    with recording(closing) as (ev, plt):
                        d = scratch(ctx)
                        for i, (fam, sec) in enumerate(h):
                            spec = dict(sub=1 + i % 3, save=(True, None, False)[i % 3] if n > 2 else True, cols=bool(i % 2), secondary=sec, salt=3 * i)
                            call_and_judge(ctx, P, plt, ev, fam, spec, d, "l%d" % i, closing)


def shards(tier):
    t = tier == "thorough"
    out = [Shard("table-%d" % i, pdf_tables, True, 8, shapes=[(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2)] + ([(3, 2)] if t else []), part=i, parts=8 if t else 2) for i in range(8 if t else 2)]
    if not t:
        out += [Shard("table32-%d" % i, pdf_tables, True, 8, shapes=[(3, 2)], part=i, parts=3, vals=VALS[1:]) for i in range(3)]
    out.append(Shard("draws", draw_counts, True, 5, top=81 if t else 41))
    for fam in ("mass", "spin", "redshift"):
        for sub in (1, 2, 3) if fam != "redshift" else (1,):
            out.append(Shard("figures-%s-%d" % (fam, sub), figures, True, 6, fam=fam, subs=(sub,)))
    for i in range(6 if t else 3):
        out.append(Shard("histories-%d" % i, histories, True, 6, depth=4 if t else 3, part=i, parts=6 if t else 3))
    return out
