"""C25: plots show the selected PDFs

Oracle: the curves, bars and marks that the data of the selected PDFs define, computed from each PDF alone.
Explored: all representations x all selections (numbers, slices, lists, masks) x both kinds of plot x given axes or limits x
keywords, and pairs of plots into the same axes.
"""

import itertools

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import qp  # noqa: E402
from mc import fix, obs  # noqa: E402
from mc.util import same  # noqa: E402

PROPERTY = "C25"
LEVEL = "model_checking"
KEYS = [0, 1, 2, -1, slice(0, 2), slice(1, 2), slice(None), slice(None, None, -1), [2, 0], [1], [1, 1, 0], np.array([True, False, True]), np.array([False, True, False])]
_ALONE = {}


def rows_of(key):
    return [int(v) for v in np.atleast_1d(np.arange(3)[key])]


def curve(f, r, xs):
    """the pdf of row r alone"""
    if (f.name, r) not in _ALONE:
        _ALONE[(f.name, r)] = obs.build(f, [r])
    with np.errstate(all="ignore"):
        return np.ravel(_ALONE[(f.name, r)].pdf(np.array(xs)))


def limits(f):
    xs = f.inside()
    return (xs[0], xs[-1]) if f.cls != "spline" else (0.25, 2.75)


class Figures:
    """two figures; the second one is the current one"""

    def __enter__(self):
        self.given = plt.figure().add_subplot(111)
        self.current = plt.figure().add_subplot(111)
        return self

    def __exit__(self, *args):
        plt.close("all")


def native(f, rows, xs):
    """curves, marks and bars of the plot in the style of the class: lists of (x, y), marks, (edges, heights)"""
    data = f.data
    if f.cls == "hist":
        edges = np.asarray(data["bins"], float)
        bars = []
        for r in rows:
            p = np.asarray(data["pdfs"][r], float)
            bars.append((edges, p / np.sum(p * np.diff(edges))))
        return [], [edges], bars
    if f.cls == "quant":
        dist = obs.build(f, rows).dist
        return [(xs, curve(f, r, xs)) for r in rows], [np.concatenate([dist.locs[i] for i in range(len(rows))])], []
    if f.cls in ("interp", "packed_interp", "sparse"):
        g = np.asarray(data["xvals"], float)
        return [(g, curve(f, r, g)) for r in rows], [], []
    if f.cls == "interp_irregular":
        return [(data["xvals"][r], curve(f, r, data["xvals"][r])) for r in rows], [], []
    if f.cls == "spline":
        return [(data["splx"][r], curve(f, r, data["splx"][r])) for r in rows], [], []
    return [(xs, curve(f, r, xs)) for r in rows], [], []


def verify(ctx, axes, want, msg, skip=(0, 0, 0)):
    """the axes hold exactly these curves, marks and bars"""
    curves, marks, bars = want
    lines = axes.lines[skip[0] :]
    ctx.check(len(lines) == len(curves), "%s: %i curves instead of %i" % (msg, len(lines), len(curves)))
    for i, (line, (x, y)) in enumerate(zip(lines, curves)):
        same(ctx, np.asarray(line.get_xdata(), float), np.asarray(x, float), "%s: x values of curve %i" % (msg, i))
        same(ctx, np.asarray(line.get_ydata(), float), np.asarray(y, float), "%s: curve %i" % (msg, i))
    got = axes.collections[skip[1] :]
    ctx.check(len(got) == len(marks), "%s: %i sets of marks instead of %i" % (msg, len(got), len(marks)))
    for c, m in zip(got, marks):
        off = np.asarray(c.get_offsets(), float)
        same(ctx, np.sort(off[:, 0]), np.sort(np.asarray(m, float)), "%s: marks" % msg)
        ctx.check(np.all(off[:, 1] == 0), "%s: marks off the axis" % msg)
    got = axes.patches[skip[2] :]
    flat = [(a, b - a, h) for edges, heights in bars for a, b, h in zip(edges, edges[1:], heights)]
    ctx.check(len(got) == len(flat), "%s: %i bars instead of %i" % (msg, len(got), len(flat)))
    for p, (x, w, h) in zip(got, flat):
        same(ctx, [p.get_x(), p.get_width(), p.get_height()], [x, w, h], "%s: bar at %s" % (msg, x))


def draw(f, ens, kind, key, **kw):
    with np.errstate(all="ignore"):
        if kind == "plot":
            return ens.plot(key, **kw)
        return ens.plot_native(key, **kw)


def selections(ctx):
    """both kinds of plot of all selections"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    kind = ctx.choose("kind", ["plot", "plot_native"])
    where = ctx.choose("where", ["axes", "xlim", "xlim and labels"])
    npts = ctx.choose("npts", [None, 2, 7])
    if npts is not None and kind == "plot_native" and f.cls not in ("quant", "mixmod", "norm", "uniform", "beta", "gamma"):
        return
    ens = f.ens(ancil=obs.ancil(range(3)))
    before = obs.frozen_state(ens)
    lo, hi = limits(f)
    for key in KEYS:
        rows = rows_of(key)
        msg = "%s of %s[%s], %s" % (kind, f.name, key, where)
        with Figures() as figs:
            kw = {} if npts is None else dict(npts=npts)
            if where == "axes":
                figs.given.set_xlim(lo, hi)
                axes = draw(f, ens, kind, key, axes=figs.given, **kw)
                ctx.check(axes is figs.given, msg + ": other axes than those given")
            else:
                if where != "xlim":
                    kw.update(xlabel="the x", ylabel="the y")
                axes = draw(f, ens, kind, key, xlim=(lo, hi), **kw)
                ctx.check(axes is not figs.given and axes is not figs.current, msg + ": draws into an older figure")
                same(ctx, axes.get_xlim(), (lo, hi), msg + ": limits")
                label = ("the x", "the y") if where != "xlim" else ("redshift", "p(z)")
                ctx.check((axes.get_xlabel(), axes.get_ylabel()) == label, "%s: labels %s, %s" % (msg, axes.get_xlabel(), axes.get_ylabel()))
            ctx.step()
            ctx.state(f.name, kind, where, npts, str(key))
            xs = np.linspace(lo, hi, npts or 101)
            verify(ctx, axes, ([(xs, curve(f, r, xs)) for r in rows], [], []) if kind == "plot" else native(f, rows, xs), msg)
            for other in (figs.given, figs.current):
                if other is not axes:
                    ctx.check(not other.lines and not other.collections and not other.patches, msg + ": draws into other axes as well")
    obs.unchanged(ctx, ens, before, "%s of %s" % (kind, f.name))


def keywords(ctx):
    """keywords reach the curves and bars; the functions of qp.plotting draw the same"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    kind = ctx.choose("kind", ["plot", "plot_native"])
    via = ctx.choose("via", ["ensemble", "qp.plotting", "frozen"])
    ens = f.ens()
    lo, hi = limits(f)
    xs = np.linspace(lo, hi, 101)
    for kw in ({}, dict(color="red"), dict(label="this"), dict(color="blue", label="that")):
        for key in (0, 2, slice(0, 2)):
            rows = rows_of(key)
            with Figures() as figs, np.errstate(all="ignore"):
                figs.given.set_xlim(lo, hi)
                part = ens[key]
                if via == "ensemble":
                    axes = draw(f, ens, kind, key, axes=figs.given, **kw)
                elif via == "qp.plotting":
                    if len(rows) > 1:
                        # a function for one PDF: shows the first one of an ensemble
                        continue
                    fig, axes = getattr(qp.plotting, kind)(part, axes=figs.given, **kw)
                    ctx.check(fig is figs.given.figure, "%s of qp.plotting: other figure" % kind)
                else:
                    fig, axes = getattr(qp.plotting, kind)(part.frozen, axes=figs.given, **kw)
                    ctx.check(fig is figs.given.figure, "%s of qp.plotting: other figure" % kind)
                ctx.step()
                ctx.state(f.name, kind, via, str(kw), str(key))
                msg = "%s of %s[%s] by %s with %s" % (kind, f.name, key, via, kw)
                ctx.check(axes is figs.given, msg + ": other axes")
                verify(ctx, axes, ([(xs, curve(f, r, xs)) for r in rows], [], []) if kind == "plot" else native(f, rows, xs), msg)
                if "color" in kw:
                    for line in axes.lines:
                        ctx.check(line.get_color() == kw["color"], "%s: colour %s" % (msg, line.get_color()))
                    for p in axes.patches:
                        ctx.check(matplotlib.colors.same_color(p.get_facecolor(), kw["color"]), "%s: colour %s" % (msg, p.get_facecolor()))
                if "label" in kw:
                    for line in axes.lines:
                        ctx.check(line.get_label() == kw["label"], "%s: label %s" % (msg, line.get_label()))


def marked(ctx):
    """samples: marks and curves, on the given axes"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    npoints = ctx.choose("npoints", [None, 2, 11])
    samples = ctx.choose("samples", [[0.25], [0.5, 0.25, 1.0], [2.0, 2.0]])
    lo, hi = limits(f)
    xs = np.linspace(lo, hi, npoints or 101)
    for key in (0, 2, slice(0, 2), [2, 0, 1]):
        rows = rows_of(key)
        ens = obs.build(f, rows)
        for kw in ({}, dict(color="red")):
            with Figures() as figs, np.errstate(all="ignore"):
                figs.given.set_xlim(lo, hi)
                figs.given.set_autoscale_on(False)
                axes = qp.plotting.plot_pdf_samples_on_axes(figs.given, ens, np.array(samples), **kw, **({} if npoints is None else dict(npoints=npoints)))
                ctx.step()
                ctx.state(f.name, npoints, tuple(samples), str(key), str(kw))
                msg = "samples %s of %s%s" % (samples, f.name, rows)
                ctx.check(axes is figs.given, msg + ": other axes")
                verify(ctx, axes, ([(xs, curve(f, r, xs)) for r in rows], [samples], []), msg)
                ctx.check(not figs.current.lines and not figs.current.collections, msg + ": draws into the current axes")


def overlaid(ctx):
    """several plots into the same axes: each adds its own PDFs, whatever was drawn before"""
    f = fix.make(ctx.choose("first", fix.CORE), 3)
    g = fix.make(ctx.choose("second", fix.CORE), 3)
    a, b = f.ens(), g.ens()
    lo, hi = 0.25, 2.0
    xs = np.linspace(lo, hi, 101)
    for k1, k2 in itertools.product(("plot", "plot_native"), repeat=2):
        for key1, key2 in ((0, 1), (slice(0, 2), 2), (1, [2, 1])):
            with Figures() as figs:
                axes = figs.given
                axes.set_xlim(lo, hi)
                axes.set_autoscale_on(False)
                skip = [0, 0, 0]
                for ens, h, kind, key in ((a, f, k1, key1), (b, g, k2, key2), (a, f, k1, key1)):
                    draw(h, ens, kind, key, axes=axes)
                    ctx.step()
                    rows = rows_of(key)
                    want = ([(xs, curve(h, r, xs)) for r in rows], [], []) if kind == "plot" else native(h, rows, xs)
                    verify(ctx, axes, want, "%s of %s[%s] over %s and %s" % (kind, h.name, key, f.name, g.name), skip)
                    skip = [len(axes.lines), len(axes.collections), len(axes.patches)]
                ctx.state(f.name, g.name, k1, k2, str(key1), str(key2))


HARNESSES = {h.__name__: h for h in (selections, keywords, marked, overlaid)}
BOUNDS = dict(
    quick="%i fixtures x 13 selections x 2 kinds of plot x axes or limits (with and without labels) x numbers of points; 3 interfaces x keywords; marks of samples; all pairs of 11 ensembles and kinds overlaid" % len(fix.ALL),
    thorough="the same",
)
ASSUMPTIONS = ["matplotlib draws what its artists hold; colours and styles are checked only where the caller gives them"]
