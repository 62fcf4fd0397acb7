"""C02: pdf, cdf, ppf, sf, isf, logarithms, median, interval, integrate, histogramize and support fit together

For every representation, number of PDFs, function and (pairs of) arguments, each derived function is compared with its
definition in terms of pdf, cdf and ppf; the cdf is compared with the integral of the pdf between the nodes; the ppf with
the inverse of the cdf.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, ref, util
from mc.util import same

PROPERTY = "C02"
LEVEL = "model_checking"
NAN = float("nan")
INF = float("inf")


def grid(f):
    """nodes, points beside and between them, outside"""
    pts = sorted(f.inside())
    out = []
    for a, b in zip(pts, pts[1:]):
        out += [a, a + 0.3 * (b - a), a + 0.5 * (b - a)]
    return out + [pts[-1]]


def levels(f):
    return sorted(set(f.qs) | {0.01, 0.25, 0.77, 0.99})


def pick(ctx):
    name = ctx.choose("representation", fix.ALL)
    npdf = ctx.choose("npdf", [1, 2, 3, 4] if ctx.thorough else [1, 2, 3])
    f = fix.make(name, npdf)
    ctx.state(name, npdf)
    return f


def usable(f, xs):
    """splines are only defined inside of their knots"""
    if f.cls == "spline":
        return [x for x in xs if all(r.lo <= x <= r.hi for r in f.refs)]
    return xs


def derived(ctx):
    f = pick(ctx)
    xs = usable(f, grid(f)) + [NAN] + ([] if f.cls == "spline" else [INF, -INF])
    qs = levels(f) + [NAN, -0.5, 1.25]
    fun = ctx.choose("function", ["sf", "logpdf", "logcdf", "logsf", "isf", "median", "interval", "support"])
    shape = ctx.choose("arguments", ["scalar", "list", "per PDF"])
    ens = f.ens()
    ctx.step(2)
    with np.errstate(all="ignore"):
        if fun == "support":
            if f.cls in ("hist", "interp", "interp_irregular", "packed_interp"):
                lo, hi = ens.frozen.support()
                same(ctx, np.broadcast_to(np.ravel(lo), (f.npdf,)), [r.ends[0] for r in f.refs], "lower end of the support")
                same(ctx, np.broadcast_to(np.ravel(hi), (f.npdf,)), [r.ends[1] for r in f.refs], "upper end of the support")
            return
        if fun == "median":
            same(ctx, np.reshape(ens.median(), (f.npdf, 1)), f.ens().ppf(0.5), "median")
            ctx.check(np.shape(ens.median()) == (f.npdf, 1), "median has shape %s" % (np.shape(ens.median()),))
            return
        if fun == "interval":
            for alpha in (0.0, 0.5, 0.9, 1.0):
                lo, hi = ens.interval(alpha)
                want = f.ens().ppf([0.5 * (1 - alpha), 0.5 * (1 + alpha)])
                same(ctx, lo, want[:, :1], "lower end of interval(%g)" % alpha, 1e-7)
                same(ctx, hi, want[:, 1:], "upper end of interval(%g)" % alpha, 1e-7)
            return
        pts = qs if fun == "isf" else xs
        if shape == "scalar":
            pts = [ctx.choose("argument", pts)]
            arg = pts[0]
        elif shape == "list":
            arg = np.array(pts)
        else:
            arg = np.array([pts[i:] + pts[:i] for i in range(f.npdf)])
        got = getattr(ens, fun)(arg)
        other = f.ens()
        if fun == "sf":
            want = 1 - other.cdf(arg)
        elif fun == "isf":
            want = other.ppf(1 - np.asarray(arg))
        else:
            base = dict(logpdf="pdf", logcdf="cdf", logsf="sf")[fun]
            want = getattr(other, base)(arg)
            if f.cls in ("quant", "spline"):
                # reconstructions can be (slightly) negative
                ok = ~(want < 1e-9)
                got, want = np.where(ok, got, 0), np.where(ok, want, 1.0)
            want = np.log(want)
        if fun in ("logsf", "logcdf"):
            # far in the tail the difference from one is lost to rounding
            got, want = np.exp(got), np.exp(want)
        same(ctx, got, want, "%s(%s) against its definition" % (fun, arg), 1e-6 if f.cls == "spline" else 1e-9, 1e-11)


def integrals(ctx):
    """integrate for all pairs of limits, given once for all or per PDF"""
    f = pick(ctx)
    xs = usable(f, grid(f))
    lo = ctx.choose("lower limit", range(0, len(xs), 1 if ctx.thorough else 2))
    how = ctx.choose("limits", ["numbers", "per PDF", "arrays"])
    ens, one = f.ens(), f.ens()
    for hi in range(len(xs)):
        if how == "numbers":
            a, b = xs[lo], xs[hi]
        elif how == "per PDF":
            a = np.array([[xs[(lo + i) % len(xs)]] for i in range(f.npdf)])
            b = np.array([[xs[(hi + 2 * i) % len(xs)]] for i in range(f.npdf)])
        else:
            a, b = np.array([xs[lo], xs[0]]), np.array([xs[hi], xs[-1]])
        got = ens.integrate((a, b))
        same(ctx, got, one.cdf(b) - one.cdf(a), "integral from %s to %s" % (a, b), 1e-6, 1e-9)
        ctx.step()


def histograms(ctx):
    """histogramize for all choices of 2-4 bin edges"""
    f = pick(ctx)
    xs = usable(f, sorted(set(grid(f))))
    n = ctx.choose("edges", [2, 3, 4])
    start = ctx.choose("first edge", range(0, len(xs) - n + 1, 2))
    ens = f.ens()
    one = f.ens()
    for step in (1, 2, 3):
        edges = np.array(xs[start :: step][:n])
        if len(edges) < n:
            continue
        bins, vals = ens.histogramize(edges)
        ctx.step()
        same(ctx, bins, edges, "bins returned by histogramize")
        c = one.cdf(edges)
        same(ctx, vals, c[:, 1:] - c[:, :-1], "histogramize(%s)" % edges, 1e-6, 1e-9)


def slope(ctx):
    """the increments of the cdf are the integrals of the pdf, the cdf rises from 0 to 1"""
    f = pick(ctx)
    if f.cls == "quant":
        xs = sorted({v for r in f.refs for v in r.l})
    else:
        xs = usable(f, grid(f))
    ens = f.ens()
    c = ens.cdf(np.array(xs))
    ctx.step()
    for i, r in enumerate(f.refs):
        mine = range(len(xs)) if f.cls != "quant" else [j for j, x in enumerate(xs) if x in r.l]
        for a, b in itertools.combinations(mine, 2):
            ctx.check(c[i, a] <= c[i, b] + 1e-9, lambda: "cdf of PDF %i falls from x=%g to x=%g" % (i, xs[a], xs[b]))
        ctx.check(all(-1e-9 <= c[i, j] <= 1 + 1e-7 for j in mine), "cdf of PDF %i is not between 0 and 1" % i)
    far = np.array([-1e6, 1e6, -INF, INF])
    want = np.array([[0.0, 1.0, 0.0, 1.0]] * f.npdf)
    same(ctx, ens.cdf(far), want, "cdf far away", 1e-6, 1e-6 if f.cls == "spline" else 1e-8)
    if f.cls in ("quant",):
        return
    # where the documented cdf is the exact integral
    for i, r in enumerate(f.refs):
        nodes = sorted(set(r.xs)) if isinstance(r, ref.InterpRow) else sorted(set(r.bins)) if isinstance(r, ref.HistRow) else xs
        for a, b in zip(nodes, nodes[1:]):
            if isinstance(r, ref.HistRow):
                m = 64
                x = a + (b - a) * (np.arange(m) + 0.5) / m
                integral = float(np.sum(ens.pdf(x)[i]) * (b - a) / m)
            else:
                m = 256
                x = a + (b - a) * np.arange(m + 1) / m
                w = np.where(np.arange(m + 1) % 2 == 1, 4.0, 2.0)
                w[0] = w[-1] = 1.0
                if f.name == "uniform":
                    continue
                y = ens.pdf(x)[i]
                integral = float(np.sum(w * y) * (b - a) / m / 3)
            rise = float(ens.cdf(b)[i, 0] - ens.cdf(a)[i, 0])
            tol = 1e-7 if f.cls not in ("beta", "gamma") else 2e-4
            ctx.check(abs(rise - integral) <= tol, lambda: "cdf of PDF %i rises by %r from %g to %g, its pdf has the integral %r" % (i, rise, a, b, integral))
            ctx.step(3)


def inverse(ctx):
    """ppf is the inverse of cdf"""
    f = pick(ctx)
    q = ctx.choose("level", [v for v in (levels(f) if f.cls != "quant" else f.refs[0].q) if 0 < v < 1])
    ens = f.ens()
    x = ens.ppf(q)
    c = np.array([ens.cdf(float(v))[i, 0] for i, v in enumerate(x[:, 0])])
    ctx.step(1 + f.npdf)
    for i, r in enumerate(f.refs):
        tol = dict(mixmod=1.5e-2, spline=1e-6).get(f.cls, 1e-7)
        ctx.traced()
        if abs(c[i] - q) <= tol:
            continue
        if r.finding("ppf", q) or r.finding("cdf", float(x[i, 0])):
            fid, acc = r.finding("ppf", q)
            if ref.accept(x[i, 0], acc, 1e-8, 1e-10):
                ctx.finding(fid, "cdf(ppf(%g)) of PDF %i is %g" % (q, i, c[i]))
                continue
        if f.cls == "hist" or f.cls in ("interp", "interp_irregular", "packed_interp", "sparse"):
            # on flat parts of the cdf each point of the flat part is right, and so is the level
            pass
        ctx.fail("cdf(ppf(%g)) of PDF %i is %r" % (q, i, c[i]))
    for y in usable(f, grid(f)) if f.cls != "quant" else []:
        c = ens.cdf(y)
        back = np.array([ens.ppf(float(v))[i, 0] for i, v in enumerate(c[:, 0])])
        for i, r in enumerate(f.refs):
            ctx.traced()
            if not 1e-6 < c[i, 0] < 1 - 1e-6:
                continue
            dens = max(ens.pdf(y)[i, 0], 1e-3)
            tol = dict(mixmod=getattr(r, "cell", 0) * 1.5, spline=1e-5).get(f.cls, 1e-7 / dens)
            again = ens.cdf(float(back[i]))[i, 0]
            if abs(back[i] - y) <= tol or abs(again - c[i, 0]) < 1e-9:
                continue
            ctx.fail("ppf(cdf(%g)) of PDF %i is %r" % (y, i, back[i]))
        ctx.step(2)
        if not ctx.thorough and len(ctx.choices) and q != levels(f)[1]:
            break


def attributes(ctx):
    """grids, knots, quantiles and weights that a distribution shows are those its functions interpolate"""
    f = pick(ctx)
    how = ctx.choose("ensemble", ["new", "reversed", "one", "twice", "updated", "evaluated", "not normalised"])
    n = f.npdf
    rows = list(range(n))
    data = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in f.data.items()}
    if how == "not normalised":
        if f.cls not in ("hist", "interp", "interp_irregular"):
            return
        ens = f.ens()
        shown = dict(hist=("bins", "pdfs"), interp=("xvals", "yvals"), interp_irregular=("xvals", "yvals"))[f.cls]
        ens = qp.Ensemble(getattr(qp, f.cls), data={**{k: getattr(ens.dist, k) for k in shown}, "check_input": False})
    else:
        ens = f.ens()
    if how == "reversed":
        ens, rows = ens[::-1], rows[::-1]
    elif how == "one":
        ens, rows = ens[n - 1], [n - 1]
    elif how == "twice":
        ens, rows = qp.concatenate([ens, ens]), rows + rows
    elif how == "updated":
        other = fix.make(f.name, n + 1).ens()
        other.update(data)
        ens = other
    elif how == "evaluated":
        ens.ppf(0.5)
        ens.cdf(np.array(f.inside()))
    d = ens.dist
    ctx.step(2)
    refs = [f.refs[i] for i in rows]
    ctx.check(ens.npdf == len(rows), "%i PDFs instead of %i" % (ens.npdf, len(rows)))
    if f.cls == "hist":
        same(ctx, d.bins, f.data["bins"], "bins")
        mid = 0.5 * (np.asarray(d.bins)[1:] + np.asarray(d.bins)[:-1])
        same(ctx, ens.pdf(mid), np.atleast_2d(d.pdfs), "contents of the bins", 1e-9)
        same(ctx, np.sum(np.diff(d.bins) * np.atleast_2d(d.pdfs), axis=-1), np.ones(len(rows)), "sum of the bins", 1e-9)
    elif f.cls in ("interp", "packed_interp"):
        same(ctx, d.xvals, f.data["xvals"], "grid")
        same(ctx, ens.pdf(np.asarray(d.xvals)), np.atleast_2d(d.yvals), "values on the grid", 1e-9)
        if f.cls == "packed_interp":
            for k in ("ypacked", "ymax"):
                same(ctx, getattr(d, k), np.asarray(f.data[k])[rows], k)
    elif f.cls == "interp_irregular":
        same(ctx, d.xvals, f.data["xvals"][rows], "grids")
        same(ctx, ens.pdf(np.asarray(d.xvals)), d.yvals, "values on the grids", 1e-9)
    elif f.cls == "mixmod":
        x = np.array(f.inside())
        for i in range(len(rows)):
            want = sum(w * np.exp(-0.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi)) for w, m, s in zip(d.weights[i], d.means[i], d.stds[i]))
            same(ctx, ens.pdf(x)[i], want, "sum of the components of PDF %i" % i, 1e-9)
        same(ctx, np.sum(d.weights, axis=-1), np.ones(len(rows)), "sum of the weights")
    elif f.cls == "quant":
        for i, r in enumerate(refs):
            same(ctx, ens.cdf(np.asarray(d.locs)[i])[i], d.quants, "cdf at the locations of PDF %i" % i, 1e-9, 1e-9)
            same(ctx, ens.ppf(np.asarray(d.quants)[1:-1])[i], np.asarray(d.locs)[i][1:-1], "ppf at the quantiles of PDF %i" % i, 1e-9, 1e-9)
            same(ctx, d.locs[i], np.array(r.l), "locations of PDF %i" % i)
        ctx.check(d.pdf_constructor_name == f.data.get("pdf_constructor_name", d.pdf_constructor_name), "reconstruction %s" % d.pdf_constructor_name)
    elif f.cls == "spline":
        for k in ("splx", "sply", "spln"):
            same(ctx, getattr(d, k), np.asarray(f.data[k])[rows], k)
    for kind, pts in (("pdf", usable(f, f.inside())),):
        got = ens.pdf(np.array(pts))
        want = np.asarray(f.ens().pdf(np.array(pts)))[rows]
        same(ctx, got, want, "pdf", 1e-8, 1e-10)


HARNESSES = {f.__name__: f for f in (derived, integrals, histograms, slope, inverse, attributes)}
BOUNDS = dict(
    quick="24 fixtures of 9 representations and 4 scipy families x 1-3 PDFs x all arguments of a set with nodes, 2 points per cell, outside, nan, inf; all pairs of limits; bins of 2-4 edges; attributes of new, selected, concatenated, updated and evaluated ensembles",
    thorough="as quick with 4 PDFs and all lower limits",
)
ASSUMPTIONS = ["quantile ensembles: the density is a reconstruction, so the cdf is only compared with it through the reference; cdf and ppf are inverse at the quantiles", "mixture ppf is exact up to one cell of its table", "splines are only defined inside of their knots"]
