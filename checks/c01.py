"""C01: pdf, cdf and ppf of each representation are the documented functions of its data

Every small data set (bins, grids, values, components, quantiles, codes ... from small alphabets) is built with the real
constructors; pdf, cdf and ppf are evaluated at the edges, next to the edges, inside every cell and outside, and compared
with the reference of mc/ref.py.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, ref, util
from mc.util import match

PROPERTY = "C01"
LEVEL = "model_checking"
QS = [0.0, 0.03125, 0.1, 0.25, 0.4, 0.5, 0.75, 0.9, 0.96875, 1.0, -0.25, 1.5, float("nan")]
OUT = [float("nan"), float("inf"), -float("inf")]


def cast(ctx, arr, small=True):
    """The arrays may come as double, single precision (as read from a file), or integers, and in any memory order"""
    kind = ctx.choose("type", ["f8", "f4", "fortran", "int"] if ctx.thorough else ["f8", "f4", "int"] if small else ["f8"])
    if kind == "fortran":
        return [np.asfortranarray(a) for a in arr]
    if kind == "int":
        return [a.astype(int) if np.all(a == np.floor(a)) else a for a in arr]
    return [a.astype(kind) for a in arr]


def trio(ctx, ens, refs, xs, qs, what, rtol=1e-8, atol=1e-11):
    rows = list(range(len(refs)))
    width = max(r.hi - r.lo for r in refs) if all(math.isfinite(r.hi - r.lo) for r in refs) else 1.0
    with np.errstate(all="ignore"):
        match(ctx, refs, "pdf", ens.pdf(np.array(xs + OUT)), rows, xs + OUT, what, rtol, atol * max(1.0, 8 / width))
        match(ctx, refs, "cdf", ens.cdf(np.array(xs + OUT)), rows, xs + OUT, what, rtol, atol)
        match(ctx, refs, "ppf", ens.ppf(np.array(qs)), rows, qs, what, rtol, atol)
    ctx.step(3)


def second(vals):
    """Another row, so that a mix up of rows shows"""
    return [v + 1.0 + 0.5 * i for i, v in enumerate(reversed(vals))]


FRAMES = [(1.0, 0.0), (2.0**-20, 0.0), (0.25, -3.0), (1024.0, 512.0)]


def frame(ctx, small=True):
    """Scale and offset of the x axis"""
    return ctx.choose("frame", FRAMES if small or ctx.thorough else FRAMES[:2])


def hist_data(ctx):
    nb = ctx.choose("bins", [1, 2, 3, 4] if ctx.thorough else [1, 2, 3])
    widths = [ctx.choose("width", [1.0, 0.5, 3.0] if nb < 4 else [1.0, 2.0]) for _ in range(nb)]
    vals = [ctx.choose("content", [1.0, 0.0, 3.0]) for _ in range(nb)]
    if not any(vals):
        return
    scale, off = frame(ctx, nb < 3)
    edges = [off]
    for w in widths:
        edges.append(edges[-1] + scale * w)
    two = ctx.flag("second row")
    rows = [vals, second(vals)] if two else [vals]
    bins, pdfs = cast(ctx, [np.array(edges), np.array(rows)], nb < 3)
    ctx.state("hist", bins.tolist(), pdfs.tolist(), str(pdfs.dtype))
    ens = qp.Ensemble(qp.hist, data=dict(bins=bins, pdfs=pdfs))
    refs = [ref.HistRow(edges, r) for r in rows]
    single = pdfs.dtype == np.float32
    # in single precision the edges are exact but differences and sums are rounded
    xs = util.near(edges)
    trio(ctx, ens, refs, xs if not single else [x for x in xs if all(abs(x - e) > 1e-4 * scale or x == e for e in edges)], QS, "hist", 1e-5 if single else 1e-8, 1e-6 if single else 1e-11)


def interp_data(ctx):
    n = ctx.choose("points", [2, 3, 4, 5] if ctx.thorough else [2, 3, 4])
    widths = [ctx.choose("step", [1.0, 0.5, 3.0] if n < 5 else [1.0, 3.0]) for _ in range(n - 1)]
    vals = [ctx.choose("value", [1.0, 0.0, 3.0]) for _ in range(n)]
    if not any(vals):
        return
    scale, off = frame(ctx, n < 4)
    grid = [off]
    for w in widths:
        grid.append(grid[-1] + scale * w)
    two = ctx.flag("second row")
    rows = [vals, second(vals)] if two else [vals]
    xv, yv = cast(ctx, [np.array(grid), np.array(rows)], n < 4)
    ctx.state("interp", xv.tolist(), yv.tolist(), str(yv.dtype))
    ens = qp.Ensemble(qp.interp, data=dict(xvals=xv, yvals=yv))
    single = yv.dtype == np.float32
    trio(ctx, ens, [ref.InterpRow(grid, r, first=True) for r in rows], util.near(grid), QS, "interp", 1e-5 if single else 1e-8, 1e-6 * max(1, scale) if single else 1e-11)


def irregular_data(ctx):
    n = ctx.choose("points", [2, 3, 4])
    vals = [ctx.choose("value", [1.0, 0.0, 3.0]) for _ in range(n)]
    if not any(vals):
        return
    scale, off = frame(ctx)
    npdf = ctx.choose("npdf", [1, 2, 3])
    shapes = [[1.0, 0.5, 2.0], [0.25, 3.0, 1.0], [1.0, 1.0, 1.0]]
    start = ctx.choose("starts", [(0.0, 0.0, 0.0), (0.0, 0.5, -1.0)])
    grids, rows = [], []
    for i in range(npdf):
        g = [off + scale * start[i]]
        for w in shapes[i][: n - 1]:
            g.append(g[-1] + scale * w)
        grids.append(g)
        rows.append(vals if i == 0 else second(vals) if i == 1 else [1.0 + k for k in range(n)])
    xv, yv = cast(ctx, [np.array(grids), np.array(rows)])
    ctx.state("irregular", xv.tolist(), yv.tolist(), str(yv.dtype))
    ends = (min(g[0] for g in grids), max(g[-1] for g in grids))
    ens = qp.Ensemble(qp.interp_irregular, data=dict(xvals=xv, yvals=yv))
    single = yv.dtype == np.float32
    xs = sorted({x for g in grids for x in util.near(g)})
    trio(ctx, ens, [ref.InterpRow(g, r, ends=ends) for g, r in zip(grids, rows)], xs, QS[:-3] if single else QS, "interp_irregular", 1e-5 if single else 1e-8, 1e-6 * max(1, scale) if single else 1e-11)


def mixture_data(ctx):
    n = ctx.choose("components", [1, 2, 3])
    means = [ctx.choose("mean", [0.0, 1.0, 2.5] if n < 3 else [0.0, 2.5]) for _ in range(n)]
    stds = [ctx.choose("std", [0.25, 1.0]) for _ in range(n)]
    weights = [ctx.choose("weight", [1.0, 3.0, 0.0]) for _ in range(n)]
    if not any(weights):
        return
    scale, off = frame(ctx, n < 2)
    means, stds = [off + scale * m for m in means], [scale * s for s in stds]
    data = [[means], [stds], [weights]]
    if ctx.flag("second row"):
        data[0].append([m + scale for m in means])
        data[1].append([2 * s for s in reversed(stds)])
        data[2].append([w + 1.0 for w in weights])
    arrs = cast(ctx, [np.array(d) for d in data], n < 2)
    ctx.state("mixture", [a.tolist() for a in arrs], str(arrs[0].dtype))
    ens = qp.Ensemble(qp.mixmod, data=dict(zip(("means", "stds", "weights"), arrs)))
    refs = [ref.MixRow(*r) for r in zip(*data)]
    xs = sorted({m + k * s for r in refs for m, s, _ in r.parts for k in (-4, -1, 0, 0.5, 3)})
    single = arrs[0].dtype == np.float32
    trio(ctx, ens, refs, xs, QS, "mixmod", 1e-5 if single else 1e-8, 1e-5 if single else 1e-11)


CONSTRUCTORS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]


def quantile_data(ctx):
    kind = ctx.choose("reconstruction", CONSTRUCTORS)
    pads = ctx.choose("padding", [(0, 0), (1, 0), (0, 1), (1, 1)])
    nq = ctx.choose("quantiles", [9, 10]) if kind == "dual_spline_average" else ctx.choose("quantiles", [5, 6])
    style = ctx.choose("levels", ["even", "uneven"])
    quants = [i / (nq - 1) for i in range(nq)] if style == "even" else [(i / (nq - 1)) ** 2 for i in range(nq)]
    quants[-1] = 1.0
    gaps = [ctx.choose("gap", [0.5, 1.0]) for _ in range(4)]
    scale, off = frame(ctx, False)
    npdf = ctx.choose("npdf", [1, 2])
    locs = []
    for i in range(npdf):
        row = [off + scale * 0.5 * i]
        for j in range(nq - 1):
            row.append(row[-1] + scale * (gaps[j % 4] + 0.25 * ((i + 1) * j % 3)))
        locs.append(row)
    lo, hi = pads[0], nq - pads[1]
    quants, locs = quants[lo:hi], [r[lo:hi] for r in locs]
    if kind == "dual_spline_average" and len(quants) + sum(pads) < 8:
        return
    q, l = np.array(quants), np.array(locs)
    ctx.state("quant", kind, q.tolist(), l.tolist())
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=l, pdf_constructor_name=kind))
    refs = [ref.QuantRow(quants, r, kind) for r in locs]
    xs = set()
    for r in refs:
        xs |= set(r.l) | set(r.m) | {0.25 * a + 0.75 * b for a, b in zip(r.l, r.l[1:])} | {r.lo - scale, r.hi + scale}
    with np.errstate(all="ignore"):
        for i, r in enumerate(refs):
            r.tol = 1e-9
    xs = sorted(xs)
    # the padded locations are computed: stay off the discontinuities at the ends
    bad = [v for r in refs for v in (r.m[0], r.m[-1], r.lo, r.hi) + (tuple(r.m) if kind == "piecewise_constant" else ())]
    eps = 1e-9 * max(1.0, abs(off), scale * 20)
    px = [x for x in xs if all(abs(x - b) > eps for b in bad)]
    if kind == "piecewise_constant":
        px += [b + s * 1e-6 * scale for b in refs[0].m for s in (-1, 1)]
    rows = list(range(npdf))
    match(ctx, refs, "pdf", ens.pdf(np.array(px + OUT)), rows, px + OUT, kind, 1e-6, 1e-7 / scale)
    cx = [x for x in xs if all(abs(x - b) > eps for r in refs for b in (r.lo, r.hi))] + OUT
    match(ctx, refs, "cdf", ens.cdf(np.array(cx)), rows, cx, kind, 1e-8, 1e-9)
    qs = refs[0].q + [-0.25, 1.25, float("nan")]
    match(ctx, refs, "ppf", ens.ppf(np.array(qs)), rows, qs, kind, 1e-8, eps)
    ctx.step(3)


def packed_data(ctx):
    kind = ctx.choose("packing", [0, 1])
    n = ctx.choose("points", [2, 3, 4])
    codes = [ctx.choose("code", [255, 0, 1, 128]) for _ in range(n)]
    if not any(codes):
        return
    ymax = ctx.choose("row maximum", [1.0, 1e-6, 250.0])
    floor = ctx.choose("log floor", [-3.0, -1.5]) if kind == 1 else -3.0
    scale, off = frame(ctx, n < 4)
    grid = [off + scale * v for v in [0.0, 1.0, 1.5, 3.5][:n]]
    two = ctx.flag("second row")
    rows = [codes, [255 - c // 2 for c in codes]] if two else [codes]
    ym = [ymax, 2.0 * ymax][: len(rows)]
    how = ctx.choose("packing type as", ["enum", "number"]) if n == 2 else "enum"
    ptype = qp.packing_utils.PackingType(kind) if how == "enum" else kind
    data = dict(xvals=np.array(grid), ypacked=np.array(rows, dtype=np.uint8), ymax=np.array(ym)[:, None], packing_type=ptype)
    if kind == 1:
        data["log_floor"] = floor
    ctx.state("packed", kind, rows, ym, floor, grid)
    ens = qp.Ensemble(qp.packed_interp, data=data)
    refs = [ref.InterpRow(grid, fix.decode(kind, r, m, floor), first=True) for r, m in zip(rows, ym)]
    trio(ctx, ens, refs, util.near(grid), QS, "packed")


def sparse_data(ctx):
    dims = ctx.choose("dictionary", [(3, 1, 1), (3, 2, 2), (5, 2, 1)])
    mu, sig = [0.0, 2.0], [0.25, 0.5]
    xv = np.linspace(0.0, 2.0, 9)
    nb = dims[0] * dims[1] * dims[2]
    basis = fix.sparse_basis(xv.tolist(), mu, sig, dims)
    ns = ctx.choose("terms", [1, 2, 3])
    bases = [ctx.choose("basis", sorted({0, 1, nb // 2, nb - 1})) for _ in range(ns)]
    coefs = [32000] + [ctx.choose("coefficient", [16000, 1, 0, 31999]) for _ in range(ns - 1)]
    codes = [[(c << 16) | b for c, b in zip(coefs, bases)]]
    if ctx.flag("second row"):
        codes.append([(c << 16) | (nb - 1 - b) for c, b in zip(coefs, bases)])
    how = ctx.choose("meta data as", ["list", "array"])
    conv = list if how == "list" else np.array
    ctx.state("sparse", dims, codes)
    ens = qp.Ensemble(qp.sparse, data=dict(xvals=xv, mu=conv(mu), sig=conv(sig), dims=conv(list(dims) + [32001, ns]), sparse_indices=np.array(codes)))
    refs = [ref.InterpRow(xv.tolist(), fix.sparse_row(xv, basis, c), first=True) for c in codes]
    trio(ctx, ens, refs, util.near(xv.tolist()), QS, "sparse")


def spline_data(ctx):
    n = ctx.choose("points", [5, 6])
    vals = [0.5] + [ctx.choose("value", [1.0, 2.0, 0.25]) for _ in range(n - 2)] + [0.5]
    scale, off = ctx.choose("frame", [(1.0, 0.0), (0.25, -3.0), (1024.0, 512.0)])
    npdf = ctx.choose("npdf", [1, 2])
    x = [off + scale * 0.5 * j for j in range(n)]
    rows = [vals, [1.0 + v * (1 + j % 2) for j, v in enumerate(vals)]][:npdf]
    how = ctx.choose("made from", ["points", "knots"])
    from scipy.interpolate import make_interp_spline

    refs, tck = [], []
    for r in rows:
        f = make_interp_spline(x, r, k=3)
        area = float(f.integrate(x[0], x[-1]))
        t, c = f.t, f.c / area
        refs.append(ref.SplineRow(t, np.concatenate([c, np.zeros(len(t) - len(c))]), 3))
        tck.append((t, np.concatenate([c, np.zeros(4)]), [3]))
    if any(float(r.f(v)) < 0 for r in refs for v in np.linspace(x[0], x[-1], 33)):
        return  # not a probability density
    ctx.state("spline", x, rows, how)
    if how == "points":
        ens = qp.Ensemble(qp.spline_from_xy, data=dict(xvals=np.array([x] * npdf), yvals=np.array(rows)))
    else:
        ens = qp.Ensemble(qp.spline, data=dict(splx=np.array([t[0] for t in tck]), sply=np.array([t[1] for t in tck]), spln=np.array([t[2] for t in tck])))
    xs = [v for v in util.near(x) if x[0] <= v <= x[-1]]
    match(ctx, refs, "pdf", ens.pdf(np.array(xs)), list(range(npdf)), xs, "spline", 1e-6, 1e-9 / scale)
    cx = xs + [x[0] - scale, x[-1] + scale]
    match(ctx, refs, "cdf", ens.cdf(np.array(cx)), list(range(npdf)), cx, "spline", 1e-6, 1e-7)
    ctx.step(2)
    if n == 5 and scale == 1.0:
        qs = [0.1, 0.5, 0.96875, -0.5, 1.5, float("nan")]
        match(ctx, refs, "ppf", ens.ppf(np.array(qs)), list(range(npdf)), qs, "spline", 1e-6, 1e-5)


def spline_samples(ctx):
    """Splines from samples: the density is the spline through the kernel density estimate of each row"""
    npdf = ctx.choose("npdf", [1, 2, 3])
    npts = ctx.choose("samples", [4, 7])
    grid = np.linspace(-2.0, 6.0, ctx.choose("grid", [9, 17]))
    samples = np.array([[fix.num(i, j) * 3 + 0.5 * i for j in range(npts)] for i in range(npdf)])
    ctx.state("kde", npdf, npts, len(grid))
    ens = qp.Ensemble(qp.spline_from_samples, data=dict(xvals=grid, samples=samples))
    from scipy.interpolate import make_interp_spline

    refs = []
    for row in samples.tolist():
        n, mean = len(row), math.fsum(row) / len(row)
        sd = math.sqrt(math.fsum((v - mean) ** 2 for v in row) / (n - 1)) * n ** (-0.2)
        y = [math.fsum(math.exp(-0.5 * ((g - v) / sd) ** 2) for v in row) / (n * sd * math.sqrt(2 * math.pi)) for g in grid.tolist()]
        f = make_interp_spline(grid, y, k=3)
        c = f.c / float(f.integrate(grid[0], grid[-1]))
        refs.append(ref.SplineRow(f.t, np.concatenate([c, np.zeros(4)]), 3))
    xs = grid.tolist() + [0.3, 1.7, 2.55]
    match(ctx, refs, "pdf", ens.pdf(np.array(xs)), list(range(npdf)), xs, "spline from samples", 1e-6, 1e-9)
    match(ctx, refs, "cdf", ens.cdf(np.array(xs)), list(range(npdf)), xs, "spline from samples", 1e-6, 1e-7)
    ctx.step(2)


def fixtures(ctx):
    """The standard ensembles, up to many rows and many points"""
    name = ctx.choose("representation", fix.ALL)
    npdf = ctx.choose("npdf", [1, 2, 3, 5, 33] if ctx.thorough else [1, 2, 3, 7])
    f = fix.make(name, npdf)
    ctx.state(name, npdf)
    trio(ctx, f.ens(), f.refs, f.xs, f.qs, name)


HARNESSES = {f.__name__: f for f in (hist_data, interp_data, irregular_data, mixture_data, quantile_data, packed_data, sparse_data, spline_data, spline_samples, fixtures)}
BOUNDS = dict(
    quick="all histograms with <=3 bins (3 widths, 3 contents each), grids with <=4 points (3 steps, 3 values), irregular grids (<=4 points, <=3 rows), mixtures of <=3 components, 4 quantile reconstructions x 4 paddings x 16 gap patterns, packed codes from {0,1,128,255}, sparse codes, splines through <=6 points; x 4 frames of the x axis, x number types; pdf/cdf/ppf at all edges, beside them, 3 points inside each cell, outside, nan, inf",
    thorough="as quick with <=4 bins, <=5 grid points, Fortran order, mixtures in all frames",
)
ASSUMPTIONS = ["the reference semantics in mc/ref.py state the documented functions", "values exactly on an edge between two histogram bins may belong to either bin", "quantile cdf and ppf are only specified at the nodes and outside"]
