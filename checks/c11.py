"""C11: conversion keeps each distribution as well as the target can represent it

Oracle: the rule of each target applied to one PDF alone, one value at a time, from a source ensemble of that PDF only;
scripted samples where the rule uses samples.  Explored: all sources x targets x methods x 1-3 PDFs in all orders x
grids, through each interface.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, obs, ref
from mc.util import exact, match, raises, same, same_dict

PROPERTY = "C11"
LEVEL = "model_checking"
_ALONE = {}
LIN, LOG = qp.packing_utils.PackingType.linear_from_rowmax, qp.packing_utils.PackingType.log_from_rowmax


def alone(f, i, kind, x):
    """the value of PDF i alone"""
    key = (f.name, i, kind, float(x))
    if key not in _ALONE:
        ens = _ALONE.get((f.name, i))
        if ens is None:
            ens = _ALONE[(f.name, i)] = obs.build(f, [i])
        with np.errstate(all="ignore"):
            _ALONE[key] = float(np.asarray(getattr(ens, kind)(float(x))).ravel()[0])
    return _ALONE[key]


def tol(f):
    return (1e-6, 1e-7) if f.cls == "spline" else (1e-8, 1e-10)


def orders(n):
    return {1: [[0], [2]], 2: [[0, 1], [2, 0]], 3: [[0, 1, 2], [2, 0, 1], [1, 1, 0]]}[n]


GRIDS = {
    "even": [0.0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5],
    "uneven": [-1.0, 0.1, 0.3, 0.5, 1.1, 1.5, 2.5, 4.0],
    "two": [0.2, 1.4],
    "fine": [0.05 * i for i in range(41)],
}


def grid_of(f, name, lo=-1.5, hi=4.5):
    g = GRIDS[name]
    if f.cls == "spline":
        # splines are defined between their outermost points only
        return [x for x in g if 0 <= x <= 3]
    return g


def convert(ctx, ens, how, name, **kwds):
    """the interfaces"""
    given = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kwds.items()}
    with np.errstate(all="ignore"):
        cls = getattr(qp, name + "_gen")
        if how == "convert":
            out = qp.convert(ens, name, **kwds)
        elif how == "convert_to":
            out = ens.convert_to(cls, **kwds)
        elif how == "factory":
            out = qp.instance().convert(ens, class_name=name, **kwds)
        else:
            k = dict(kwds)
            method = k.pop("method", None)
            data = cls.extraction_method(method)(ens, **k)
            out = qp.Ensemble(cls.creation_method(method), data=data)
    ctx.step()
    for k, v in given.items():
        if isinstance(v, np.ndarray):
            exact(ctx, kwds[k], v, "argument %s of the conversion" % k)
        else:
            ctx.check(kwds[k] == v, "argument %s of the conversion changed" % k)
    ctx.check(out.gen_class.name == name, "converting to %s gives %s" % (name, out.gen_class.name))
    return out


HOW = ["convert", "convert_to", "factory", "class"]


def source(ctx, names=None):
    f = fix.make(ctx.choose("source", names or fix.ALL), 3)
    rows = ctx.choose("rows", [r for n in (1, 2, 3) for r in orders(n)])
    return f, rows


def fixed(ctx, f, rows, name, how, msg, **kwds):
    """convert and check the number of PDFs and that the source does not change"""
    ens = obs.build(f, rows, obs.ancil(rows))
    before = obs.frozen_state(ens)
    out = convert(ctx, ens, how, name, **kwds)
    ctx.state(msg, tuple(rows), how)
    ctx.check(out.npdf == len(rows), "%s: %s PDFs instead of %i" % (msg, out.npdf, len(rows)))
    obs.unchanged(ctx, ens, before, msg)
    return out


def to_interp(ctx):
    f, rows = source(ctx)
    gname = ctx.choose("grid", list(GRIDS))
    irregular = ctx.flag("irregular")
    for how in HOW:
        g = grid_of(f, gname)
        msg = "%s to %s on the %s grid by %s" % (f.name, "interp_irregular" if irregular else "interp", gname, how)
        ys = [[alone(f, i, "pdf", x) for x in g] for i in rows]
        if any(sum(y) <= 0 for y in ys):
            return
        out = fixed(ctx, f, rows, "interp_irregular" if irregular else "interp", how, msg, xvals=np.array(g))
        refs = [ref.InterpRow(g, y, first=not irregular, ends=(g[0], g[-1])) for y in ys]
        rtol, atol = tol(f)
        same(ctx, out.objdata()["yvals"], [r.ys for r in refs], msg + ": yvals", rtol, atol)
        if irregular:
            same(ctx, out.objdata()["xvals"], [g] * len(rows), msg + ": xvals")
        else:
            same(ctx, out.metadata()["xvals"], [g], msg + ": xvals")
        pts = [0.5 * (a + b) for a, b in zip(g, g[1:])] + [g[0], g[-1], g[0] - 1.0, g[-1] + 1.0]
        match(ctx, refs, "pdf", out.pdf(np.array(pts)), range(len(rows)), pts, msg, rtol, max(atol, 1e-9))


def per_row_grids(ctx):
    """a grid of its own for each PDF"""
    f = fix.make(ctx.choose("source", fix.ALL), 3)
    rows = ctx.choose("rows", [[0], [0, 1], [2, 0, 1]])
    target = ctx.choose("target", ["interp_irregular", "spline"])
    g = [[0.1 + 0.15 * i + 0.2 * j for j in range(9)] for i in rows]
    ys = [[alone(f, i, "pdf", x) for x in gg] for i, gg in zip(rows, g)]
    rtol, atol = tol(f)
    how = ctx.choose("interface", HOW)
    msg = "%s to %s on grids per PDF by %s" % (f.name, target, how)
    if target == "interp_irregular":
        out = fixed(ctx, f, rows, target, how, msg, xvals=np.array(g))
        same(ctx, out.objdata()["xvals"], g, msg + ": xvals")
        same(ctx, out.objdata()["yvals"], [ref.InterpRow(a, b).ys for a, b in zip(g, ys)], msg + ": yvals", rtol, max(atol, 1e-9))
    else:
        out = fixed(ctx, f, rows, target, how, msg, method="xy", xvals=np.array(g))
        check_spline(ctx, out, g, ys, msg)


def spline_of(g, ys):
    """the normalised spline through the points"""
    from scipy.interpolate import BSpline, splrep

    t, c, k = splrep(g, ys)
    b = BSpline(t, c[: len(t) - k - 1], k)
    return b, float(b.integrate(g[0], g[-1]))


def check_spline(ctx, out, g, ys, msg):
    for i, (gg, yy) in enumerate(zip(g, ys)):
        b, area = spline_of(gg, yy)
        pts = sorted(gg + [0.5 * (x + y) for x, y in zip(gg, gg[1:])])
        want = np.array([[float(b(x)) / area for x in pts]])
        got = np.array([out.pdf(np.array(pts))[i]])
        same(ctx, got, want, "%s: pdf of PDF %i" % (msg, i), 1e-6, 1e-6 * abs(want).max())


def to_spline(ctx):
    f, rows = source(ctx)
    gname = ctx.choose("grid", ["even", "uneven", "fine"])
    g = grid_of(f, gname)
    for how in HOW:
        msg = "%s to spline on the %s grid by %s" % (f.name, gname, how)
        ys = [[alone(f, i, "pdf", x) for x in g] for i in rows]
        if any(spline_of(g, y)[1] < 0.1 for y in ys) or len(g) < 4:
            return
        out = fixed(ctx, f, rows, "spline", how, msg, method="xy", xvals=np.array(g))
        check_spline(ctx, out, [g] * len(rows), ys, msg)


BINS = {
    "even": [-0.5, 0.0, 0.5, 1.0, 1.5],
    "uneven": [-1.0, 0.1, 0.25, 1.1, 1.5, 4.0],
    "one": [0.2, 1.4],
    "fine": [0.05 * i for i in range(41)],
}


def to_hist(ctx):
    f, rows = source(ctx)
    bname = ctx.choose("bins", list(BINS))
    b = [x for x in BINS[bname] if f.cls != "spline" or 0 <= x <= 3]
    for how in HOW:
        msg = "%s to hist in %s bins by %s" % (f.name, bname, how)
        c = [[alone(f, i, "cdf", x) for x in b] for i in rows]
        if any(v[-1] - v[0] < 1e-6 for v in c):
            return
        out = fixed(ctx, f, rows, "hist", how, msg, bins=np.array(b))
        p = [[(y - x) / (v - u) / (row[-1] - row[0]) for x, y, u, v in zip(row, row[1:], b, b[1:])] for row in c]
        rtol, atol = tol(f)
        same(ctx, out.objdata()["pdfs"], p, msg + ": pdfs", rtol, max(atol, 1e-9))
        same(ctx, out.metadata()["bins"], [b], msg + ": bins")
        # the probability of each bin is kept
        got = out.cdf(np.array(b))
        same(ctx, got, [[(x - row[0]) / (row[-1] - row[0]) for x in row] for row in c], msg + ": cdf at the bins", 1e-7, 1e-8)


QS = {
    "inner": [0.05, 0.25, 0.5, 0.7, 0.9],
    "uneven": [0.01, 0.02, 0.3, 0.5, 0.51, 0.99],
    "two": [0.25, 0.75],
    "full": [0.0, 0.2, 0.5, 0.8, 1.0],
    "low": [0.0, 0.3, 0.6],
}


def to_quant(ctx):
    f, rows = source(ctx)
    qname = ctx.choose("quantiles", list(QS))
    q = QS[qname]
    for how in HOW if f.cls != "spline" else HOW[:2]:
        msg = "%s to quant at the %s levels by %s" % (f.name, qname, how)
        locs = [[alone(f, i, "ppf", x) for x in q] for i in rows]
        if f.name == "irreg" and len(rows) > 1:
            # its ppf(0) and ppf(1) are the ends of the whole ensemble
            if q[0] == 0.0 or q[-1] == 1.0:
                return
        if not np.isfinite(locs).all() or any(y <= x for row in locs for x, y in zip(row, row[1:])):
            return
        kind = ctx_kind = None
        out = fixed(ctx, f, rows, "quant", how, msg, quants=np.array(q))
        refs = [ref.QuantRow(q, row, "piecewise_linear") for row in locs]
        rtol, atol = (1e-6, 1e-6) if f.cls == "spline" else (1e-8, 1e-9)
        same(ctx, out.metadata()["quants"], [refs[0].q], msg + ": levels", 1e-12, 0)
        same(ctx, out.objdata()["locs"], [r.l for r in refs], msg + ": locations", rtol, atol)


def to_packed(ctx):
    f, rows = source(ctx)
    gname = ctx.choose("grid", list(GRIDS))
    kind = ctx.choose("packing", [LIN, LOG])
    floor = ctx.choose("floor", [None, -2.0, -4.0]) if kind == LOG else None
    g = grid_of(f, gname)
    kwds = dict(xvals=np.array(g), packing_type=kind)
    if floor is not None:
        kwds["log_floor"] = floor
    for how in HOW:
        msg = "%s to packed_interp (%s, floor %s) on the %s grid by %s" % (f.name, kind.name, floor, gname, how)
        ys = [[alone(f, i, "pdf", x) for x in g] for i in rows]
        if any(max(y) <= 0 for y in ys) or any(v < 0 for y in ys for v in y):
            return
        out = fixed(ctx, f, rows, "packed_interp", how, msg, **kwds)
        neg = -(floor or -3.0)
        same(ctx, out.objdata()["ymax"], [[max(y)] for y in ys], msg + ": maxima", *tol(f))
        want = []
        for y in ys:
            m = max(y)
            if kind == LIN:
                want.append([255 * v / m for v in y])
            else:
                want.append([255 * (math.log10(v / m + 1e-300) + neg) / neg for v in y])
        got = out.objdata()["ypacked"].astype(float)
        want = np.clip(want, 0, 255)
        ctx.traced(want.size)
        if not np.all(np.abs(got - want) <= 0.5 + 1e-3):
            ctx.fail("%s: codes %s instead of %s" % (msg, got, want))
        dec = [fix.decode(0 if kind == LIN else 1, row, max(y), floor or -3.0) for row, y in zip(out.objdata()["ypacked"], ys)]
        refs = [ref.InterpRow(g, d, first=True) for d in dec]
        match(ctx, refs, "pdf", out.pdf(np.array(g)), range(len(rows)), g, msg, 1e-7, 1e-9)


class Script:
    """samples given by the check"""

    def __init__(self, samples):
        self.samples = np.array(samples)
        self.calls = []

    def __call__(self, size=None, random_state=None):
        self.calls.append((size, random_state))
        return self.samples.copy()


def scripted(ctx, f, rows, size, per_row):
    ens = obs.build(f, rows)
    ens.rvs = Script(per_row)
    return ens


ALPH = [-0.7, 0.1, 0.25, 0.9, 2.0, 7.0]


def to_hist_samples(ctx):
    """histograms of scripted samples"""
    f = fix.make(ctx.choose("source", ["norm", "hist_n", "mixmod", "quant_pl"]), 3)
    rows = ctx.choose("rows", [[0], [0, 1], [0, 1, 2]])
    bname = ctx.choose("bins", list(BINS))
    how = ctx.choose("interface", HOW)
    size = ctx.choose("size", [1, 2, 4])
    b = BINS[bname]
    combos = list(itertools.product(ALPH[1:4] if bname != "one" else [0.25, 0.9], repeat=size))
    for k in range(0, len(combos), 1 if ctx.thorough else max(1, len(combos) // 12)):
        samples = [list(combos[(k + 5 * r) % len(combos)]) for r in range(len(rows))]
        for row in samples:
            if size > 1 and bname != "one":
                row[-1] = ALPH[(k + len(row)) % 6]
                row[0] = 0.3
        ens = scripted(ctx, f, rows, size, samples)
        out = convert(ctx, ens, how, "hist", method="samples", bins=np.array(b), size=size)
        msg = "histogram of the samples %s in %s bins by %s" % (samples, bname, how)
        ctx.state(msg)
        ctx.check([c[0] for c in ens.rvs.calls] == [size], msg + ": asked for %s samples" % ens.rvs.calls)
        counts = [[sum(1 for s in row if u <= s < v or (j == len(b) - 2 and s == v)) for j, (u, v) in enumerate(zip(b, b[1:]))] for row in samples]
        want = [[c / (v - u) / sum(cc) for c, u, v in zip(cc, b, b[1:])] for cc in counts]
        same(ctx, out.objdata()["pdfs"], want, msg)
        ctx.check(out.npdf == len(rows), msg + ": %i PDFs" % out.npdf)


def to_spline_samples(ctx):
    """kernel density estimates of scripted samples"""
    from scipy.stats import gaussian_kde

    f = fix.make(ctx.choose("source", ["norm", "hist_n"]), 3)
    rows = ctx.choose("rows", [[0], [0, 1], [0, 1, 2]])
    how = ctx.choose("interface", HOW)
    size = ctx.choose("size", [3, 4])
    g = np.linspace(-2.0, 5.0, ctx.choose("points", [25, 40]))
    for k in range(5 if not ctx.thorough else 20):
        samples = [[ALPH[(k * (j + 1) + r + j) % 5] + 0.1 * j for j in range(size)] for r in range(len(rows))]
        ens = scripted(ctx, f, rows, size, samples)
        out = convert(ctx, ens, how, "spline", method="samples", xvals=g.copy(), size=size)
        msg = "spline of the samples %s by %s" % (samples, how)
        ctx.state(msg)
        ctx.check([c[0] for c in ens.rvs.calls] == [size], msg + ": asked for %s samples" % ens.rvs.calls)
        ys = [[float(v) for v in gaussian_kde(row)(g)] for row in samples]
        check_spline(ctx, out, [g.tolist()] * len(rows), ys, msg)
        ctx.check(out.npdf == len(rows), msg + ": %i PDFs" % out.npdf)


def to_mixmod(ctx):
    """Gaussian mixtures fitted to scripted samples (one component, or well separated ones)"""
    f = fix.make(ctx.choose("source", ["norm", "hist_n"]), 3)
    rows = ctx.choose("rows", [[0], [0, 1], [0, 1, 2]])
    how = ctx.choose("interface", HOW)
    ncomp = ctx.choose("components", [1, 2])
    centres = [[10.0 * (r + 1), -20.0 * (r + 1)] for r in range(len(rows))]
    few = [0.0, 0.3, -0.4, 0.1]
    samples = [[c + (1 + r) * few[(j + r) % 4] for j in range(8) for c in cc[:ncomp]] for r, cc in enumerate(centres)]
    ens = scripted(ctx, f, rows, len(samples[0]), samples)
    out = convert(ctx, ens, how, "mixmod", ncomps=ncomp, nsamples=len(samples[0]), random_state=5)
    msg = "mixture of %i components of %s by %s" % (ncomp, [s[:4] for s in samples], how)
    ctx.state(msg)
    ctx.check(ens.rvs.calls == [(len(samples[0]), 5)], msg + ": asked for %s" % ens.rvs.calls)
    ctx.check(out.npdf == len(rows), msg + ": %i PDFs" % out.npdf)
    data = out.objdata()
    for r, (row, cc) in enumerate(zip(samples, centres)):
        order = np.argsort(-data["means"][r])
        for j in range(ncomp):
            part = [s for s in row if min(cc[:ncomp], key=lambda c: abs(c - s)) == cc[j]]
            m = math.fsum(part) / len(part)
            v = math.fsum((s - m) ** 2 for s in part) / len(part)
            same(ctx, data["means"][r, order[j]], m, msg + ": mean", 1e-6, 1e-6)
            same(ctx, data["stds"][r, order[j]], math.sqrt(v + 1e-6), msg + ": std", 1e-6, 1e-6)
            same(ctx, data["weights"][r, order[j]], 1.0 / ncomp, msg + ": weight", 1e-6, 1e-6)


def interfaces(ctx):
    """each way of asking gives the same result"""
    f = fix.make(ctx.choose("source", fix.ALL), 3)
    rows = ctx.choose("rows", [[1], [0, 2]])
    target = ctx.choose("target", ["interp", "interp_irregular", "hist", "quant", "packed_interp", "spline"])
    if f.cls == "spline" and target == "quant":
        return
    g = np.array(grid_of(f, "even"))
    kwds = dict(interp=dict(xvals=g), interp_irregular=dict(xvals=g), hist=dict(bins=g), quant=dict(quants=np.array([0.1, 0.3, 0.5, 0.9])), packed_interp=dict(xvals=g, packing_type=LOG, log_floor=-2.5), spline=dict(method="xy", xvals=g))[target]
    ens = obs.build(f, rows)
    outs = [convert(ctx, ens, how, target, **kwds) for how in HOW]
    ctx.state(f.name, target, tuple(rows))
    first = outs[0]
    for how, out in zip(HOW[1:], outs[1:]):
        msg = "%s to %s by %s" % (f.name, target, how)
        same_dict(ctx, {k: np.array(v) for k, v in out.objdata().items()}, {k: np.array(v) for k, v in first.objdata().items()}, msg)
        same_dict(ctx, {k: np.array(v) for k, v in out.metadata().items()}, {k: np.array(v) for k, v in first.metadata().items()}, msg)


def required(ctx):
    """missing arguments and unknown classes or methods are rejected"""
    f = fix.make(ctx.choose("source", fix.CORE), 3)
    how = ctx.choose("interface", HOW)
    ens = f.ens()
    before = obs.frozen_state(ens)
    for target, kwds in (("interp", {}), ("interp_irregular", {}), ("hist", {}), ("quant", {}), ("packed_interp", {}), ("packed_interp", dict(packing_type=LIN)), ("spline", dict(method="xy")), ("hist", dict(method="samples"))):
        ctx.state(f.name, how, target, repr(kwds))
        ctx.check(raises(convert, ctx, ens, how, target, **kwds) is not None, "converting %s to %s with %s does not raise" % (f.name, target, kwds))
    ctx.check(raises(qp.convert, ens, "nonsense", xvals=np.array([0.0, 1.0])) is not None, "converting to an unknown class does not raise")
    ctx.check(raises(qp.convert, ens, "spline", xvals=np.array([0.0, 0.5, 1.0, 1.5, 2.0])) is not None, "converting to spline without a method does not raise")
    ctx.check(raises(qp.convert, ens, "spline", method="nonsense", xvals=np.array([0.0, 0.5, 1.0, 1.5, 2.0])) is not None, "converting to spline by an unknown method does not raise")
    obs.unchanged(ctx, ens, before, f.name)


def chain(ctx):
    """conversions one after another"""
    f = fix.make(ctx.choose("source", fix.CORE), 3)
    rows = [2, 0]
    g = grid_of(f, "fine")
    seq = [ctx.choose("target %i" % i, ["interp", "hist", "interp_irregular", "packed"]) for i in range(2 if not ctx.thorough else 3)]
    ens = obs.build(f, rows)
    one = [obs.build(f, [i]) for i in rows]
    for t in seq:
        if t == "hist":
            kw = ("hist", dict(bins=np.array(g)))
        elif t == "packed":
            kw = ("packed_interp", dict(xvals=np.array(g), packing_type=LIN))
        else:
            kw = (t, dict(xvals=np.array(g)))
        ens = convert(ctx, ens, "convert", kw[0], **kw[1])
        one = [convert(ctx, e, "convert", kw[0], **kw[1]) for e in one]
        ctx.state(f.name, tuple(seq), t)
        for i, e in enumerate(one):
            for k, v in e.objdata().items():
                same(ctx, ens.objdata()[k][i : i + 1], v, "%s to %s: %s" % (f.name, seq, k), 1e-7, 1e-8)


UNEVEN = np.array([0.0, 0.25, 0.75, 1.0, 2.0, 2.5])
FAMILIES = dict(
    norm=lambda s: dict(loc=s * np.array([[0.75], [1.5]]), scale=s * np.array([[0.5], [0.25]])),
    uniform=lambda s: dict(loc=s * np.array([[0.25], [0.5]]), scale=s * np.array([[1.75], [1.0]])),
)


def scales(ctx):
    """scaling the x axis of source and target scales the result"""
    name = ctx.choose("source", sorted(FAMILIES))
    power = ctx.choose("power of two", [-40, -30, -20, 20, 40])
    target = ctx.choose("target", ["hist", "hist samples", "interp", "interp_irregular", "quant", "packed", "spline", "spline samples"])
    how = ctx.choose("interface", HOW)
    even = ctx.flag("even grid")
    g = np.linspace(0.0, 2.5, 6) if even else UNEVEN
    draws = np.array([[0.1, 0.3, 0.9, 1.1, 1.9, 2.4, 0.8, 0.6], [0.5, 0.2, 0.7, 1.3, 1.6, 2.2, 1.2, 0.4]])

    def result(s):
        ens = qp.Ensemble(getattr(qp.stats, name), data=FAMILIES[name](s))
        x = s * g
        if target.endswith("samples"):
            ens.rvs = Script(s * draws)
        if target == "hist":
            out = convert(ctx, ens, how, "hist", bins=x)
        elif target == "hist samples":
            out = convert(ctx, ens, how, "hist", method="samples", bins=x, size=8)
        elif target in ("interp", "interp_irregular"):
            out = convert(ctx, ens, how, target, xvals=x)
        elif target == "quant":
            out = convert(ctx, ens, how, "quant", quants=np.array([0.0, 0.1, 0.35, 0.5, 0.9, 1.0]) if name == "uniform" else np.array([0.05, 0.1, 0.35, 0.5, 0.9]))
        elif target == "packed":
            out = convert(ctx, ens, how, "packed_interp", xvals=x, packing_type=LIN)
        elif target == "spline":
            out = convert(ctx, ens, how, "spline", method="xy", xvals=x)
        else:
            out = convert(ctx, ens, how, "spline", method="samples", xvals=x, size=8)
        at = s * np.array([0.1, 0.3, 0.6, 0.9, 1.4, 1.9, 2.3])
        q = np.array([0.1, 0.35, 0.5, 0.9])
        res = dict(pdf=out.pdf(at) * s, cdf=out.cdf(at))
        if not target.startswith("spline"):
            res["ppf"] = out.ppf(q) / s
        for k, v in {**out.objdata(), **out.metadata()}.items():
            if k in ("pdfs", "yvals", "ymax", "sply"):
                res[k] = np.asarray(v, float) * s
            elif k in ("bins", "xvals", "locs", "splx"):
                res[k] = np.asarray(v, float) / s
            elif k == "quants":
                res[k] = np.asarray(v, float)
            elif k == "ypacked":
                # a value half way between two codes may go either way
                res[k] = np.asarray(v, float) * 1e-9
        return res

    if target.startswith("spline") and abs(power) > 20:
        # knots and integrals of splines have absolute tolerances in scipy
        return
    with np.errstate(all="ignore"):
        want, got = result(1.0), result(2.0**power)
    ctx.step(2)
    ctx.state(name, power, target, how, even)
    msg = "%s to %s by %s, x axis times 2**%i" % (name, target, how, power)
    ctx.check(sorted(want) == sorted(got), "%s: data %s instead of %s" % (msg, sorted(got), sorted(want)))
    for k in sorted(want):
        same(ctx, got[k], want[k], "%s: %s" % (msg, k), 1e-6 if target.startswith("spline") else 1e-9, 1e-8)


HARNESSES = dict(
    scales=scales,
    to_interp=to_interp,
    per_row_grids=per_row_grids,
    to_spline=to_spline,
    to_hist=to_hist,
    to_quant=to_quant,
    to_packed=to_packed,
    to_hist_samples=to_hist_samples,
    to_spline_samples=to_spline_samples,
    to_mixmod=to_mixmod,
    interfaces=interfaces,
    required=required,
    chain=chain,
)
BOUNDS = dict(
    quick="23 sources x 8 (target, method) pairs x 1-3 PDFs in 7 arrangements x 4 grids, 4 sets of bins, 5 sets of levels, 2 packings with 3 floors x 4 interfaces; scripted samples; x axes scaled by 5 powers of two; sequences of 2 conversions",
    thorough="more scripted samples, sequences of 3 conversions",
)
ASSUMPTIONS = [
    "grids on which a source PDF has no probability are not claimed",
    "the fit of a mixture model (scikit-learn) is checked for one component and for well separated components only",
    "conversion to the sparse representation is in C13",
    "the samples are scripted by replacing rvs on the source ensemble; that rvs follows the PDF is C22",
]
