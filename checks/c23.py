"""C23: ensembles of any shape behave like the list of their PDFs

Oracle: the flat ensemble of the same rows in C order (which the other checks compare with the reference).
Explored: all representations x shapes with up to three dimensions (of any length, 1 included) x all functions x all forms of
the arguments, statistics, samples, conversions, files and tables, single and in pairs.
"""

import itertools
import os

import numpy as np
import qp
from mc import fix, obs
from mc.util import raises, same

PROPERTY = "C23"
LEVEL = "model_checking"
SHAPES = [(2, 2), (1, 3), (3, 1), (2, 3), (1, 1), (2, 1, 2), (1, 2, 1)]
MORE = [(3, 2), (2, 2, 2), (1, 1, 1), (4, 1), (1, 1, 2, 2)]
EVAL = ["pdf", "cdf", "sf", "logpdf", "logcdf", "logsf", "ppf", "isf"]


def pair(f, shape):
    """the shaped ensemble and the flat one"""
    n = int(np.prod(shape))
    data = obs.raw(f, range(n))
    for k in f.per_row:
        data[k] = data[k].reshape(tuple(shape) + data[k].shape[1:])
    cls = getattr(qp, f.cls) if hasattr(qp, f.cls) else getattr(qp.stats, f.cls)
    return qp.Ensemble(cls, data=data), obs.build(f, range(n))


def setup(ctx, names=fix.ALL):
    name = ctx.choose("representation", names)
    shape = tuple(ctx.choose("shape", SHAPES + MORE if ctx.thorough else SHAPES))
    f = fix.make(name, int(np.prod(shape)))
    ens, flat = pair(f, shape)
    return f, shape, ens, flat


def folded(ctx, got, want, shape, msg, rtol=1e-9):
    """the shaped result is the flat one, folded"""
    want = np.asarray(want)
    same(ctx, got, want.reshape(tuple(shape) + want.shape[1:]), msg, rtol)


def evaluate(ctx):
    """all functions, all forms of arguments"""
    f, shape, ens, flat = setup(ctx)
    n = len(f.refs)
    ctx.check(tuple(np.atleast_1d(ens.shape)) == shape, "%s of shape %s says its shape is %s" % (f.name, shape, ens.shape))
    ctx.check(ens.npdf == n, "%s of shape %s has %s PDFs" % (f.name, shape, ens.npdf))
    ctx.check(ens.ndim == len(shape), "%s of shape %s has %s dimensions" % (f.name, shape, ens.ndim))
    kinds = [k for k in EVAL if f.cls != "spline" or k in ("pdf", "logpdf", "cdf", "sf")]
    for kind in kinds:
        pts = list(f.qs if kind in ("ppf", "isf") else f.inside())
        if f.cls == "spline" and kind in ("cdf", "sf"):
            pts = pts[2:4]
        forms = dict(scalar=pts[len(pts) // 2], one=[pts[1]], two=[pts[-2], pts[0]], all=pts, n=[pts[j % len(pts)] for j in range(n)], last=[pts[(2 * j) % len(pts)] for j in range(shape[-1])])
        per = {m: np.array([[pts[(3 * i + j) % len(pts)] for j in range(m)] for i in range(n)]) for m in (1, 2, n)}
        with np.errstate(all="ignore"):
            for form, x in forms.items():
                x = np.array(x)
                ctx.step()
                ctx.state(f.name, shape, kind, form)
                folded(ctx, getattr(ens, kind)(x), getattr(flat, kind)(x), shape, "%s of %s with shape %s at %s" % (kind, f.name, shape, x.tolist()))
            for m, x in per.items():
                ctx.step()
                ctx.state(f.name, shape, kind, "per PDF", m)
                folded(ctx, getattr(ens, kind)(x.reshape(shape + (m,))), getattr(flat, kind)(x), shape, "%s of %s with shape %s at %s, one list per PDF" % (kind, f.name, shape, x.tolist()))


CLOSED = [n for n in fix.ALL if n in fix.SCIPY or n.startswith(("hist", "interp", "packed")) or n.startswith("sparse")]


def stats(ctx):
    """statistics, integrals and grids"""
    f, shape, ens, flat = setup(ctx)
    xs = np.sort(np.array(f.inside()))
    lim = (float(xs[1]), float(xs[-2]))
    what = "%s of " + "%s with shape %s" % (f.name, shape)
    with np.errstate(all="ignore"):
        ops = [
            ("gridded values", lambda e: e.gridded(xs)[1]),
            ("mode", lambda e: e.mode(xs)),
            ("moment_partial", lambda e: e.moment_partial(1, lim, 0.05)),
        ]
        if f.cls != "spline":
            ops += [("histogramize", lambda e: e.histogramize(xs)[1]), ("integrate", lambda e: e.integrate(lim)), ("median", lambda e: e.median())]
            ops += [("interval 0.5, end %i" % k, lambda e, k=k: e.interval(0.5)[k]) for k in (0, 1)]
        if f.name in CLOSED:
            ops += [(m, lambda e, m=m: getattr(e, m)()) for m in ("mean", "var", "std")]
            ops += [("moment %i" % k, lambda e, k=k: e.moment(k)) for k in (1, 2, 3)]
            ops += [("stats mv, %i" % k, lambda e, k=k: e.stats("mv")[k]) for k in (0, 1)]
        for name, op in ops:
            ctx.step()
            ctx.state(f.name, shape, name)
            folded(ctx, op(ens), op(flat), shape, what % name, 1e-7)


def samples(ctx):
    """one list of samples per PDF, drawn from that PDF"""
    f, shape, ens, flat = setup(ctx, [n for n in fix.ALL if n != "spline"])
    size = ctx.choose("size", [None, 1, 2, 5])
    state = ctx.choose("state", ["number", "RandomState", "Generator"])
    make = dict(number=lambda: 7, RandomState=lambda: np.random.RandomState(7), Generator=lambda: np.random.default_rng(7))[state]
    kw = {} if size is None else dict(size=size)
    with np.errstate(all="ignore"):
        got, want = ens.rvs(random_state=make(), **kw), flat.rvs(random_state=make(), **kw)
    ctx.step()
    ctx.state(f.name, shape, size, state)
    ctx.check(np.shape(got) == shape + (size or 1,), "samples of %s with shape %s: shape %s" % (f.name, shape, np.shape(got)))
    folded(ctx, got, want, shape, "samples of %s with shape %s, size %s, %s" % (f.name, shape, size, state))


TARGETS = dict(
    hist=("hist", dict(bins=np.array([-1.0, 0.0, 0.25, 1.0, 2.5]))),
    interp=("interp", dict(xvals=np.array([-0.5, 0.0, 0.5, 1.0, 2.0]))),
    quant=("quant", dict(quants=np.array([0.1, 0.25, 0.5, 0.75, 0.9]))),
    packed=("packed_interp", dict(xvals=np.array([-0.5, 0.0, 0.5, 1.0, 2.0]), packing_type=qp.packing_utils.PackingType.linear_from_rowmax)),
)


def convert(ctx):
    """conversions keep the order of the PDFs; shape or list, but the same PDFs"""
    f, shape, ens, flat = setup(ctx, [n for n in fix.ALL if n != "spline"])
    target = ctx.choose("target", list(TARGETS))
    name, kw = TARGETS[target]
    with np.errstate(all="ignore"):
        got, want = qp.convert(ens, name, **kw), qp.convert(flat, name, **kw)
        ctx.step(2)
        ctx.state(f.name, shape, target)
        msg = "%s with shape %s converted to %s" % (f.name, shape, name)
        ctx.check(got.npdf == want.npdf, "%s: %s PDFs" % (msg, got.npdf))
        xs = np.array([-0.25, 0.125, 0.5, 0.9, 1.75])
        for kind, pts in (("pdf", xs), ("cdf", xs), ("ppf", np.array([0.3, 0.5, 0.8]))):
            if raises(getattr(want, kind), pts) is not None:
                # quantiles that coincide have no cdf
                continue
            g, w = getattr(got, kind)(pts), getattr(want, kind)(pts)
            same(ctx, np.reshape(g, w.shape), w, "%s: %s" % (msg, kind))


def save(ctx):
    """written and read again, the PDFs are there in the same order"""
    f, shape, ens, flat = setup(ctx)
    how = ctx.choose("way", ["hdf5", "dictionary"])
    if how == "dictionary":
        tables = ens.build_tables()
        ctx.step()
        again = qp.from_tables(tables)
    else:
        path = os.path.join(os.environ["QPMC_SCRATCH"], "c23-%i.%s" % (os.getpid(), how))
        try:
            ens.write_to(path)
            again = qp.read(path)
        finally:
            if os.path.exists(path):
                os.unlink(path)
        ctx.step(2)
    ctx.state(f.name, shape, how)
    msg = "%s with shape %s, restored from a %s" % (f.name, shape, how)
    ctx.check(again.npdf == flat.npdf, "%s: %s PDFs" % (msg, again.npdf))
    with np.errstate(all="ignore"):
        for kind in ("pdf", "cdf"):
            pts = np.array(f.inside()[:3])
            g, w = getattr(again, kind)(pts), getattr(flat, kind)(pts)
            same(ctx, np.reshape(g, w.shape), w, "%s: %s" % (msg, kind))


def history(ctx):
    """pairs of operations, one after the other"""
    f, shape, ens, flat = setup(ctx, ["hist_n", "interp_n", "irreg", "mixmod", "quant_pl", "quant_dsa", "packed_log", "sparse", "norm"])
    xs = np.array(f.inside())
    ops = dict(
        pdf=lambda e: e.pdf(xs),
        cdf=lambda e: e.cdf(xs[:2]),
        ppf=lambda e: e.ppf(np.array(f.qs[1:4])),
        median=lambda e: e.median(),
        grid=lambda e: e.gridded(np.sort(xs))[1],
        samples=lambda e: e.rvs(size=2, random_state=5),
        per=lambda e: e.pdf(np.resize(xs, (e.npdf, 2)).reshape((shape if e is ens else (e.npdf,)) + (2,))),
    )
    for seq in itertools.product(ops, repeat=3 if ctx.thorough else 2):
        a, b = pair(f, shape)
        ens = a
        with np.errstate(all="ignore"):
            for name in seq:
                ctx.step()
                folded(ctx, ops[name](a), ops[name](b), shape, "%s with shape %s: %s" % (f.name, shape, " then ".join(seq)))
        ctx.state(f.name, shape, seq)


HARNESSES = {h.__name__: h for h in (evaluate, stats, samples, convert, save, history)}
BOUNDS = dict(
    quick="%i fixtures of all representations x 7 shapes of 1-3 dimensions (lengths 1-3) x 8 functions x 9 forms of the arguments; 8-17 statistics; samples x 4 sizes x 3 kinds of states; 4 targets of conversion; 2 ways to save; all pairs of 7 operations" % len(fix.ALL),
    thorough="12 shapes of up to 4 dimensions; all sequences of 3 operations",
)
ASSUMPTIONS = ["the flat ensemble of the same rows is right (C01-C04, C21, C22)", "selecting from an ensemble with more than one dimension is not claimed"]
