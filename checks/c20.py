"""C20: operations never modify their inputs or the ensembles they read from

Oracle: byte-exact copies taken before the operation, and fresh ensembles made of the same rows.
Explored: every public operation x representations; every array, list and dictionary handed in is compared after the
operation (and after using what it returned), results are overwritten and the operation repeated, and every way to derive
an ensemble from another is combined with every way to change the derived one (and the source).
"""

import itertools
import os
import shutil

import numpy as np
import qp
from mc import fix, obs
from mc.util import raises, same, snapshot
from qp import conversion_funcs as cf
from qp import dict_utils as du
from qp import packing_utils as pu
from qp import quantile_pdf_constructors as qc
from qp import sparse_rep as sr
from qp import utils as qu
from qp.metrics import array_metrics as am
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as mm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.brier import Brier
from qp.metrics.pit import PIT
from qp.quant_pdf import pad_quantiles
from qp.spline_pdf import build_splines, normalize_spline

PROPERTY = "C20"
LEVEL = "model_checking"


class Watch:
    """what must not change"""

    def __init__(self, ctx, **things):
        self.ctx, self.things = ctx, things
        self.before = {k: self.take(v) for k, v in things.items()}

    @staticmethod
    def take(v):
        return obs.frozen_state(v) if isinstance(v, qp.Ensemble) else snapshot(v)

    def look(self, msg):
        for k, v in self.things.items():
            self.ctx.traced()
            now = self.take(v)
            if now != self.before[k]:
                what = ""
                if isinstance(now, dict):
                    what = " (%s)" % ", ".join(str(i) for i in sorted(set(now) | set(self.before[k]), key=str) if now.get(i) != self.before[k].get(i))
                self.ctx.fail("%s: the %s%s changed" % (msg, k, what))


def spoil(res):
    """overwrite everything that was returned; True if there was something to overwrite"""
    if isinstance(res, np.ndarray):
        if res.dtype.kind in "fiu" and res.size and res.flags.writeable:
            res[...] = 77
            return True
        return False
    if isinstance(res, (tuple, list)):
        return any([spoil(r) for r in res])
    return False


def keep(res):
    if isinstance(res, np.ndarray):
        return res.copy()
    if isinstance(res, (tuple, list)):
        return [keep(r) for r in res]
    return res


def equal(ctx, a, b, msg):
    if isinstance(a, (tuple, list)):
        ctx.check(len(a) == len(b), msg)
        for u, v in zip(a, b):
            equal(ctx, u, v, msg)
        return
    same(ctx, a, b, msg, 1e-12, 0)


def use(ens, f):
    """evaluate everything that builds tables"""
    with np.errstate(all="ignore"):
        obs.values(ens, f, obs_kinds(f))
        ens.gridded(np.array(f.inside()[:3]))
        if f.cls not in SLOW:
            ens.mean()


# moments by numerical integration
SLOW = ("quant", "spline", "mixmod", "interp_irregular")


def obs_kinds(f):
    return ("pdf", "cdf") if f.cls == "spline" else ("pdf", "cdf", "ppf")


FLAGS = {"hist": [None, False], "interp": [None, False], "interp_irregular": [None, False], "quant": [None, False], "packed_interp": [None], "sparse": [None], "mixmod": [None], "spline": [None]}


def construct(ctx):
    """the data and the ancillary data of a new ensemble stay as they are, also when the ensemble is used"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    check_input = ctx.choose("check_input", FLAGS.get(f.cls, [None]))
    how = ctx.choose("how", ["class", "create", "registered", "tables", "update", "update_objdata", "lists", "columns"])
    rows = list(range(f.npdf))
    data = obs.raw(f, rows)
    anc = obs.ancil(rows)
    if check_input is not None:
        data["check_input"] = check_input
    if how == "lists":
        if f.cls not in ("hist", "interp", "mixmod", "norm"):
            return
        for k in ("bins", "xvals", "quants"):
            if k in data:
                data[k] = data[k].tolist()
    if how == "columns":
        data = {k: (np.asfortranarray(v) if isinstance(v, np.ndarray) and v.ndim == 2 else v) for k, v in data.items()}
    if how == "update_objdata" and (f.name.endswith("_pad") or check_input is not None):
        return  # the stored locations are padded
    extra = {}
    cls = qp.instance()[f.cls]
    ctx.state(f.name, f.npdf, check_input, how)
    ctx.step()
    msg = "%s (%i PDFs, check_input %s) by %s" % (f.name, f.npdf, check_input, how)
    if how == "tables":
        tables = obs.build(f, rows, anc).build_tables()
        watch = Watch(ctx, data=data, ancil=anc, tables=tables)
        ens = qp.from_tables(tables)
    else:
        if how == "update":
            ens = obs.build(f, rows[::-1], obs.ancil(rows[::-1]))
            watch = Watch(ctx, data=data, ancil=anc)
            ens.update(data, anc)
        elif how == "update_objdata":
            ens = obs.build(f, rows[::-1], obs.ancil(rows[::-1]))
            data = {k: v for k, v in data.items() if k in f.per_row}
            watch = Watch(ctx, data=data, ancil=anc)
            ens.update_objdata(data, anc)
        else:
            watch = Watch(ctx, data=data, ancil=anc)
            if how == "create":
                ens = qp.create(f.cls, data)
                ens.set_ancil(anc)
            elif how == "registered":
                ens = qp.Ensemble(cls.create, data=data, ancil=anc)
            else:
                ens = qp.Ensemble(getattr(qp.stats, f.cls), data=data, ancil=anc)
    watch.look(msg)
    use(ens, f)
    watch.look(msg + ", after evaluations")
    extra["more"] = np.arange(f.npdf) * 0.5
    more = Watch(ctx, added=extra)
    ens.add_to_ancil(extra)
    watch.look(msg + ", after adding a column")
    ens.build_tables()
    ens.append(ens)
    watch.look(msg + ", after appending")
    more.look(msg + ", after appending")
    ctx.step(3)


XV = np.array([0.0, 0.5, 1.0, 1.5, 2.0])


def constructors(ctx):
    """the other ways to make an ensemble, from values or samples"""
    n = ctx.choose("npdf", [1, 2, 3])
    what = ctx.choose("constructor", ["spline_xy", "spline_samples", "build_normed", "build_splines", "normalize_spline", "kdes", "pad", "hist_range", "freeze"])
    x = np.array([XV + 0.25 * i for i in range(n)])
    y = np.array([[fix.num(i, j) for j in range(5)] for i in range(n)])
    s = np.array([[fix.num(i, j) + 0.01 * j for j in range(12)] for i in range(n)])
    q = np.array(fix.QUANTS[1:-1])
    l = np.array([np.cumsum([0.25 * i + 0.125 + 0.25 * fix.num(i, j, 4) for j in range(len(q))]) for i in range(n)])
    kw = dict(xvals=x, yvals=y)
    kws = dict(xvals=XV, samples=s)
    watch = Watch(ctx, x=x, y=y, samples=s, levels=q, locations=l, data=kw, data_samples=kws, grid=XV)
    ctx.state(what, n)
    ctx.step()
    pts = np.array([0.25, 0.5, 1.5])
    if what == "spline_xy":
        use_ens = qp.Ensemble(qp.spline_from_xy, data=kw) if n > 1 else qp.create("spline", kw, "xy")
        use_ens.pdf(pts)
        use_ens.cdf(pts)
    elif what == "spline_samples":
        use_ens = qp.create("spline", kws, "samples")
        use_ens.pdf(pts)
    elif what == "build_normed":
        spoil(qp.spline_gen.build_normed_splines(x, y))
    elif what == "build_splines":
        spoil(build_splines(x, y))
    elif what == "normalize_spline":
        spoil(normalize_spline(x, y, limits=(0.0, 2.0)))
    elif what == "kdes":
        spoil(qu.evaluate_kdes(XV, qu.build_kdes(s)))
    elif what == "pad":
        pad_quantiles(q, l)
        spoil(pad_quantiles(q, l))
    elif what == "hist_range":
        spoil(qu.normalize_interp1d(x, y))
        spoil(qu.normalize_interp1d(XV, y))
    else:
        for kind in ("piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"):
            q2, l2 = pad_quantiles(q, l)
            both = Watch(ctx, levels=q2, locations=l2, grid=pts)
            con = {"piecewise_linear": qc.PiecewiseLinear, "piecewise_constant": qc.PiecewiseConstant, "cdf_spline_derivative": qc.CdfSplineDerivative, "dual_spline_average": qc.DualSplineAverage}[kind](q2, l2)
            with np.errstate(all="ignore"):
                spoil(con.construct_pdf(pts, np.arange(n).reshape(-1, 1)))
            both.look(kind)
    watch.look("%s with %i PDFs" % (what, n))


def evaluations(f):
    """(name, arguments, call)"""
    xs = f.inside() if f.cls == "spline" else f.xs
    qs = [q for q in f.qs if 0 < q < 1]
    two = np.array([xs[1:4]] * f.npdf)
    out = []
    kinds = ["pdf", "cdf", "sf", "logpdf", "logcdf", "logsf"] + ([] if f.cls == "spline" else ["ppf", "isf"])
    for k in kinds:
        pts = qs if k in ("ppf", "isf") else list(xs)
        if len(pts) == f.npdf:
            pts = pts[:-1] if len(pts) > 1 else pts
        out.append((k, np.array(pts), lambda e, a, k=k: getattr(e, k)(a)))
        out.append((k + " of a list", list(pts), lambda e, a, k=k: getattr(e, k)(a)))
        rows2 = np.array([qs[:2]] * f.npdf) if k in ("ppf", "isf") else two.copy()
        out.append((k + " of a row per PDF", rows2, lambda e, a, k=k: getattr(e, k)(a)))
        out.append((k + " of whole numbers", np.array([1, 0, 2]) if k not in ("ppf", "isf") else np.array([0, 1]), lambda e, a, k=k: getattr(e, k)(a)))
    grid = np.array(sorted(xs))
    out.append(("mode", grid, lambda e, a: e.mode(a)))
    out.append(("histogramize", grid, lambda e, a: e.histogramize(a)[1]))
    out.append(("integrate", [np.array([xs[1]]), np.array([xs[-2]])], lambda e, a: e.integrate(a)))
    out.append(("integrate to a number", (xs[1], xs[-2]), lambda e, a: e.integrate(a)))
    out.append(("moment_partial", [xs[1], xs[-2]], lambda e, a: e.moment_partial(1, a, 0.125)))
    out.append(("rvs", [3], lambda e, a: e.rvs(size=a[0], random_state=7)))
    if f.cls not in ("quant", "spline"):
        for k in ("mean", "var", "std", "median"):
            if f.cls not in SLOW or k == "median" or (f.name == "irreg" and f.npdf == 1):
                out.append((k, [], lambda e, a, k=k: getattr(e, k)()))
        out.append(("interval", np.array([0.5]), lambda e, a: e.interval(a)))
        if f.cls not in SLOW:
            out.append(("moment", [2], lambda e, a: e.moment(a[0])))
            out.append(("stats", ["mv"], lambda e, a: e.stats(moments=a[0])))
    if f.cls == "spline":
        out = [o for o in out if o[0] != "rvs"]
    return out


def evaluate(ctx):
    """points and ensembles stay as they are, and what an evaluation returns belongs to the caller"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    used = ctx.flag("used before")
    part = ctx.choose("part", range(4))
    rows = list(range(f.npdf))
    for name, args, call in evaluations(f)[part::4]:
        ens = obs.build(f, rows, obs.ancil(rows))
        if used:
            use(ens, f)
        watch = Watch(ctx, arguments=args, ensemble=ens)
        ctx.state(f.name, f.npdf, used, name)
        msg = "%s of %s (%i PDFs)" % (name, f.name, f.npdf)
        with np.errstate(all="ignore"):
            if name.endswith("whole numbers") and raises(call, ens, args) is not None:
                ctx.fail("%s: %r" % (msg, raises(call, ens, args)))
            res = call(ens, args)
            ctx.step()
            watch.look(msg)
            first = keep(res)
            if spoil(res):
                watch.look(msg + ", after overwriting the result")
                again = call(ens, args)
                ctx.step()
                equal(ctx, again, first, msg + ", after overwriting the first result")
        # the argument can be reused and changed by its owner
        if isinstance(args, np.ndarray):
            with np.errstate(all="ignore"):
                spoil(args)
                watch2 = obs.observe(ens, f, obs_kinds(f))
                obs.compare(ctx, watch2, obs.fresh(f, rows, obs_kinds(f)), msg + ", after overwriting the argument", ancil_=obs.ancil(rows))


def grids(ctx):
    """gridded copies its grid: changing the grid in place asks for new values"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    rows = list(range(f.npdf))
    ens = obs.build(f, rows)
    xs = f.inside()
    grid = np.array([xs[1], xs[2], xs[-2]])
    other = [xs[2], xs[-2], xs[-1]]
    watch = Watch(ctx, grid=grid, ensemble=ens)
    op = ctx.choose("operation", ["gridded", "mode"])
    get = (lambda: np.array(ens.gridded(grid)[1])) if op == "gridded" else (lambda: np.array(ens.mode(grid)))
    new = obs.build(f, rows)
    get2 = (lambda: np.array(new.gridded(np.array(other))[1])) if op == "gridded" else (lambda: np.array(new.mode(np.array(other))))
    ctx.state(f.name, f.npdf, op)
    with np.errstate(all="ignore"):
        get()
        watch.look("%s of %s" % (op, f.name))
        grid[...] = other
        same(ctx, get(), get2(), "%s of %s after the grid was changed in place" % (op, f.name), 1e-12, 0)
    ctx.step(3)


TARGETS = [
    ("interp", dict(xvals=np.array([-0.5, 0.0, 0.75, 1.5, 3.0]))),
    ("interp_irregular", dict(xvals=np.array([0.0, 0.75, 1.5, 3.0]))),
    ("hist", dict(bins=np.array([-1.0, 0.25, 1.0, 1.5, 3.0]))),
    ("hist", dict(method="samples", bins=np.array([-1.0, 0.25, 1.0, 1.5, 3.0]), size=20)),
    ("quant", dict(quants=np.array([0.1, 0.3, 0.5, 0.75, 0.9]))),
    ("quant", dict(quants=np.array([0.9, 0.3, 0.5, 0.1, 0.75]))),
    ("interp", dict(xvals=np.array([3.0, -0.5, 0.75, 0.0, 1.5]))),
    ("spline", dict(method="xy", xvals=np.array([0.0, 0.4, 0.75, 1.1, 1.5, 2.0, 2.5, 3.0]))),
    ("spline", dict(method="samples", xvals=np.array([0.0, 0.4, 0.75, 1.1, 1.5, 2.0]), samples=40)),
    ("mixmod", dict(ncomps=1, nsamples=30)),
    ("packed_interp", dict(xvals=np.array([-0.5, 0.0, 0.75, 1.5, 3.0]), packing_type=qp.PackingType.linear_from_rowmax)),
    ("packed_interp", dict(xvals=np.array([-0.5, 0.0, 0.75, 1.5, 3.0]), packing_type=qp.PackingType.log_from_rowmax, log_floor=-3.0)),
    ("sparse", dict(nvals=20)),
]


def conversions(ctx):
    """source and keywords stay, the result is independent"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2]))
    target, kwds = ctx.choose("target", TARGETS)
    by = ctx.choose("by", ["convert", "convert_to", "extract"])
    if f.cls == "spline" and (target in ("quant", "mixmod", "hist") or kwds.get("method") == "samples"):
        return
    if target == "sparse" and f.cls != "interp":
        return  # made from gridded values
    rows = list(range(f.npdf))
    src = obs.build(f, rows, obs.ancil(rows))
    kwds = dict(kwds)
    watch = Watch(ctx, keywords=kwds, ensemble=src)
    msg = "%s to %s %s by %s" % (f.name, target, kwds.get("method"), by)
    ctx.state(f.name, f.npdf, target, kwds.get("method"), by, str(kwds.get("packing_type")))
    cls = qp.instance()[target]
    np.random.seed(3)
    with np.errstate(all="ignore"):
        unsorted = any(isinstance(v, np.ndarray) and np.any(np.diff(v) < 0) for v in kwds.values())
        if by == "extract" or unsorted:
            method = kwds.get("method")
            data = cls.extraction_method(method)(src, **{k: v for k, v in kwds.items() if k != "method"})
            ctx.step()
            watch.look(msg)
            if unsorted:
                return
            mine = Watch(ctx, extracted=data)
            qp.create(target, data, method)
            mine.look(msg)
            watch.look(msg)
            return
        out = qp.convert(src, target, **kwds) if by == "convert" else src.convert_to(cls, **kwds)
        ctx.step()
        watch.look(msg)
        # the new ensemble and its data belong to the caller
        out.pdf(np.array([0.25, 0.5]))
        out.set_ancil(dict(z=np.arange(f.npdf)))
        out.append(out)
        watch.look(msg + ", after using the result")
        for k, v in out.objdata().items():
            spoil(v)
        watch.look(msg + ", after overwriting the data of the result")
    got = obs.observe(src, f, obs_kinds(f))
    obs.compare(ctx, got, obs.fresh(f, rows, obs_kinds(f)), msg + ": the source", ancil_=obs.ancil(rows))


DERIVE = ["slice", "all", "array", "integer", "concatenate", "concatenate one", "tables", "update same data", "same data", "copy of tables", "append to it", "file"]
CHANGE = ["add_to_ancil", "overwrite column", "set_ancil", "append", "append source", "update", "update_objdata", "gridded", "evaluate", "select", "switch", "convert"]


def derived(ctx):
    """changing an ensemble made from another one, or the other one, leaves its partner alone"""
    f = fix.make(ctx.choose("representation", fix.ALL if ctx.thorough else fix.CORE + ["quant_dsa"]), 3)
    how = ctx.choose("derived by", DERIVE)
    changes = ctx.choose("changes", [(a,) for a in CHANGE] + (list(itertools.product(CHANGE, CHANGE)) if ctx.thorough else []))
    change_source = ctx.flag("change the source")
    src = obs.build(f, [0, 1, 2], obs.ancil([0, 1, 2]))
    rows = [0, 1, 2]
    ctx.step()
    if how == "slice":
        rows, new = [0, 1], src[0:2]
    elif how == "all":
        new = src[:]
    elif how == "array":
        idx = np.array([2, 0])
        rows, new = [2, 0], src[idx]
        ctx.check(idx.tolist() == [2, 0], "the index changed")
    elif how == "integer":
        rows, new = [1], src[1]
    elif how == "concatenate":
        parts = [src, src]
        rows, new = [0, 1, 2, 0, 1, 2], qp.concatenate(parts)
        ctx.check(len(parts) == 2 and parts[0] is src and parts[1] is src, "the list of ensembles changed")
    elif how == "concatenate one":
        new = qp.concatenate([src])
    elif how == "tables":
        new = qp.from_tables(src.build_tables())
    elif how == "copy of tables":
        tables = src.build_tables()
        new = qp.from_tables(tables)
        again = Watch(ctx, tables=tables)
        new.add_to_ancil(dict(z=np.zeros(3)))
        again.look("tables of %s" % f.name)
        new = qp.from_tables(tables)
    elif how == "update same data":
        new = obs.build(f, [1], obs.ancil([1]))
        new.update_objdata(src.objdata(), src.ancil)
    elif how == "same data":
        data, anc = obs.raw(f, rows), obs.ancil(rows)
        cls = qp.instance()[f.cls]
        src, new = qp.Ensemble(cls.create, data=data, ancil=anc), qp.Ensemble(cls.create, data=data, ancil=anc)
    elif how == "append to it":
        rows, new = [1, 0, 1, 2], obs.build(f, [1], obs.ancil([1]))
        new.append(src)
    else:
        path = os.path.join(os.environ["QPMC_SCRATCH"], "d%i.hdf5" % os.getpid())
        src.write_to(path)
        new = qp.read(path)
        os.unlink(path)
    for change in changes:
        a, ra, b = (src, [0, 1, 2], new) if change_source else (new, rows, src)
        rb = rows if change_source else [0, 1, 2]
        before = obs.frozen_state(b)
        values = obs.values(b, f, obs_kinds(f))
        n = len(ra)
        if a.npdf != n:
            n = int(a.npdf)
        with np.errstate(all="ignore"):
            if change == "add_to_ancil":
                a.add_to_ancil(dict(new=np.arange(n)))
            elif change == "overwrite column":
                a.add_to_ancil(dict(z=np.zeros(n)))
            elif change == "set_ancil":
                a.set_ancil(None)
            elif change == "append":
                a.append(obs.build(f, [2], obs.ancil([2])))
            elif change == "append source":
                a.append(b)
            elif change == "update":
                a.update(obs.raw(f, [2, 1]), obs.ancil([2, 1]))
            elif change == "update_objdata":
                a.update_objdata({k: v[::-1].copy() for k, v in a.objdata().items()})
            elif change == "gridded":
                a.gridded(np.array([0.25, 0.5]))
                b.gridded(np.array([0.25, 0.75]))
            elif change == "evaluate":
                use(a, f)
            elif change == "select":
                a[0:1].set_ancil(None)
            elif change == "convert":
                a.convert_to(qp.interp_gen, xvals=np.array([0.0, 0.5, 1.0]))
            elif change == "switch":
                if f.cls != "quant":
                    continue
                a.dist.pdf_constructor_name = "piecewise_constant"
        ctx.step()
        ctx.state(f.name, how, changes, change_source, change)
        msg = "%s, %s: %s of the %s changes the %s" % (f.name, how, change, *(("source", "new ensemble") if change_source else ("new ensemble", "source")))
        after = obs.frozen_state(b)
        ctx.check(before == after, lambda: msg + " (%s)" % [k for k in before if before[k] != after[k]])
        now = obs.values(b, f, obs_kinds(f))
        for k in values:
            same(ctx, now[k], values[k], msg + ": " + k, 1e-12, 0)
        obs.compare(ctx, obs.observe(b, f, ("pdf",)), obs.fresh(f, rb, ("pdf",)), msg, ancil_=obs.ancil(rb)) if len(changes) == 1 else None


def files(ctx):
    """writing and reading change neither the ensembles nor the files that are read"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 3]))
    op = ctx.choose("operation", ["write hdf5", "write fits", "write pq", "chunks", "write_dict", "read"])
    rows = list(range(f.npdf))
    anc = obs.ancil(rows)
    if op == "write pq":
        anc.pop("s")
    ens = obs.build(f, rows, anc)
    Watch.count = getattr(Watch, "count", 0) + 1
    d = os.path.join(os.environ["QPMC_SCRATCH"], "c20-%i-%i" % (os.getpid(), Watch.count))
    os.makedirs(d)
    ctx.state(f.name, f.npdf, op)
    try:
        watch = Watch(ctx, ensemble=ens, ancil=anc)
        tables = ens.build_tables()
        third = Watch(ctx, tables=tables)
        if op.startswith("write "):
            ens.write_to(os.path.join(d, "a." + op[6:]))
        elif op == "chunks":
            for size in (f.npdf, 2 * f.npdf):
                path = os.path.join(d, "c%i.hdf5" % size)
                group, fout = ens.initializeHdf5Write(path, size)
                watch.look("initializeHdf5Write")
                for k in range(size // f.npdf):
                    ens.writeHdf5Chunk(group, k * f.npdf, (k + 1) * f.npdf)
                    watch.look("writeHdf5Chunk")
                ens.finalizeHdf5Write(fout)
        elif op == "write_dict":
            many = dict(one=ens, two=ens)
            qp.write_dict(os.path.join(d, "d.hdf5"), many)
            ctx.check(list(many) == ["one", "two"] and all(v is ens for v in many.values()), "the dictionary changed")
        else:
            path = os.path.join(d, "r.hdf5")
            ens.write_to(path)
            with open(path, "rb") as fp:
                content = fp.read()
            for fn in (qp.read, qp.read_metadata, qp.is_qp_file, qp.data_length):
                fn(path)
                with open(path, "rb") as fp:
                    ctx.check(fp.read() == content, "%s changes the file" % fn.__name__)
                ctx.check(sorted(os.listdir(d)) == ["r.hdf5"], "%s makes files" % fn.__name__)
            for _, _, chunk in qp.iterator(path, chunk_size=2):
                chunk.pdf(0.5)
                chunk.add_to_ancil(dict(z=np.zeros(chunk.npdf)))
                chunk.append(chunk)
            with open(path, "rb") as fp:
                ctx.check(fp.read() == content, "the iterator changes the file")
            one = qp.read(path)
            one.append(one)
            one.add_to_ancil(dict(z=np.zeros(one.npdf)))
            with open(path, "rb") as fp:
                ctx.check(fp.read() == content, "an ensemble that was read changes the file")
        ctx.step()
        watch.look("%s of %s" % (op, f.name))
        third.look("%s of %s" % (op, f.name))
    finally:
        shutil.rmtree(d)
    obs.compare(ctx, obs.observe(ens, f, obs_kinds(f)), obs.fresh(f, rows, obs_kinds(f)), "%s of %s" % (op, f.name), ancil_=anc)


def metrics(ctx):
    """estimates, references and truths stay as they are"""
    f = fix.make(ctx.choose("representation", [n for n in fix.ALL if n != "spline"]), ctx.choose("npdf", [1, 3]))
    n = f.npdf
    rows = list(range(n))
    p, q = obs.build(f, rows, obs.ancil(rows)), obs.build(f, rows[::-1])
    pts = sorted(f.inside())
    truth = np.array([pts[(2 * i + 1) % len(pts)] for i in rows])
    limits = (pts[0], pts[-1] + 0.5)
    grid = np.linspace(0.0, 1.0, 5)
    lim = list(limits)
    other = fix.make("norm", 1).ens()
    items = dict(
        moment=lambda: mm.calculate_moment(p, 1, limits, 0.125),
        kld=lambda: mm.calculate_kld(p, q, limits, 0.125),
        rmse=lambda: mm.calculate_rmse(p, q, limits, 0.125),
        rbpe=lambda: mm.calculate_rbpe(p, limits) if n == 1 else None,
        brier=lambda: mm.calculate_brier(p, truth, limits, 0.125),
        brier_acc=lambda: mm.calculate_brier_for_accumulation(p, truth, limits, 0.125),
        outlier=lambda: mm.calculate_outlier_rate(p, *limits),
        ad=lambda: mm.calculate_anderson_darling(p, other if n == 1 else fix.make("norm", n).ens(), num_samples=5, _random_state=1),
        ks=lambda: mm.calculate_kolmogorov_smirnov(p, other if n == 1 else fix.make("norm", n).ens(), num_samples=5, _random_state=1),
        cvm=lambda: mm.calculate_cramer_von_mises(p, other if n == 1 else fix.make("norm", n).ens(), num_samples=5, _random_state=1),
        pit=lambda: PIT(p, truth, grid),
        pitmetric=lambda: cm.PITMetric(eval_grid=grid).evaluate(p, truth),
        cde=lambda: cm.CDELossMetric(eval_grid=np.linspace(0.0, 2.0, 9)).evaluate(p, truth),
        momentmetric=lambda: cm.MomentMetric(2, lim, 0.125).evaluate(p),
        briermetric=lambda: cm.BrierMetric(lim, 0.125).evaluate(p, truth),
        acc_pit=lambda: acc(cm.PITMetric(eval_grid=grid)),
        acc_cde=lambda: acc(cm.CDELossMetric(eval_grid=np.linspace(0.0, 2.0, 9))),
        acc_brier=lambda: acc(cm.BrierMetric(lim, 0.125)),
    )

    def acc(metric):
        metric.initialize()
        parts = [metric.accumulate(p, truth), metric.accumulate(p, truth)]
        mine = Watch(ctx, parts=[repr(x) if not isinstance(x, (np.ndarray, tuple, list)) else x for x in parts])
        try:
            metric.finalize(parts)
        except (ValueError, IndexError):
            pass
        mine.look("finalize")

    name = ctx.choose("metric", sorted(items))
    watch = Watch(ctx, estimate=p, reference=q, truth=truth, grid=grid, limits=lim, other=other)
    ctx.state(f.name, n, name)
    ctx.step()
    with np.errstate(all="ignore"):
        try:
            res = items[name]()
        except (ValueError, IndexError):
            if name not in ("pit", "pitmetric", "acc_pit"):
                raise
            res = None  # fewer than two different values
    watch.look("%s of %s" % (name, f.name))
    if isinstance(res, np.ndarray) and spoil(res):
        watch.look("%s of %s, after overwriting the result" % (name, f.name))
    obs.compare(ctx, obs.observe(p, f), obs.fresh(f, rows), "%s of %s" % (name, f.name), ancil_=obs.ancil(rows))


def points(ctx):
    """point metrics, with arrays and lists"""
    name = ctx.choose("metric", ["ez", "iqr", "bias", "outlier", "mad"])
    n = ctx.choose("n", [1, 2, 3, 5, 6])
    e = np.array([0.5, 0.1, 1.25, 0.0, 5.0, 0.3][:n])
    t = np.array([0.45, 0.2, 1.0, 0.0, 0.25, 0.35][:n])
    m = dict(ez=pm.PointStatsEz, iqr=pm.PointSigmaIQR, bias=pm.PointBias, outlier=pm.PointOutlierRate, mad=pm.PointSigmaMAD)[name]()
    watch = Watch(ctx, estimate=e, reference=t)
    ctx.state(name, n)
    with np.errstate(all="ignore"):
        res = m.evaluate(e, t)
        ctx.step()
        watch.look(name)
        if isinstance(res, np.ndarray):
            spoil(res)
            watch.look(name)
        if name != "ez":
            m.initialize()
            a, b = m.accumulate(e, t), m.accumulate(t, e)
            watch.look(name + " accumulate")
            parts = [a, b]
            m.finalize(parts)
            ctx.check(len(parts) == 2 and parts[0] is a and parts[1] is b, "the list of partial results changed")
            watch.look(name + " finalize")
            one = m.finalize(parts)
            ctx.check(one == m.finalize([a, b]), "%s: finalising twice gives another result" % name)
            ctx.step(5)


def functions(ctx):
    """the other public functions"""
    y = np.array([[0.0, 1.0, 0.5, 0.25], [2.0, 0.0, 1.0, 3.0]])
    y1 = np.array([0.0, 1.0, 0.5, 0.25])
    x = np.array([0.0, 0.5, 1.0, 2.0])
    xx = np.array([[0.0, 0.5, 1.0, 2.0], [0.5, 1.0, 1.5, 3.0]])
    packed = np.array([[0, 255, 128, 1], [255, 0, 4, 17]], dtype=np.uint8)
    mx = np.array([[2.0], [0.5]])
    codes = np.array([[(32000 << 16) | 3, (100 << 16) | 2], [(32000 << 16) | 1, (7 << 16) | 4]])
    xi = np.array([0.25, 0.75, 1.5])
    row = np.array([[0], [1]])
    basis = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.6, 0.8]]).T.copy()
    vec = np.array([0.5, 0.25, 0.125])
    d1, d2 = dict(a=np.array([1.0, 2.0]), b=np.array([[1], [2]])), dict(a=np.array([3.0]), b=np.array([[5]]))
    meta = dict(xvals=np.linspace(0, 2, 9), mu=[0.0, 2.0], sig=[0.1, 0.5], dims=[3, 2, 2, 32001, 2], z=np.linspace(0, 2, 9))
    dicts = [d1, d2]
    samples = np.array([0.25, 0.5, 0.75, 1.25, 0.3, 1.9])
    pdfs = np.array([[0.0, 0.5, 1.0, 0.5, 0.0, 0.0, 0.0, 0.0, 0.0], [0.0, 0.0, 0.25, 1.0, 1.0, 0.25, 0.0, 0.0, 0.0]])
    pred, truth = np.array([[0.5, 0.5, 0.0], [0.25, 0.25, 0.5]]), np.array([[1, 0, 0], [0, 0, 1]])
    watch = Watch(ctx, y=y, y1=y1, x=x, xx=xx, packed=packed, maxima=mx, codes=codes, points=xi, rows=row, basis=basis, vector=vec, first=d1, second=d2, metadata=meta, samples=samples, pdfs=pdfs, prediction=pred, truth=truth)
    items = dict(
        safelog=lambda: qu.safelog(y),
        edge_to_center=lambda: qu.edge_to_center(x),
        bin_widths=lambda: qu.bin_widths(x),
        bins=lambda: qu.get_bin_indices(x, xi),
        bins_even=lambda: qu.get_bin_indices(x[:3], xi),
        normalize=lambda: qu.normalize_interp1d(xx, y),
        normalize1=lambda: qu.normalize_interp1d(x, y),
        case=lambda: qu.get_eval_case(xi, row)[0],
        hist=lambda: qu.evaluate_hist_x_multi_y(xi, row, x, y[:, :3]),
        hist_d=lambda: qu.evaluate_hist_x_multi_y(xi, row, x, y[:, :3], y[:, 1:]),
        hist2=lambda: qu.evaluate_hist_multi_x_multi_y(xi, row, xx, y[:, :3]),
        inter=lambda: qu.interpolate_x_multi_y(xi, row, x, y, bounds_error=False, fill_value=0.0),
        inter2=lambda: qu.interpolate_multi_x_multi_y(xi, row, xx, y, bounds_error=False, fill_value=0.0),
        inter3=lambda: qu.interpolate_multi_x_y(xi, row, xx, y1, bounds_error=False, fill_value=0.0),
        profile=lambda: qu.profile(samples, samples * 2, x),
        profile2=lambda: qu.profile(samples, samples * 2, x, std=False),
        pack=lambda: pu.linear_pack_from_rowmax(y),
        unpack=lambda: pu.linear_unpack_from_rowmax(packed, mx),
        logpack=lambda: pu.log_pack_from_rowmax(y, -3.0),
        logunpack=lambda: pu.log_unpack_from_rowmax(packed, mx, -3.0),
        pack_array=lambda: [pu.pack_array(t, y) for t in qp.PackingType],
        unpack_array=lambda: [pu.unpack_array(t, packed, row_max=mx) for t in qp.PackingType],
        decode=lambda: sr.decode_sparse_indices(codes),
        omp=lambda: sr.sparse_basis(basis, vec, 2),
        voigt=lambda: sr.create_voigt_basis(x, meta["mu"], 3, meta["sig"], 2, 2),
        create=lambda: sr.create_basis(meta),
        shapes=lambda: sr.indices2shapes(codes, meta),
        sparse=lambda: sr.build_sparse_representation(meta["z"], pdfs, mu=meta["mu"], Nmu=3, sig=meta["sig"], Nsig=2, Nv=2, Nsparse=2, verbose=False),
        from_sparse=lambda: sr.pdf_from_sparse(codes, sr.create_voigt_basis(x, meta["mu"], 3, meta["sig"], 2, 2), x),
        slice1=lambda: list(du.slice_dict(d1, 1).values()),
        slice2=lambda: list(du.slice_dict(d1, np.array([1, 0])).values()),
        cat=lambda: list(du.concatenate_dicts(dicts).values()),
        compare=lambda: du.compare_dicts([d1, d1]),
        compare2=lambda: raises(du.compare_dicts, dicts) and None,
        keys=lambda: du.check_keys(dicts),
        shapes_ok=lambda: du.check_array_shapes(d1, 2),
        shapes_bad=lambda: raises(du.check_array_shapes, d1, 3) and None,
        printed=lambda: du.pretty_print(dict(a=d1, b=3), ["A", "B"]),
        print_shape=lambda: du.print_dict_shape(d1),
        default=lambda: du.get_val_or_default({None: 3, "a": 4}, "b"),
        kld=lambda: am.quick_kld(pdfs, pdfs[::-1], 0.1),
        moment=lambda: am.quick_moment(pdfs, meta["z"], 0.1),
        rmse=lambda: am.quick_rmse(pdfs, pdfs[::-1], 9),
        ad=lambda: am.quick_anderson_ksamp(samples, samples * 1.5),
        brier=lambda: Brier(pred, truth).evaluate(),
        brier_acc=lambda: Brier(pred, truth).accumulate(),
    )
    name = ctx.choose("function", sorted(items))
    ctx.state(name)
    with np.errstate(all="ignore"):
        res = items[name]()
        ctx.step()
        watch.look(name)
        first = keep(res)
        if name not in ("slice1", "slice2", "bins", "case"):
            if spoil(res):
                watch.look(name + ", after overwriting the result")
            again = items[name]()
            if first is not None and isinstance(first, (np.ndarray, list)) and not (isinstance(first, list) and any(not isinstance(v, np.ndarray) for v in first)):
                equal(ctx, again, first, name + ", repeated")
    ctx.step()


def plots(ctx):
    """plotting only reads"""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    f = fix.make(ctx.choose("representation", [n for n in fix.CORE if n != "spline"] + ["spline"]), 2)
    op = ctx.choose("operation", ["plot", "plot_native", "function", "native function"])
    ens = obs.build(f, [0, 1], obs.ancil([0, 1]))
    kwds = dict(xlim=(0.0, 2.0))
    if op in ("plot", "function"):
        kwds["npts"] = 11
    watch = Watch(ctx, ensemble=ens, keywords=kwds)
    ctx.state(f.name, op)
    try:
        if op == "plot":
            ens.plot(1, **kwds)
        elif op == "plot_native":
            ens.plot_native(1, **kwds)
        elif op == "function":
            qp.plotting.plot(ens[1], **kwds)
        else:
            qp.plotting.plot_native(ens[1], **kwds)
        ctx.step()
    finally:
        plt.close("all")
    watch.look("%s of %s" % (op, f.name))
    obs.compare(ctx, obs.observe(ens, f, ("pdf", "cdf")), obs.fresh(f, [0, 1], ("pdf", "cdf")), "%s of %s" % (op, f.name), ancil_=obs.ancil([0, 1]))


HARNESSES = {
    "construct": construct,
    "constructors": constructors,
    "evaluate": evaluate,
    "grids": grids,
    "conversions": conversions,
    "derived": derived,
    "files": files,
    "metrics": metrics,
    "points": points,
    "functions": functions,
    "plots": plots,
}
BOUNDS = {
    "quick": "1-3 PDFs; every operation alone, and every way to derive an ensemble followed by every way to change one of the two",
    "thorough": "as quick, all representations and all pairs of changes",
}
ASSUMPTIONS = ["The arrays returned by gridded, metadata, objdata and build_tables are the stored ones and only for reading; an ensemble keeps references to the arrays it is made of, their owner does not write into them."]
