"""C26: contradictory inputs are refused and leave no trace; consistent inputs are accepted

Oracle: for each kind of input the rule of the documentation as a predicate over shapes and keys (numpy's rule of
broadcasting for arguments); the ensemble before the rejected call.
Explored: all tuples of shapes of the constructor data of each class, all subsets of keywords, all shapes of arguments up
to three dimensions, all lengths of ancillary columns, signs of weights, sizes of the ensembles compared by a metric.
"""

import itertools
import logging
import os

import numpy as np
import qp
from mc import fix, obs
from mc.util import exact, raises, same
from qp import packing_utils
from qp.metrics import metrics as mm

PROPERTY = "C26"
LEVEL = "model_checking"

SHAPES = [(2,), (3,), (4,), (1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (3, 4), (2, 1, 3), (2, 2, 3), (2, 2, 4)]
MORE = [(5,), (1, 5), (2, 5), (4, 3), (4, 4), (1, 1, 4), (2, 3, 3), (3, 2, 2), (1, 2, 3), (2, 1, 2, 3)]


def rising(shape):
    return np.cumsum(np.full(shape, 0.5), axis=-1)


def positive(shape):
    n = int(np.prod(shape))
    return (1.0 + (np.arange(n) % 3)).reshape(shape)


def knots(shape):
    return np.full(tuple(shape[:-1]) + (1,) if len(shape) > 1 else (1,), 1)


# class, arrays (name, maker), which tuples of shapes belong together
CASES = dict(
    hist=("hist", [("bins", rising), ("pdfs", positive)], lambda b, p: None if len(b) > 1 else b[0] == p[-1] + 1),
    interp=("interp", [("xvals", rising), ("yvals", positive)], lambda x, y: None if len(x) > 1 else x[0] == y[-1]),
    irregular=("interp_irregular", [("xvals", rising), ("yvals", positive)], lambda x, y: x == y),
    quant=("quant", [("quants", lambda s: (np.arange(s[-1]) + 1.0) / (s[-1] + 1.0)), ("locs", rising)], lambda q, l: None if len(q) > 1 else q[0] == l[-1]),
    packed=("packed_interp", [("xvals", rising), ("ypacked", lambda s: np.full(s, 200, np.uint8))], lambda x, y: None if len(x) > 1 else x[0] == y[-1]),
    xy=("spline", [("xvals", rising), ("yvals", positive)], lambda x, y: x == y),
    splines=("spline", [("splx", rising), ("sply", positive)], lambda x, y: x == y),
    mixmod=(
        "mixmod",
        [("means", rising), ("stds", positive), ("weights", positive)],
        lambda m, s, w: True if m == s == w else None,
    ),
)


def build(case, data, route):
    cls = CASES[case][0]
    if case == "xy":
        make = qp.spline_from_xy
    elif case == "splines":
        make, data = qp.spline, dict(data, spln=knots(np.shape(data["splx"])))
    elif case == "packed":
        lead = np.shape(data["ypacked"])[:-1]
        make, data = qp.packed_interp, dict(data, ymax=np.ones(lead + (1,) if lead else (1,)))
    else:
        make = getattr(qp, cls)
    if route == "Ensemble":
        return qp.Ensemble(make, data=data)
    if route == "create":
        return qp.create(cls, data, method="xy" if case == "xy" else None)
    return qp.Ensemble(make, data=dict(data, check_input=False))


def shapes(ctx):
    """arrays that do not belong together are refused, those that do are accepted"""
    case = ctx.choose("class", list(CASES))
    _, arrays, rule = CASES[case]
    pool = SHAPES + (MORE if ctx.thorough else [])
    if case == "mixmod":
        pool = [s for s in pool if s[-1] in (2, 3)]
    picked = [tuple(ctx.choose(name, pool)) for name, _ in arrays[:-1]]
    unchecked = case in ("hist", "interp", "irregular", "quant")
    for route in ["Ensemble", "create"] + (["unchecked"] if unchecked else []):
        for last in pool:
            both = picked + [tuple(last)]
            ok = rule(*both)
            if ok is None:
                continue
            data = {name: maker(s) for (name, maker), s in zip(arrays, both)}
            if case in ("xy", "splines") and last[-1] < 4:
                ok = None if ok else False  # cubic splines need four points
            if case == "xy" and len(last) != 2:
                continue
            if case == "quant" and last[-1] < 3:
                ok = None if ok else False
            if ok is None:
                continue
            msg = "%s (%s) of %s" % (case, route, ", ".join("%s %s" % (k, np.shape(v)) for k, v in data.items()))
            err = raises(build, case, data, route)
            ctx.step()
            ctx.traced()
            if not ok:
                ctx.check(err is not None, "%s: accepted" % msg)
                continue
            ctx.check(err is None, "%s: %r" % (msg, err))
            ens = build(case, data, route)
            want = last[:-1]
            ctx.check(ens.npdf == int(np.prod(want)) and tuple(ens.shape) == want, "%s: npdf %s, shape %s" % (msg, ens.npdf, ens.shape))
            if len(want) < 2:
                got = ens.pdf(np.array([0.75, 0.9]))
                ctx.check(np.shape(got) == want + (2,) and np.all(np.isfinite(got)), "%s: pdf %s" % (msg, got))
    ctx.state((case, tuple(picked)))


REQUIRED = dict(hist_u=["bins", "pdfs"], interp_n=["xvals", "yvals"], irreg=["xvals", "yvals"], mixmod=["means", "stds", "weights"], quant_pl=["quants", "locs"], packed_lin=["xvals", "ypacked", "ymax"], packed_log=["xvals", "ypacked", "ymax"], spline=["splx", "sply", "spln"], sparse=["xvals", "mu", "sig", "dims", "sparse_indices"])


def keywords(ctx):
    """all subsets of the keywords: exactly those with the required ones are accepted, unknown ones never"""
    name = ctx.choose("representation", list(REQUIRED))
    n = ctx.choose("npdf", [1, 2, 3])
    f = fix.make(name, n)
    cls = getattr(qp, f.cls)
    held = obs.build(f, range(n), obs.ancil(range(n)))
    before = obs.frozen_state(held)
    for keys in [c for k in range(len(f.data) + 1) for c in itertools.combinations(f.data, k)]:
        data = {k: f.data[k] for k in keys}
        ok = set(REQUIRED[name]) <= set(keys)
        msg = "%s from %s" % (name, list(keys))
        for what, call in (
            ("Ensemble", lambda d: qp.Ensemble(cls, data=d)),
            ("create", lambda d: qp.create(f.cls, d)),
            ("update", lambda d: held.update(d)),
        ):
            if what == "update" and ok:
                continue
            err = raises(call, dict(data))
            ctx.step()
            ctx.check((err is None) == ok, "%s: %s %s" % (msg, what, "is accepted" if err is None else repr(err)))
            err = raises(call, dict(data, nonsense=1.0))
            ctx.check(err is not None, "%s and an unknown keyword: %s is accepted" % (msg, what))
    obs.unchanged(ctx, held, before, name)
    ctx.state((name, n))


def updates(ctx):
    """a refused update leaves the ensemble as it was, and usable"""
    name = ctx.choose("representation", list(REQUIRED))
    n = ctx.choose("npdf", [1, 2, 3])
    f = fix.make(name, n)
    first = ctx.choose("first", ["none", "pdf", "gridded", "mode"])
    full = obs.raw(f, range(n))
    spoils = {}
    for k in REQUIRED[name]:
        v = np.asarray(full[k])
        if v.ndim >= 1 and v.dtype.kind in "fiu" and not (name == "spline" and k == "spln") and k != "ymax" and name not in ("mixmod", "sparse"):
            spoils["%s one shorter" % k] = {**full, k: v[..., :-1]}
            spoils["%s one longer" % k] = {**full, k: np.concatenate([v, v[..., -1:] + 1], axis=-1)}
    if name == "mixmod":
        spoils["negative weight"] = {**full, "weights": np.where(np.arange(np.size(full["weights"])).reshape(np.shape(full["weights"])) == 1, -0.25, full["weights"])}
    spoils["nothing"] = {}
    anc = obs.ancil(range(n))
    for what, data in spoils.items():
        for with_ancil in (False, True):
            ens = obs.build(f, range(n), anc)
            if first == "pdf":
                ens.pdf(np.array(f.xs))
            elif first == "gridded":
                ens.gridded(np.array([0.0, 0.5, 1.0]))
            elif first == "mode":
                ens.mode(np.array([0.0, 0.5, 1.0]))
            before = obs.frozen_state(ens)
            vals = obs.values(ens, f)
            msg = "%s: update (%s)" % (name, what)
            err = raises(ens.update, data, {"z": anc["z"]} if with_ancil else None)
            ctx.step()
            ctx.check(err is not None, "%s is accepted" % msg)
            obs.unchanged(ctx, ens, before, msg)
            for k, v in obs.values(ens, f).items():
                same(ctx, v, vals[k], "%s: %s" % (msg, k), 0, 0)
            # a correct one still works
            ens.update(obs.raw(f, range(n)), {"z": anc["z"] + 1})
            for k, v in obs.values(ens, f).items():
                same(ctx, v, vals[k], "%s, then a correct one: %s" % (msg, k))
            exact(ctx, ens.ancil["z"], anc["z"] + 1, msg)
    ctx.state((name, n, first))


def arguments(ctx):
    """arguments that cannot be broadcast against the PDFs are refused; the others give the broadcast of the values"""
    name = ctx.choose("representation", fix.ALL)
    n = ctx.choose("npdf", [1, 2, 3])
    kind = ctx.choose("function", ["pdf", "cdf", "ppf", "sf", "logpdf", "isf"])
    f = fix.make(name, n)
    if f.cls == "spline" and kind in ("ppf", "isf"):
        return
    ens = f.ens()
    dims = [1, 2, 3] + ([4] if ctx.thorough else [])
    if kind in ("ppf", "isf"):
        base = [0.25, 0.5, 0.625, 0.875]
    else:
        base = (f.inside() * 4)[:4]
    before = obs.frozen_state(ens)
    with np.errstate(all="ignore"):
        table = np.asarray(getattr(f.ens(), kind)(np.array(base))).reshape(n, len(base))
    for shape in [s for k in range(4) for s in itertools.product(dims, repeat=k)]:
        idx = np.arange(int(np.prod(shape))).reshape(shape) % len(base)
        try:
            want = np.broadcast_shapes(shape, (n, 1))
        except ValueError:
            want = None
        msg = "%s (%i PDFs): %s of an argument %s" % (name, n, kind, shape)
        with np.errstate(all="ignore"):
            x = np.array(base)[idx]
            err = raises(getattr(ens, kind), x)
            ctx.step()
            if want is None:
                ctx.traced()
                ctx.check(err is not None, "%s is accepted" % msg)
                continue
            ctx.check(err is None, "%s: %r" % (msg, err))
            got = getattr(ens, kind)(x)
        rows = np.broadcast_to(np.arange(n)[:, None], want)
        same(ctx, got, table[rows, np.broadcast_to(idx, want)], msg, 1e-8, 1e-9)
    obs.unchanged(ctx, ens, before, name)
    ctx.state((name, n, kind))


def column(kind, length):
    if kind == "number":
        return 0.5
    if kind == "flat":
        return np.arange(length) * 1.5
    if kind == "table":
        return np.arange(2.0 * length).reshape(length, 2)
    if kind == "names":
        return np.array([b"n%02d" % i for i in range(length)])
    return [float(i) for i in range(length)]


def ancillary(ctx):
    """columns whose length is not the number of PDFs are refused by every way to set them"""
    name = ctx.choose("representation", fix.CORE)
    n = ctx.choose("npdf", [1, 2, 3])
    f = fix.make(name, n)
    kinds = ["flat", "table", "names", "list"]
    cols = [(k, m) for k in kinds for m in range(5)] + [("number", 0)]
    one = tuple(ctx.choose("column", cols))
    for two in [None] + [c for c in cols if ctx.thorough or c[0] in ("flat", "number")]:
        table = {"a": column(*one)}
        if two is not None:
            table["b"] = column(*two)
        # one number is the column of one PDF
        ok = all((m == n and k != "number") or (n == 1 and np.size(column(k, m)) == 1) for k, m in [one] + ([two] if two else []))
        for how in ("constructor", "set_ancil", "add_to_ancil", "update", "update_objdata", "create"):
            if how == "create" and two is not None:
                continue
            held = obs.build(f, range(n), {"old": np.arange(n) + 0.25})
            before = obs.frozen_state(held)
            data = obs.raw(f, range(n))
            cls = getattr(qp, f.cls, None) or getattr(qp.stats, f.cls)
            call = dict(
                constructor=lambda: qp.Ensemble(cls, data=data, ancil=table),
                set_ancil=lambda: held.set_ancil(table),
                add_to_ancil=lambda: held.add_to_ancil(table),
                update=lambda: held.update(data, table),
                update_objdata=lambda: held.update_objdata({}, table),
                create=lambda: held.add_to_ancil(dict(table, old=np.zeros(n))),
            )[how]
            err = raises(call)
            ctx.step()
            msg = "%s of %i PDFs, %s with %s" % (name, n, how, {k: np.shape(v) for k, v in table.items()})
            ctx.traced()
            ctx.check((err is None) == ok, "%s: %s" % (msg, "accepted" if err is None else repr(err)))
            if err is not None:
                obs.unchanged(ctx, held, before, msg)
            elif how != "constructor":
                keys = {"a", "b"} if two else {"a"}
                if how in ("add_to_ancil", "create"):
                    keys = keys | {"old"}
                ctx.check(set(held.ancil) == keys, "%s: columns %s" % (msg, sorted(held.ancil)))
    ctx.state((name, n, one))


def weights(ctx):
    """mixtures: no negative weights"""
    n = ctx.choose("npdf", [1, 2, 3] if ctx.thorough else [1, 2])
    k = ctx.choose("components", [1, 2, 3])
    scale = ctx.choose("scale", [1.0, 1e-6, 1e6])
    vals = [-1.0, -1e-9, 0.0, 0.5]
    first = ctx.choose("first PDF", list(itertools.product(vals, repeat=k)))
    for rest in itertools.product(vals, repeat=k * (n - 1)) if n < 3 else [r * 2 for r in itertools.product(vals, repeat=k)]:
        w = np.array(list(first) + list(rest)).reshape(n, k) * scale
        if np.any(np.all(w == 0, axis=1)):
            continue
        data = dict(means=rising((n, k)), stds=np.ones((n, k)), weights=w)
        ctx.step()
        err = raises(lambda d=data: qp.Ensemble(qp.mixmod, data=d))
        if np.any(w < 0):
            ctx.traced()
            ctx.check(err is not None, "mixture with weights %s is accepted" % w.tolist())
        else:
            ctx.check(err is None, "mixture with weights %s: %r" % (w.tolist(), err))
            ens = qp.Ensemble(qp.mixmod, data=data)
            same(ctx, np.sum(ens.dist.weights, axis=-1), np.ones(n), "weights %s" % w.tolist())
    ctx.state((n, k, first))


def norms(n):
    return qp.Ensemble(qp.stats.norm, data=dict(loc=np.arange(n)[:, None] * 0.25, scale=np.ones((n, 1))))


def metrics(ctx):
    """sizes of ensembles and truths a metric compares"""
    n = ctx.choose("first", [1, 2, 3, 4])
    m = ctx.choose("second", [1, 2, 3, 4])
    p, q = norms(n), norms(m)
    keep = obs.frozen_state(p), obs.frozen_state(q)
    limits = (-2.0, 3.0)
    from qp.metrics.concrete_metric_classes import BrierMetric, KLDMetric, RMSEMetric  # pylint: disable=import-outside-toplevel

    truths = np.linspace(0, 1, m)
    calls = {
        "calculate_kld": (n == m, lambda: mm.calculate_kld(p, q, limits, 0.5)),
        "calculate_rmse": (n == m, lambda: mm.calculate_rmse(p, q, limits, 0.5)),
        "KLDMetric": (n == m, lambda: KLDMetric(limits, 0.5).evaluate(p, q)),
        "RMSEMetric": (n == m, lambda: RMSEMetric(limits, 0.5).evaluate(p, q)),
        "calculate_brier": (n == m, lambda: mm.calculate_brier(p, truths, limits, 0.5)),
        "BrierMetric": (n == m, lambda: BrierMetric(limits, 0.5).evaluate(p, truths)),
    }
    calls["unknown goodness of fit"] = (False, lambda: mm.calculate_goodness_of_fit(p, q, "chi", 10, 3))
    for what, (ok, call) in calls.items():
        err = raises(call)
        ctx.step()
        ctx.traced()
        ctx.check((err is None) == ok, "%s for %i and %i: %s" % (what, n, m, "accepted" if err is None else repr(err)))
    # the goodness of fit only warns
    told = []
    handler = logging.Handler()
    handler.emit = lambda record: told.append(record.getMessage())
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    others_, logging.root.handlers = logging.root.handlers, [handler]
    try:
        for fit in ("ad", "cvm", "ks"):
            told.clear()
            raises(mm.calculate_goodness_of_fit, p, q, fit, 10, 3)
            ctx.step()
            ctx.traced()
            ctx.check(bool(told) == (m not in (n, 1)), "goodness of fit (%s) of %i and %i warns %s" % (fit, n, m, told))
    finally:
        logging.root.handlers = others_
        logging.disable(off)
    for i in range(m if n == m else 0):
        for bad in (-2.0 - 1e-6, 3.0 + 1e-6, 1e30):
            t = truths.copy()
            t[i] = bad
            ctx.step()
            ctx.check(raises(mm.calculate_brier, p, t, limits, 0.5) is not None, "truths %s within %s are accepted" % (t.tolist(), limits))
    ctx.check((obs.frozen_state(p), obs.frozen_state(q)) == keep, "the ensembles changed")
    ctx.state((n, m))


def others(ctx):
    """packing types, axes of plots, names of files and classes"""
    what = ctx.choose("what", ["packing", "axes", "iterator", "class in a file", "lengths in tables"])
    n = ctx.choose("npdf", [1, 2, 3])
    ctx.step()
    if what == "packing":
        for bad in (None, "linear", 7, -1, 2.5):
            ctx.check(raises(packing_utils.pack_array, bad, np.ones((n, 3))) is not None, "packing type %r is accepted" % (bad,))
            ctx.check(raises(packing_utils.unpack_array, bad, np.ones((n, 3), np.uint8), row_max=np.ones((n, 1))) is not None, "packing type %r is accepted" % (bad,))
        ctx.state(what)
        return
    if what == "axes":
        import matplotlib

        matplotlib.use("Agg")
        import matplotlib.pyplot as plt

        for name in fix.CORE + ["interp_n", "irreg"]:
            ens = fix.make(name, n).ens()
            before = obs.frozen_state(ens)
            for kind in ("plot", "plot_native"):
                for xlim in (None, (0.0, 1.0)):
                    for given in (False, True):
                        axes = plt.figure().gca() if given else None
                        kw = {} if axes is None else dict(axes=axes)
                        if xlim is not None:
                            kw["xlim"] = xlim
                        open_before = len(plt.get_fignums())
                        err = raises(getattr(ens, kind), **kw)
                        ok = given != (xlim is not None)
                        ctx.traced()
                        ctx.check((err is None) == ok, "%s.%s with %s: %r" % (name, kind, sorted(kw), err))
                        if not ok:
                            ctx.check(len(plt.get_fignums()) == open_before, "%s.%s with %s leaves a figure" % (name, kind, sorted(kw)))
                            ctx.check(axes is None or not axes.has_data(), "%s.%s with %s draws something" % (name, kind, sorted(kw)))
                        plt.close("all")
            obs.unchanged(ctx, ens, before, name)
        ctx.state(what)
        return
    d = os.path.join(os.environ["QPMC_SCRATCH"], "c26_%s_%i" % (what.split()[0], n))
    os.makedirs(d, exist_ok=True)
    if what == "iterator":
        ens = fix.make("hist_u", n).ens()
        for ext in ("fits", "hf5", "h5", "pq", "hdf5"):
            path = os.path.join(d, "a.%s" % ext)
            ens.write_to(path)
            err = raises(lambda p=path: list(qp.iterator(p, 1)))
            ctx.traced()
            ctx.check((err is None) == (ext == "hdf5"), "iterating over a .%s file: %r" % (ext, err))
            ctx.check(qp.read(path).npdf == n, "the .%s file afterwards" % ext)
    elif what == "class in a file":
        for name in fix.CORE:
            ens = fix.make(name, n).ens()
            for bad in (b"nothing", b"Hist", b""):
                tables = ens.build_tables()
                tables["meta"] = dict(tables["meta"], pdf_name=np.array([bad]))
                ctx.traced()
                ctx.check(isinstance(raises(qp.from_tables, tables), KeyError), "tables of a %s named %r are accepted" % (name, bad))
                import tables_io

                path = os.path.join(d, "b.hdf5")
                tables_io.write(tables, path)
                for how, call in (("read", lambda: qp.read(path)), ("iterator", lambda: list(qp.iterator(path, 1)))):
                    ctx.check(raises(call) is not None, "%s: a file with %s named %r is accepted" % (how, name, bad))
                os.remove(path)
    else:
        for name in fix.CORE:
            ens = obs.build(fix.make(name, n), range(n), obs.ancil(range(n)))
            for m in range(5):
                tables = ens.build_tables()
                tables["ancil"] = {"z": np.arange(m) + 0.5}
                err = raises(qp.from_tables, tables)
                ctx.traced()
                ctx.check((err is None) == (m == n), "%s tables of %i PDFs with %i rows of ancillary data: %r" % (name, n, m, err))
    ctx.state((what, n))


HARNESSES = dict(shapes=shapes, keywords=keywords, updates=updates, arguments=arguments, ancillary=ancillary, weights=weights, metrics=metrics, others=others)
BOUNDS = dict(
    quick="8 constructors: all pairs (mixtures: triples) of 15 shapes of 1 to 3 dimensions by 2-3 routes; all subsets of keywords of 9 representations; refused updates after 4 histories; all arguments of up to 3 dimensions of lengths 1-3 for 6 functions of every representation; all pairs of ancillary columns (4 kinds, lengths 0-4, numbers; the second one of 1 kind) by 6 ways; all patterns of signs of weights for 2 PDFs of 3 components; all pairs of sizes 1-4 for the metrics; packing types, axes, names in files",
    thorough="25 shapes of up to 4 dimensions, second columns of all kinds, arguments of lengths 1-4, 3 PDFs for the weights",
)
ASSUMPTIONS = [
    "which arrays belong together is documented for the grids and values, quantiles and locations, knots and values; parameters of mixtures of different shapes, maxima of packed values and degrees of splines with other numbers of rows are left to numpy",
    "any exception counts as a refusal",
]
