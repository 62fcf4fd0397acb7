"""C06: concatenating and appending stack the PDFs in order, or fail without a change

Oracle: lists of row numbers and a fresh ensemble made of those rows.  Explored: all lists of up to three pieces of one
or two PDFs with every combination of ancillary data, every way of splitting, every single difference of metadata.
"""

import itertools

import numpy as np
import qp
from mc import fix, obs
from mc.util import compositions, raises, same, same_dict

PROPERTY = "C06"
LEVEL = "model_checking"
BASE = 5  # number of rows of the fixtures the pieces are taken from


def piece(f, rows, anc):
    return obs.build(f, rows, obs.ancil(rows) if anc else None)


def kinds_for(f):
    return ("pdf", "cdf", "ppf") if f.cls != "spline" else ("pdf", "cdf")


def pieces(ctx):
    """concatenation of up to three ensembles"""
    f = fix.make(ctx.choose("representation", fix.ALL), BASE)
    sizes = ctx.choose("sizes", [s for k in (1, 2, 3) for s in itertools.product([1, 2], repeat=k) if sum(s) <= BASE])
    for order in ctx.choose("order", [itertools.permutations(range(len(sizes)))]):
        for anc in itertools.product([False, True], repeat=len(sizes)):
            rows, start = [], 0
            for s in sizes:
                rows.append(list(range(start, start + s)))
                start += s
            rows = [rows[i] for i in order]
            parts = [piece(f, r, a) for r, a in zip(rows, anc)]
            before = [obs.frozen_state(p) for p in parts]
            ctx.state(f.name, repr(rows), anc)
            full = qp.concatenate(parts)
            ctx.step()
            flat = [r for p in rows for r in p]
            msg = "concatenation of rows %s of %s (ancillary data %s)" % (rows, f.name, anc)
            kinds = kinds_for(f)
            obs.compare(ctx, obs.observe(full, f, kinds), obs.fresh(f, flat, kinds), msg, ancil_=obs.ancil(flat) if all(anc) else None)
            for p, b in zip(parts, before):
                obs.unchanged(ctx, p, b, msg)


def same_object(ctx):
    """the same ensemble more than once"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    rows = ctx.choose("rows", [[0], [1, 2], [0, 1, 2]])
    times = ctx.choose("times", [1, 2, 3])
    anc = ctx.flag("ancil")
    ens = piece(f, rows, anc)
    before = obs.frozen_state(ens)
    flat = rows * times
    full = qp.concatenate([ens] * times)
    ctx.step()
    ctx.state(f.name, repr(flat), anc)
    kinds = kinds_for(f)
    msg = "%i times rows %s of %s" % (times, rows, f.name)
    obs.compare(ctx, obs.observe(full, f, kinds), obs.fresh(f, flat, kinds), msg, ancil_=obs.ancil(flat) if anc else None)
    obs.unchanged(ctx, ens, before, msg)
    if times == 2:
        ens.append(ens)
        ctx.step()
        obs.compare(ctx, obs.observe(ens, f, kinds), obs.fresh(f, flat, kinds), "append to itself, " + msg, ancil_=obs.ancil(flat) if anc else None)


def append(ctx):
    """appending once or twice, after evaluations"""
    f = fix.make(ctx.choose("representation", fix.ALL), BASE)
    sizes = ctx.choose("sizes", [s for k in (2, 3) for s in itertools.product([1, 2], repeat=k) if sum(s) <= BASE])
    used = ctx.choose("evaluated", ["nothing", "pdf", "cdf", "ppf", "gridded"])
    if f.cls == "spline" and used == "ppf":
        return
    for anc in itertools.product([False, True], repeat=len(sizes)):
        rows, start = [], 0
        for s in sizes:
            rows.append(list(range(start, start + s)))
            start += s
        parts = [piece(f, r, a) for r, a in zip(rows, anc)]
        before = [obs.frozen_state(p) for p in parts]
        grid = np.array([0.25, 0.5, 1.25])
        flat = list(rows[0])
        has = anc[0]
        kinds = kinds_for(f)
        for p, r, a, b in zip(parts[1:], rows[1:], anc[1:], before[1:]):
            if used != "nothing":
                with np.errstate(all="ignore"):
                    getattr(parts[0], used)(grid)
            parts[0].append(p)
            ctx.step()
            flat += r
            has = has and a
            ctx.state(f.name, repr(rows), anc, used, len(flat))
            msg = "%s: append rows %s after %s (ancillary data %s)" % (f.name, r, used, anc)
            obs.compare(ctx, obs.observe(parts[0], f, kinds), obs.fresh(f, flat, kinds), msg, ancil_=obs.ancil(flat) if has else None)
            with np.errstate(all="ignore"):
                same(ctx, parts[0].gridded(grid)[1], obs.build(f, flat).pdf(grid), msg + ", gridded", 1e-9, 1e-11)
            obs.unchanged(ctx, p, b, msg)


def split(ctx):
    """splitting and concatenating the pieces"""
    n = ctx.choose("npdf", [2, 3, 4] if not ctx.thorough else [2, 3, 4, 5])
    f = fix.make(ctx.choose("representation", fix.ALL), n)
    anc = ctx.flag("ancil")
    full = piece(f, range(n), anc)
    kinds = kinds_for(f)
    for cuts in compositions(n):
        for how in ("slice", "list", "int"):
            parts, start = [], 0
            for c in cuts:
                if how == "int" and c == 1:
                    parts.append(full[start])
                elif how == "list":
                    parts.append(full[list(range(start, start + c))])
                else:
                    parts.append(full[start : start + c])
                start += c
            again = qp.concatenate(parts)
            ctx.step(len(cuts) + 1)
            ctx.state(f.name, n, anc, cuts, how)
            msg = "%s split into %s by %s" % (f.name, cuts, how)
            obs.compare(ctx, obs.observe(again, f, kinds), obs.fresh(f, range(n), kinds), msg, ancil_=obs.ancil(range(n)) if anc else None)
            first = parts[0]
            for p in parts[1:]:
                first.append(p)
                ctx.step()
            obs.compare(ctx, obs.observe(first, f, kinds), obs.fresh(f, range(n), kinds), msg + " and appended", ancil_=obs.ancil(range(n)) if anc else None)


def variants(f):
    """constructor data that differ in exactly one element, or in size, of the metadata"""
    out = []
    for k, v in f.data.items():
        if k in f.per_row:
            continue
        if isinstance(v, np.ndarray) or (isinstance(v, list) and k != "dims"):
            a = np.array(v, float)
            gaps = np.diff(a)
            for i in range(a.size):
                if k == "quants" and a[i] in (0.0, 1.0):
                    continue
                b = a.copy()
                # a small step that keeps the order
                b[i] += 0.01 * (min(abs(gaps)) if gaps.size else 1.0)
                out.append(("%s[%i]" % (k, i), {k: b if isinstance(v, np.ndarray) else b.tolist()}))
            if k != "quants":
                out.append(("%s*" % k, {k: a * 1.001 if isinstance(v, np.ndarray) else (a * 1.001).tolist()}))
        elif k == "dims":
            for i in (0, 1, 2):
                b = list(v)
                b[i] += 1
                out.append(("dims[%i]" % i, {k: b}))
        elif k == "pdf_constructor_name":
            for other in ("piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"):
                if other != v:
                    out.append((other, {k: other}))
        elif k == "packing_type":
            new = [t for t in type(v) if t != v][0]
            out.append(("packing", {k: new, "log_floor": -3.0}))
        elif k == "log_floor":
            out.append(("log_floor", {k: v * 1.01}))
        elif k == "cut":
            out.append(("cut", {k: v * 1.01}))
        elif k == "check_input":
            pass
    # one more element
    for k, cols in dict(bins=("pdfs",), xvals=("yvals", "ypacked"), quants=("locs",)).items():
        if k in f.data and k not in f.per_row:
            new = {k: np.append(f.data[k], f.data[k][-1] + (0.5 if k != "quants" else 0.0))}
            if k == "quants":
                new[k] = np.insert(f.data[k], 1, 0.5 * (f.data[k][0] + f.data[k][1]))
            for c in cols:
                if c in f.data:
                    new[c] = np.concatenate([f.data[c][:, :1], f.data[c]], axis=1)
                    if k == "quants":
                        new[c] = np.insert(f.data[c], 1, 0.5 * (f.data[c][:, 0] + f.data[c][:, 1]), axis=1)
            out.append(("longer %s" % k, new))
    return out


def both_fail(ctx, a, b, f, g, msg):
    """concatenate and append reject the pair, and nothing changes"""
    for x, y, fx, what in ((a, b, f, "first, second"), (b, a, g, "second, first")):
        sx, sy = obs.frozen_state(x), obs.frozen_state(y)
        vx = obs.values(x, fx, ("pdf",))
        ctx.step(3)
        ctx.check(raises(qp.concatenate, [x, y]) is not None, "%s: concatenate (%s) does not raise" % (msg, what))
        ctx.check(raises(qp.concatenate, [x, x, y]) is not None, "%s: concatenate (three, %s) does not raise" % (msg, what))
        obs.unchanged(ctx, x, sx, msg + ", concatenate")
        ctx.check(raises(x.append, y) is not None, "%s: append (%s) does not raise" % (msg, what))
        obs.unchanged(ctx, x, sx, msg + ", append")
        obs.unchanged(ctx, y, sy, msg + ", append")
        same(ctx, obs.values(x, fx, ("pdf",))["pdf"], vx["pdf"], msg + ": pdf after the rejected append")


def metadata(ctx):
    """ensembles that differ in one element of the metadata"""
    f = fix.make(ctx.choose("representation", fix.ROWS), ctx.choose("npdf", [1, 2]))
    scale = ctx.choose("scale", [1.0, 1e-9, 1e6])
    todo = variants(f)
    if scale != 1.0:
        # the same with very small or very large values
        key = {"hist": "bins", "interp": "xvals", "packed_interp": "xvals"}.get(f.cls)
        if key is None:
            return
        todo = [(n, {**v, key: v[key] * scale}) for n, v in todo if key in v]
        f.data[key] = f.data[key] * scale
        f.xs = [x * scale for x in f.xs]
    for name, change in todo:
        rows = range(f.npdf)
        a = obs.build(f, rows, obs.ancil(rows))
        data = obs.raw(f, rows)
        data.update(change)
        g = fix.Fix(f.name, f.cls, data, f.refs, f.xs, f.qs, f.per_row)
        b = obs.build(g, rows, obs.ancil(rows))
        ctx.state(f.name, f.npdf, scale, name)
        both_fail(ctx, a, b, f, g, "%s with a different %s (scale %g)" % (f.name, name, scale))


def representations(ctx):
    """ensembles of different representations"""
    f = fix.make(ctx.choose("first", fix.CORE + ["hist_u", "quant_csd", "uniform", "gamma"]), 2)
    for name in fix.CORE:
        g = fix.make(name, 2)
        if g.cls == f.cls:
            continue
        ctx.state(f.name, g.name)
        both_fail(ctx, f.ens(), g.ens(), f, g, "%s and %s" % (f.name, g.name))


def columns(ctx):
    """object data or ancillary columns that do not fit"""
    f = fix.make(ctx.choose("representation", fix.ALL), 2)
    rows = range(2)
    what = ctx.choose("difference", ["missing", "extra", "renamed", "shape", "width"])
    a = obs.build(f, rows, obs.ancil(rows))
    anc = obs.ancil(rows)
    if what == "missing":
        del anc["v"]
    elif what == "extra":
        anc["w"] = np.array([1.0, 2.0])
    elif what == "renamed":
        anc["zz"] = anc.pop("z")
    elif what == "shape":
        anc["z"] = anc["z"].reshape(2, 1)
    else:
        anc["v"] = np.ones((2, 3))
    b = obs.build(f, rows, anc)
    ctx.state(f.name, what)
    both_fail(ctx, a, b, f, f, "%s, ancillary column %s" % (f.name, what))


def object_data(ctx):
    """object data of another width"""
    f = fix.make(ctx.choose("representation", ["irreg", "mixmod", "spline", "sparse"]), 2)
    a = f.ens()
    data = obs.raw(f, range(2))
    if f.name == "spline":
        from scipy.interpolate import splrep

        reps = [splrep(np.linspace(0.0, 3.0, 9), np.ones(9) / 3.0) for _ in range(2)]
        data = dict(splx=np.array([r[0] for r in reps]), sply=np.array([r[1] for r in reps]), spln=np.array([[r[2]] for r in reps]))
    else:
        for k in f.per_row:
            v = data[k]
            last = v[:, -1:] + 1.0 if k == "xvals" else v[:, -1:]
            data[k] = np.concatenate([v, last], axis=1)
    g = fix.Fix(f.name, f.cls, data, f.refs, f.xs, f.qs, f.per_row)
    ctx.state(f.name)
    both_fail(ctx, a, obs.build(g, range(2)), f, g, "%s with wider rows" % f.name)


def norm_source(n):
    return qp.Ensemble(qp.stats.norm, data=dict(loc=np.linspace(0.5, 1.5, n).reshape(n, 1), scale=np.linspace(0.3, 0.5, n).reshape(n, 1)))


X = np.linspace(-1.0, 3.0, 41)
BUILT = {
    "hist": lambda e: qp.convert(e, "hist", bins=X),
    "hist samples": lambda e: qp.convert(e, "hist", method="samples", bins=X, size=50),
    "interp": lambda e: qp.convert(e, "interp", xvals=X),
    "interp_irregular": lambda e: qp.convert(e, "interp_irregular", xvals=X),
    "quant": lambda e: qp.convert(e, "quant", quants=np.linspace(0.05, 0.95, 9)),
    "packed": lambda e: qp.convert(e, "packed_interp", xvals=X, packing_type=qp.packing_utils.PackingType.linear_from_rowmax),
    "spline xy": lambda e: qp.convert(e, "spline", method="xy", xvals=X),
    "spline samples": lambda e: qp.convert(e, "spline", method="samples", xvals=X, size=50),
    "mixmod": lambda e: qp.convert(e, "mixmod", ncomps=1, nsamples=50),
    "mixmod created": lambda e: qp.create("mixmod", dict(means=np.ones((e.npdf, 2)), stds=np.ones((e.npdf, 2)), weights=np.full((e.npdf, 2), 0.5))),
    "spline created": lambda e: qp.create("spline", dict(xvals=np.vstack([X] * e.npdf), yvals=e.pdf(X)), method="xy"),
    "norm": lambda e: e,
}


def constructed(ctx):
    """ensembles made by conversions and alternative constructors"""
    build = BUILT[ctx.choose("construction", list(BUILT))]
    n = ctx.choose("npdf", [1, 2, 3])
    m = ctx.choose("second npdf", [1, 2])
    how = ctx.choose("operation", ["concatenate", "append", "twice"])
    a, b = build(norm_source(n)), build(norm_source(m))
    pts = np.array([0.1, 0.55, 1.3])
    va, vb = a.pdf(pts), b.pdf(pts)
    da = {k: np.array(v) for k, v in a.objdata().items()}
    db = {k: np.array(v) for k, v in b.objdata().items()}
    md = {k: np.array(v) for k, v in a.metadata().items()}
    want = np.vstack([va, vb])
    data = {k: np.concatenate([da[k], db[k]]) for k in da}
    if how == "concatenate":
        full = qp.concatenate([a, b])
    else:
        a.append(b)
        full = a
        if how == "twice":
            a.append(b)
            want = np.vstack([want, vb])
            data = {k: np.concatenate([data[k], db[k]]) for k in da}
    ctx.step()
    ctx.state(build, n, m, how)
    ctx.check(full.npdf == len(want), "number of PDFs %i instead of %i" % (full.npdf, len(want)))
    same(ctx, full.pdf(pts), want, "pdf after %s" % how, 1e-8, 1e-10)
    same_dict(ctx, {k: np.array(v) for k, v in full.objdata().items()}, data, "object data", strict=False)
    same_dict(ctx, {k: np.array(v) for k, v in full.metadata().items()}, md, "metadata", strict=False)


def typed(kind, rows):
    """an ancillary column of one type; its values are not representable in some of the other types"""
    r = np.array(list(rows))
    if kind == "int":
        return 3 * r + 2
    if kind == "int8":
        return (3 * r + 2).astype("i1")
    if kind == "large int":
        return 2**40 + r
    if kind == "float":
        return r + 0.3
    if kind == "float32":
        return (r + 0.25).astype("f4")
    if kind == "bool":
        return r % 2 == 0
    if kind == "complex":
        return r + 0.5j
    if kind == "short text":
        return np.array(["p%i" % i for i in r])
    if kind == "long text":
        return np.array(["a longer name %i" % i for i in r])
    if kind == "short bytes":
        return np.array([b"b%i" % i for i in r])
    return np.array([b"more bytes %i" % i for i in r])


NUMBERS = ["int", "int8", "large int", "float", "float32", "bool", "complex"]
TYPES = [NUMBERS, ["short text", "long text"], ["short bytes", "long bytes"]]


def types(ctx):
    """columns of different types in the pieces: every value is kept exactly"""
    f = fix.make(ctx.choose("representation", ["norm", "hist_n", "mixmod", "irreg"]), BASE)
    kinds = ctx.choose("types", [k for t in TYPES for n in (2, 3) for k in itertools.product(t, repeat=n)])
    wide = ctx.flag("two columns")
    how = ctx.choose("operation", ["concatenate", "append", "split"])
    sizes = [2, 1, 2][: len(kinds)]
    rows, start = [], 0
    for s in sizes:
        rows.append(list(range(start, start + s)))
        start += s
    cols = [typed(k, r) for k, r in zip(kinds, rows)]
    if wide:
        cols = [np.stack([c, c[::-1]], axis=1) for c in cols]
    parts = [obs.build(f, r, dict(c=c)) for r, c in zip(rows, cols)]
    if how == "split":
        # single PDFs
        parts = [p[i] if p.npdf > 1 else p for p in parts for i in range(p.npdf)]
    if how == "append":
        full = parts[0]
        for p in parts[1:]:
            full.append(p)
    else:
        full = qp.concatenate(parts)
    ctx.step(len(parts))
    ctx.state(f.name, kinds, wide, how)
    got = np.asarray(full.ancil["c"])
    want = [v for c in cols for v in c.tolist()]
    ctx.check(got.shape[0] == len(want) and got.reshape(len(want), -1).shape[1] == (2 if wide else 1), "%s of columns of types %s has shape %s" % (how, kinds, got.shape))
    ctx.check(got.reshape(np.shape(want)).tolist() == want, "%s of columns of types %s is %s instead of %s" % (how, kinds, got.tolist(), want))


def data_types(ctx):
    """object data of different types in the pieces"""
    name = ctx.choose("representation", ["norm", "uniform", "mixmod", "interp_irregular"])
    kinds = ctx.choose("types", list(itertools.product(["i8", "i4", "f4", "f8"], repeat=2)) + list(itertools.product(["i8", "f4", "f8"], repeat=3)))
    how = ctx.choose("operation", ["concatenate", "append"])
    x = np.array([0.1, 0.9, 1.6, 2.4])
    # halves: exact in every float type, and no whole numbers
    vals = []
    for k, d in zip(range(len(kinds)), kinds):
        h = 0.0 if d[0] == "i" else 0.5
        vals.append(((k + 1 + h), (2 * k + 1 + h)))

    def data(v, d):
        a, b = v
        t = dict(norm=dict(loc=[[a]], scale=[[b]]), uniform=dict(loc=[[-a]], scale=[[a + b]]), mixmod=dict(means=[[a, b]], stds=[[1, 2]], weights=[[1, 3]]), interp_irregular=dict(xvals=[[0, 1, a + 1]], yvals=[[1, b, 1]]))[name]
        return {key: np.array(val).astype(d) for key, val in t.items()}

    def make(v, d):
        cls = dict(norm=qp.stats.norm, uniform=qp.stats.uniform, mixmod=qp.mixmod, interp_irregular=qp.interp_irregular)[name]
        return qp.Ensemble(cls, data=data(v, d))

    parts = [make(v, d) for v, d in zip(vals, kinds)]
    want = np.vstack([make(v, "f8").pdf(x) for v in vals])
    if how == "append":
        full = parts[0]
        for p in parts[1:]:
            full.append(p)
    else:
        full = qp.concatenate(parts)
    ctx.step(len(parts))
    ctx.state(name, kinds, how)
    same(ctx, full.pdf(x), want, "pdf after %s of object data of types %s" % (how, kinds), 1e-6, 1e-7)


HARNESSES = dict(pieces=pieces, same_object=same_object, append=append, split=split, metadata=metadata, representations=representations, columns=columns, object_data=object_data, constructed=constructed, types=types, data_types=data_types)
BOUNDS = dict(
    quick="lists of up to 3 pieces of 1-2 PDFs in every order with every combination of ancillary data; appending once or twice after each kind of evaluation; every composition of up to 4 PDFs by slices, lists and single PDFs; every single element of the metadata changed by 1 % of the smallest gap (also at scales 1e-9 and 1e6), longer metadata, other representations, ancillary columns and widths; 12 constructions; ancillary columns of 11 types and object data of 4 types in every combination for 2 and 3 pieces",
    thorough="compositions of up to 5 PDFs",
)
ASSUMPTIONS = ["differences of metadata below the tolerance of the comparison (1e-5 relative) are equal by design", "when some but not all pieces have ancillary data, the result has none (as documented by the code)"]
