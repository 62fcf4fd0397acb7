"""C14: quantile ensembles interpolate their quantiles; reconstructions switch cleanly

Oracle: mc/ref.py QuantRow (padding by hand, each reconstruction by its own rule), and a fresh ensemble made with the
reconstruction selected last.
Explored: all subsets of levels (with and without 0 and 1, and levels within rounding of them), gap patterns, 1-3 PDFs;
all sequences of up to 3 (4) switches, valid and not, each with or without an evaluation before the next.
"""

import itertools
import math

import numpy as np
import qp
from mc import ref
from mc.util import exact, match, raises, same
from qp import quantile_pdf_constructors as qc
from qp.quant_pdf import pad_quantiles

PROPERTY = "C14"
LEVEL = "model_checking"

KINDS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]
BAD = ["", "Piecewise_Linear", "linear", "piecewise_linear ", None]
TINY = 1e-17
_FRESH = {}


def padded(levels, locs):
    """levels and one row of locations with the missing ends, by continuing the outermost slopes"""
    q, l = [float(v) for v in levels], [float(v) for v in locs]
    lo, hi = q[0] > 2.3e-16, q[-1] < 1.0
    first = l[0] - q[0] * (l[1] - l[0]) / (q[1] - q[0])
    last = l[-1] + (1 - q[-1]) * (l[-1] - l[-2]) / (q[-1] - q[-2])
    return ([0.0] if lo else []) + q + ([1.0] if hi else []), ([first] if lo else []) + l + ([last] if hi else [])


def rows_of(n, nlev):
    """different locations for each PDF"""
    out = []
    for i in range(n):
        x, r = -0.5 + 0.75 * i, []
        for j in range(nlev):
            r.append(x)
            x += 0.125 * (1 + (3 * i + 2 * j + i * j) % 4)
        out.append(r)
    return out


def padding(ctx):
    """0 and 1 are added exactly when they are missing"""
    inner = ctx.choose("levels", [c for n in (2, 3, 4) for c in itertools.combinations([0.0625, 0.25, 0.5, 0.75, 0.875, 0.9375], n)])
    low = ctx.choose("lowest", ["none", 0.0, TINY, 1e-12])
    high = ctx.choose("highest", ["none", 1.0, 1.0 - 2.0**-53, 1.0 - 1e-12])
    n = ctx.choose("npdf", [1, 2, 3])
    levels = ([] if low == "none" else [low]) + list(inner) + ([] if high == "none" else [high])
    locs = rows_of(n, len(levels))
    q, l = np.array(levels), np.array(locs)
    keep = q.copy(), l.copy()
    gq, gl = pad_quantiles(q, l)
    ctx.step()
    exact(ctx, q, keep[0], "the given levels")
    exact(ctx, l, keep[1], "the given locations")
    want = [padded(levels, r) for r in locs]
    same(ctx, gq, want[0][0], "%s: padded levels" % levels, 1e-14, 0)
    same(ctx, gl, [w[1] for w in want], "%s: padded locations" % levels, 1e-9, 1e-12)
    ctx.check(np.all(np.diff(gq) > 0) and gq[0] <= 2.3e-16 and gq[-1] == 1.0, "%s: padded levels %s" % (levels, gq))
    again = pad_quantiles(gq.copy(), gl.copy())
    exact(ctx, again[0], gq, "%s: levels padded twice" % levels)
    exact(ctx, again[1], gl, "%s: locations padded twice" % levels)
    ctx.state(tuple(levels), n)
    # the ensemble, and one made from its own tables
    ens = qp.Ensemble(qp.quant, data=dict(quants=q, locs=l))
    two = qp.Ensemble(qp.quant, data=dict(quants=np.array(ens.metadata()["quants"]).ravel(), locs=ens.objdata()["locs"]))
    ctx.step(2)
    for e, what in ((ens, "ensemble"), (two, "ensemble of the stored data")):
        exact(ctx, np.ravel(e.metadata()["quants"]), gq, "%s: levels of the %s" % (levels, what))
        exact(ctx, e.objdata()["locs"], gl, "%s: locations of the %s" % (levels, what))
    raw = qp.Ensemble(qp.quant, data=dict(quants=q, locs=l, check_input=False))
    exact(ctx, raw.objdata()["locs"], l, "%s: locations without padding" % levels)


def types(ctx):
    """locations and levels of other number types are the same numbers"""
    kind = ctx.choose("reconstruction", KINDS)
    n = ctx.choose("npdf", [1, 2, 3])
    locs_type = ctx.choose("locations", ["i8", "i4", "f4", "list", "fortran", "u2"])
    levels_type = ctx.choose("levels", ["f8", "f4", "list"])
    for lo, hi in itertools.product((True, False), repeat=2):
        levels = ([0.0] if lo else []) + [0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875] + ([1.0] if hi else [])
        step = [1, 2, 4, 3, 1, 5, 2, 2]
        locs = [[10 + i + sum(step[(k + i) % 8] for k in range(j)) for j in range(len(levels))] for i in range(n)]
        f8 = np.array(locs, float)
        given = dict(list=locs, fortran=np.asfortranarray(f8)).get(locs_type)
        given = f8.astype(locs_type) if given is None else given
        q = levels if levels_type == "list" else np.array(levels, levels_type)
        if locs_type == "list":
            given = np.array(locs)
        ens = qp.Ensemble(qp.quant, data=dict(quants=np.array(q), locs=given, pdf_constructor_name=kind))
        want = qp.Ensemble(qp.quant, data=dict(quants=np.array(levels), locs=f8, pdf_constructor_name=kind))
        msg = "%s with locations %s and levels %s, ends %s %s" % (kind, locs_type, levels_type, lo, hi)
        gq, gl = np.ravel(ens.dist.quants), np.asarray(ens.dist.locs)
        wq, wl = zip(*[padded(levels, row) for row in f8.tolist()])
        same(ctx, gq, wq[0], msg + ": levels", 1e-6)
        same(ctx, gl, wl, msg + ": locations", 1e-6)
        pts = np.array([9.0, 10.3, 12.6, 15.2, 18.7, 22.1, 31.0])
        with np.errstate(all="ignore"):
            for fun in ("pdf", "cdf"):
                same(ctx, getattr(ens, fun)(pts), getattr(want, fun)(pts), "%s: %s" % (msg, fun), 1e-5, 1e-6)
            same(ctx, ens.ppf(np.array([0.0625, 0.3, 0.9])), want.ppf(np.array([0.0625, 0.3, 0.9])), "%s: ppf" % msg, 1e-5, 1e-6)
        ctx.step(3)
        ctx.state(kind, n, locs_type, levels_type, lo, hi)


def nodes(ctx):
    """cdf and ppf at the levels and locations; densities of each reconstruction everywhere"""
    kind = ctx.choose("reconstruction", KINDS)
    n = ctx.choose("npdf", [1, 2, 3])
    nlev = ctx.choose("levels", [6, 7, 8] if kind != "dual_spline_average" else [8, 9])
    lo, hi = ctx.choose("ends", [(a, b) for a in (True, False) for b in (True, False)])
    style = ctx.choose("spacing", ["even", "square", "mixed"])
    gaps = ctx.choose("gaps", list(itertools.product([1.0, 0.25, 3.0], repeat=3)))
    scale, off = ctx.choose("frame", [(1.0, 0.0), (2.0**-12, 1.0), (512.0, -100.0)] if ctx.thorough or gaps[0] == 1.0 else [(1.0, 0.0)])
    base = [i / (nlev - 1) for i in range(nlev)]
    if style == "square":
        base = [v * v for v in base]
    if style == "mixed":
        base = [v if i % 2 else v * 0.8 for i, v in enumerate(base)]
        base[-1] = 1.0
    if not lo:
        base = [0.02 + 0.98 * v for v in base]
    if not hi:
        base = [0.97 * v for v in base]
    locs = []
    for i in range(n):
        x, r = off + scale * 0.3 * i, []
        for j in range(nlev):
            r.append(x)
            x += scale * gaps[(j + i) % 3] * (1 + 0.25 * ((i * j) % 3))
        locs.append(r)
    ens = qp.Ensemble(qp.quant, data=dict(quants=np.array(base), locs=np.array(locs), pdf_constructor_name=kind))
    refs = [ref.QuantRow(base, r, kind) for r in locs]
    rows = list(range(n))
    ctx.state(kind, tuple(base), str(locs))
    ctx.step(3)
    with np.errstate(all="ignore"):
        # one list per PDF, so that each has its own nodes
        match(ctx, refs, "cdf", ens.cdf(np.array([r.l + [r.lo - scale, r.hi + scale] for r in refs])), rows, [r.l + [r.lo - scale, r.hi + scale] for r in refs], kind, 1e-8, 1e-9)
        match(ctx, refs, "ppf", ens.ppf(np.array(refs[0].q[1:-1])), rows, refs[0].q[1:-1], kind, 1e-8, 1e-9 * scale)
        pts = []
        for r in refs:
            p = [r.lo - scale, r.hi + scale]
            for a, b in zip(r.l, r.l[1:]):
                p += [a + 0.17 * (b - a), a + 0.52 * (b - a), a + 0.88 * (b - a)]
            pts.append(p)
        tol = 1e-9 / scale
        match(ctx, refs, "pdf", ens.pdf(np.array(pts)), rows, pts, kind, 1e-6, tol * 100)
        if n > 1:
            flat = pts[0] + pts[1]
            match(ctx, refs, "pdf", ens.pdf(np.array(flat)), rows, flat, kind + " (common points)", 1e-6, tol * 100)


def direct(ctx):
    """the reconstruction objects: prepared once or twice, with any selection of PDFs"""
    kind = ctx.choose("reconstruction", KINDS)
    n = ctx.choose("npdf", [1, 2, 3])
    levels = [0.0, 0.05, 0.15, 0.3, 0.5, 0.7, 0.85, 0.95, 1.0]
    locs = rows_of(n, len(levels))
    cls = dict(zip(KINDS, [qc.PiecewiseLinear, qc.PiecewiseConstant, qc.CdfSplineDerivative, qc.DualSplineAverage]))[kind]
    refs = [ref.QuantRow(levels, r, kind) for r in locs]
    given = np.array(levels), np.array(locs)
    keep = given[0].copy(), given[1].copy()
    obj = cls(*given)
    times = ctx.choose("prepared", [0, 1, 2])
    for _ in range(times):
        obj.prepare_constructor()
    for rnd in range(2):
        for row in range(n):
            grid = [r for a, b in zip(refs[row].l, refs[row].l[1:]) for r in (a + 0.2 * (b - a), a + 0.6 * (b - a))] + [refs[row].lo - 1, refs[row].hi + 1]
            arg = np.array([row])
            if kind in KINDS[:2]:
                arg = np.array([[row]])
            got = np.asarray(obj.construct_pdf(np.array(grid), arg)).reshape(1, -1)
            ctx.step()
            match(ctx, [refs[row]], "pdf", got, [0], grid, "%s, round %i" % (kind, rnd), 1e-7, 1e-9)
    if kind in KINDS[2:]:
        grid = [refs[0].l[2] + 0.01, refs[0].l[5] - 0.01]
        got = np.asarray(obj.construct_pdf(np.array(grid)))
        match(ctx, refs, "pdf", got, list(range(n)), grid, "%s of all PDFs" % kind, 1e-7, 1e-9)
    exact(ctx, given[0], keep[0], "the given levels")
    exact(ctx, given[1], keep[1], "the given locations")
    dbg = obj.debug()
    exact(ctx, dbg[0], keep[0], "levels of debug()")
    exact(ctx, dbg[1], keep[1], "locations of debug()")
    ctx.state(kind, n, times)


LEVELS = [0.0, 0.0625, 0.1875, 0.375, 0.5, 0.625, 0.8125, 0.9375, 1.0]


def sample(ens, pts):
    with np.errstate(all="ignore"):
        return [np.asarray(ens.pdf(pts)), np.asarray(ens.cdf(pts)), np.asarray(ens.ppf(np.array([0.1, 0.5]))), np.asarray(ens.gridded(pts)[1]), np.ravel(ens.metadata()["pdf_constructor_name"]).astype("S")]


def data_of(n, pad, rows=None):
    lv = LEVELS[1:-1] if pad else LEVELS
    locs = np.array(rows_of(3, len(lv)))[:n] if rows is None else np.array(rows_of(3, len(lv)))[list(rows)]
    return dict(quants=np.array(lv), locs=locs)


def fresh(n, pad, kind, pts, rows=None):
    key = (n, pad, kind, pts.tobytes(), rows)
    if key not in _FRESH:
        _FRESH[key] = sample(qp.Ensemble(qp.quant, data=dict(pdf_constructor_name=kind, **data_of(n, pad, rows))), pts)
    return _FRESH[key]


PARTS = ["pdf", "cdf", "ppf", "gridded values", "name in the metadata"]


def agree(ctx, ens, want, pts, msg):
    got = sample(ens, pts)
    ctx.step(5)
    for g, w, p in zip(got, want, PARTS):
        same(ctx, g, w, "%s: %s" % (msg, p), 1e-10, 1e-13)


def switching(ctx):
    """sequences of switches, with or without evaluations in between"""
    n = ctx.choose("npdf", [1, 2, 3])
    pad = ctx.flag("padding needed")
    start = ctx.choose("first reconstruction", [None] + KINDS)
    depth = ctx.choose("depth", [1, 2, 3, 4] if ctx.thorough else [1, 2, 3])
    kw = {} if start is None else dict(pdf_constructor_name=start)
    ens = qp.Ensemble(qp.quant, data=dict(**kw, **data_of(n, pad)))
    now = start or "piecewise_linear"
    pts = np.array([-1.0, -0.2, 0.3, 0.55, 0.9, 1.4, 2.0, 9.0])
    path = [now]
    for i in range(depth):
        last = i == depth - 1
        if ctx.flag("evaluated before") if depth < 3 or i == 1 or ctx.thorough else i == 0:
            agree(ctx, ens, fresh(n, pad, now, pts), pts, "%s" % path)
        op = ctx.choose("switch to", KINDS + (BAD if depth < 3 else BAD[1:2]))
        path.append(op)
        err = raises(setattr, ens.dist, "pdf_constructor_name", op)
        ctx.step()
        if op in KINDS:
            ctx.check(err is None, "%s: switching raises %r" % (path, err))
            now = op
        else:
            ctx.check(isinstance(err, ValueError), "%s: an unknown name raises %r" % (path, err))
        ctx.check(ens.dist.pdf_constructor_name == now, "%s: the name is %r" % (path, ens.dist.pdf_constructor_name))
        ctx.state(n, pad, tuple(path))
        if last or not ctx.thorough:
            agree(ctx, ens, fresh(n, pad, now, pts), pts, "%s" % path)


def derived(ctx):
    """selections, copies, files and concatenations of switched ensembles"""
    import os

    pad = ctx.flag("padding needed")
    ops = [ctx.choose("switch to", KINDS) for _ in range(2)]
    how = ctx.choose("then", ["item", "slice", "mask", "file", "tables", "concatenate", "update", "split", "original"])
    ens = qp.Ensemble(qp.quant, data=data_of(3, pad))
    pts = np.array([-1.0, -0.2, 0.3, 0.55, 0.9, 1.4, 2.0, 9.0])
    for op in ops:
        ens.dist.pdf_constructor_name = op
        if ctx.flag("evaluated"):
            ens.pdf(pts)
    now = ops[-1]
    ctx.step(3)
    ctx.state(pad, tuple(ops), how)
    msg = "%s then %s" % (ops, how)
    if how == "item":
        for i in range(3):
            got = sample(ens[i], pts)
            for g, w, p in zip(got, fresh(1, pad, now, pts, (i,)), PARTS):
                same(ctx, np.ravel(g), np.ravel(w), "%s %i: %s" % (msg, i, p), 1e-10, 1e-13)
    elif how == "slice":
        agree(ctx, ens[1:], fresh(2, pad, now, pts, (1, 2)), pts, msg)
        agree(ctx, ens[::-1], fresh(3, pad, now, pts, (2, 1, 0)), pts, msg)
    elif how == "mask":
        agree(ctx, ens[np.array([True, False, True])], fresh(2, pad, now, pts, (0, 2)), pts, msg)
    elif how == "file":
        path = os.path.join(os.environ["QPMC_SCRATCH"], "c14-%i.hdf5" % os.getpid())
        if os.path.exists(path):
            os.unlink(path)
        ens.write_to(path)
        back = qp.read(path)
        agree(ctx, back, fresh(3, pad, now, pts), pts, msg)
        other = KINDS[(KINDS.index(now) + 1) % 4]
        back.dist.pdf_constructor_name = other
        agree(ctx, back, fresh(3, pad, other, pts), pts, msg + " then %s" % other)
        agree(ctx, ens, fresh(3, pad, now, pts), pts, msg + ", original")
    elif how == "tables":
        agree(ctx, qp.from_tables(ens.build_tables()), fresh(3, pad, now, pts), pts, msg)
    elif how == "concatenate":
        agree(ctx, qp.concatenate([ens[2:], ens[:2]]), fresh(3, pad, now, pts, (2, 0, 1)), pts, msg)
        other = KINDS[(KINDS.index(now) + 1) % 4]
        odd = qp.Ensemble(qp.quant, data=dict(pdf_constructor_name=other, **data_of(2, pad)))
        ctx.check(raises(qp.concatenate, [ens, odd]) is not None, "%s: ensembles with different reconstructions are concatenated" % msg)
    elif how == "update":
        ens.update_objdata(dict(locs=np.array(ens.objdata()["locs"])[::-1].copy()))
        agree(ctx, ens, fresh(3, pad, now, pts, (2, 1, 0)), pts, msg)
    elif how == "split":
        # a selection of an ensemble that is switched later keeps its own
        part = ens[:2]
        other = KINDS[(KINDS.index(now) + 1) % 4]
        ens.dist.pdf_constructor_name = other
        agree(ctx, part, fresh(2, pad, now, pts, (0, 1)), pts, msg)
        part.dist.pdf_constructor_name = KINDS[(KINDS.index(now) + 2) % 4]
        agree(ctx, ens, fresh(3, pad, other, pts), pts, msg)
    if how != "update":
        agree(ctx, ens, fresh(3, pad, ens.dist.pdf_constructor_name, pts), pts, msg + ", original")


def names(ctx):
    """names as text, bytes or arrays; unknown names are rejected"""
    kind = ctx.choose("reconstruction", KINDS)
    form = ctx.choose("form", [str, str.encode, lambda v: np.array([v.encode()]), lambda v: np.array([v])])
    pts = np.array([0.3, 0.55, 0.9])
    ens = qp.Ensemble(qp.quant, data=dict(pdf_constructor_name=form(kind), **data_of(2, False)))
    ctx.step(2)
    ctx.check(ens.dist.pdf_constructor_name == kind, "name %r" % (ens.dist.pdf_constructor_name,))
    agree(ctx, ens, fresh(2, False, kind, pts), pts, kind)
    for bad in BAD[:4]:
        ctx.check(raises(lambda b=bad: qp.Ensemble(qp.quant, data=dict(pdf_constructor_name=b, **data_of(2, False)))) is not None, "an ensemble with the reconstruction %r can be made" % bad)
    ctx.state(kind, ctx.choices[1])


HARNESSES = dict(padding=padding, types=types, nodes=nodes, direct=direct, switching=switching, derived=derived, names=names)
BOUNDS = dict(
    quick="50 sets of inner levels x 4 lower x 4 upper ends x 1-3 PDFs; 4 reconstructions x 2-3 numbers of levels x 4 paddings x 3 spacings x 27 gap patterns x 1-3 frames; all sequences of up to 3 switches over 4 valid and up to 5 invalid names from each of 5 starts; 6 types of locations x 3 of levels",
    thorough="as quick with sequences of up to 4 switches, every interleaving of evaluations, all frames",
)
ASSUMPTIONS = ["between the nodes cdf and ppf are a quadratic interpolation that is only specified at the nodes", "the densities are reconstructions, not normalised (stated in quant_pdf.py)"]
