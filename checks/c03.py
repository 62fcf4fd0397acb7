"""C03: the value of PDF i at the j-th argument does not depend on the other PDFs, arguments or the arrangement

Oracle: the PDF alone, one value at a time.  Explored: all sequences of arguments over an alphabet that holds unsorted,
repeated, outside and not-a-number values, all per-PDF matrices of arguments, all lists of (row, argument) pairs.
"""

import itertools

import numpy as np
import qp
from mc import fix, util
from mc.util import same

PROPERTY = "C03"
LEVEL = "model_checking"
NAN = float("nan")
INF = float("inf")
KINDS = ["pdf", "cdf", "ppf"]
_ALONE = {}


def alphabet(f, kind, size):
    if kind in ("ppf", "isf"):
        qs = [0.8125, 0.3, NAN, 0.0, 1.0, 0.5, 1.5]
        return qs[:size]
    pts = sorted(f.inside())
    mid = [0.5 * (a + b) for a, b in zip(pts, pts[1:])]
    inner = mid[1:-1] or mid
    if f.cls == "spline":
        out = [inner[-1], inner[0], NAN, pts[2], pts[-1], inner[1], pts[1]]
    else:
        out = [inner[-1], inner[0], NAN, pts[0], pts[2], INF, pts[-1]]
    return out[:size]


def alone(f, kind, i, x):
    """PDF i alone at the value x"""
    key = (f.name, kind, i, repr(x))
    if key not in _ALONE:
        ens = _ALONE.get((f.name, i))
        if ens is None:
            whole = fix.make(f.name, i + 1)
            data = dict(whole.data)
            for k in whole.per_row:
                data[k] = data[k][i : i + 1]
            one = fix.Fix(f.name, f.cls, data, whole.refs[i:], f.xs)
            ens = _ALONE[(f.name, i)] = one.ens()
        with np.errstate(all="ignore"):
            v = np.asarray(getattr(ens, kind)(x))
        assert v.size == 1
        _ALONE[key] = float(v.ravel()[0])
    v = _ALONE[key]
    if f.name == "irreg" and kind == "ppf" and x in (0.0, 1.0):
        # documented to be the ends of the whole ensemble
        return f.refs[0].ends[int(x)]
    return v


def tol(f, kind):
    if f.cls == "spline":
        return 1e-6, 1e-6
    return 1e-9, 1e-10


def compare(ctx, f, kind, got, rows, pts, what):
    rtol, atol = tol(f, kind) if what != "float32" else (1e-5, 1e-5)
    want = np.array([[alone(f, kind, r, x) for x in p] for r, p in zip(rows, pts)])
    same(ctx, got, want, "%s of %s (%i PDFs), %s" % (kind, f.name, f.npdf, what), rtol, atol)


def slow(f, kind):
    return f.cls == "spline" and kind in ("ppf", "isf")


def sequences(ctx):
    """one list of arguments for all PDFs"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    kind = ctx.choose("function", KINDS + (["sf", "isf", "logcdf"] if ctx.thorough else []))
    n = ctx.choose("length", [1, 2, 3, 4] if not slow(f, kind) else [1, 2, 3])
    size = {1: 7, 2: 7, 3: 5, 4: 4}[n] if not ctx.thorough else {1: 7, 2: 7, 3: 7, 4: 6}[n]
    if slow(f, kind):
        size = {1: 7, 2: 4, 3: 3}[n]
    abc = alphabet(f, kind, size)
    first = ctx.choose("first", abc)
    ens = f.ens()
    with np.errstate(all="ignore"):
        for rest in itertools.product(abc, repeat=n - 1):
            seq = [first] + list(rest)
            ctx.state(f.name, f.npdf, kind, repr(seq))
            got = getattr(ens, kind)(np.array(seq))
            ctx.step()
            compare(ctx, f, kind, got, range(f.npdf), [seq] * f.npdf, "arguments %s" % seq)


def matrices(ctx):
    """one list of arguments per PDF"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    kind = ctx.choose("function", KINDS)
    n = ctx.choose("length", [1, 2] if f.npdf == 3 else [1, 2, 3])
    if slow(f, kind) and f.npdf * n > 3:
        return
    size = {1: 7, 2: 6, 3: 5, 4: 4, 6: 3}[f.npdf * n]
    if ctx.thorough:
        size = min(7, size + 1)
    abc = alphabet(f, kind, size)
    first = ctx.choose("first", abc)
    ens = f.ens()
    with np.errstate(all="ignore"):
        for rest in itertools.product(abc, repeat=f.npdf * n - 1):
            m = np.array([first] + list(rest)).reshape(f.npdf, n)
            ctx.state(f.name, kind, repr(m.tolist()))
            got = getattr(ens, kind)(m)
            ctx.step()
            compare(ctx, f, kind, got, range(f.npdf), m.tolist(), "arguments per PDF %s" % m.tolist())


def pairs(ctx):
    """arbitrary lists of (row, argument) pairs"""
    f = fix.make(ctx.choose("representation", fix.ROWS), ctx.choose("npdf", [2, 3]))
    kind = ctx.choose("function", KINDS)
    if slow(f, kind):
        return
    n = ctx.choose("pairs", [1, 2, 3, 4])
    size = 3 if n < 4 and not (n == 3 and f.npdf == 3 and not ctx.thorough) else 2
    abc = list(itertools.product(range(f.npdf), alphabet(f, kind, size)))
    if n == 4 and f.npdf == 3 and not ctx.thorough:
        return
    first = ctx.choose("first", abc)
    ens = f.ens()
    with np.errstate(all="ignore"):
        for rest in itertools.product(abc, repeat=n - 1):
            seq = [first] + list(rest)
            rows = [r for r, _ in seq]
            xs = [x for _, x in seq]
            ctx.state(f.name, kind, repr(seq))
            got = getattr(ens.dist, kind)(np.array(xs), np.array(rows))
            ctx.step()
            rtol, atol = tol(f, kind)
            want = np.array([alone(f, kind, r, x) for r, x in seq])
            same(ctx, np.asarray(got).reshape(-1), want, "%s of %s, pairs %s" % (kind, f.name, seq), rtol, atol)


def forms(ctx):
    """the same arguments given as scalar, list, tuple, other number types, other shapes; rows in all orders"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3, 4]))
    kind = ctx.choose("function", KINDS + ["sf", "logpdf", "logcdf"])
    form = ctx.choose("form", ["scalar", "numpy scalar", "0-d", "list", "tuple", "row", "column", "strided", "reversed view", "fortran", "float32", "big endian"])
    abc = [x for x in alphabet(f, kind, 5 if f.cls == "spline" else 7)]
    if kind == "logpdf" and f.cls == "spline":
        abc = abc[:2]
    ens = f.ens()
    fun = getattr(ens, kind)
    with np.errstate(all="ignore"):
        if form in ("scalar", "numpy scalar", "0-d"):
            for x in abc:
                arg = dict(zip(("scalar", "numpy scalar", "0-d"), (x, np.float64(x), np.array(x))))[form]
                compare(ctx, f, kind, fun(arg), range(f.npdf), [[x]] * f.npdf, "%s %r" % (form, x))
                ctx.step()
            return
        if form == "float32":
            abc = [x for x in abc if x != x or float(np.float32(x)) == x]
        if not abc:
            return
        a = np.array(abc)
        per = False
        if form == "list":
            arg = abc
        elif form == "tuple":
            arg = tuple(abc)
        elif form == "row":
            arg = a.reshape(1, -1)
        elif form == "column":
            # one argument per PDF
            arg = np.array([[abc[i % len(abc)]] for i in range(f.npdf)])
            per = True
        elif form == "strided":
            arg = np.repeat(a, 3)[::3]
        elif form == "reversed view":
            arg = a[::-1][::-1]
        elif form == "fortran":
            arg = np.asfortranarray(np.array([abc[i:] + abc[:i] for i in range(f.npdf)]))
            per = True
        elif form == "float32":
            arg = a.astype("f4")
        else:
            arg = a.astype(">f8")
        pts = arg.tolist() if per else [abc] * f.npdf
        compare(ctx, f, kind, fun(arg), range(f.npdf), pts, form)
        ctx.step()


def sizes(ctx):
    """all numbers of PDFs and arguments up to 6 (coincidences of sizes), and large ones"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3, 4, 5, 6, 120]))
    kind = ctx.choose("function", KINDS)
    if slow(f, kind) and f.npdf > 6:
        return
    n = ctx.choose("length", [1, 2, 3, 4, 5, 6, 9, 10, 17] + ([300] if f.npdf == 120 or ctx.thorough else []))
    if slow(f, kind) and n * f.npdf > 20:
        return
    if f.npdf == 120 and n in (3, 4, 5, 6, 9, 10) and not ctx.thorough:
        return
    order = ctx.choose("order", ["ascending", "descending", "repeated", "with outside"] if n in (f.npdf, f.npdf + 1, 300) or ctx.thorough else ["repeated", "with outside"])
    per = ctx.flag("per PDF")
    if n == 300 and f.npdf == 120:
        if (f.cls == "spline" and kind != "pdf") or per or order in ("descending", "repeated"):
            return
    if kind == "ppf":
        base = [(j + 0.5) / n for j in range(n)]
    else:
        pts = sorted(f.inside())
        lo, hi = (pts[0], pts[-1])
        base = [lo + (hi - lo) * (j + 0.37) / n for j in range(n)]
    if order == "descending":
        base = base[::-1]
    elif order == "repeated":
        base = [base[j // 2] for j in range(n)]
    elif order == "with outside":
        base[n // 2] = NAN
    ens = f.ens()
    ctx.state(f.name, f.npdf, kind, n, order, per)
    with np.errstate(all="ignore"):
        if per:
            m = [[base[(j + i) % n] for j in range(n)] for i in range(f.npdf)]
        else:
            m = [base] * f.npdf
        got = getattr(ens, kind)(np.array(m) if per else np.array(base))
    ctx.step()
    if f.npdf == 120:
        rows = [0, 1, 57, 119]
        ctx.check(np.shape(got) == (120, n), "shape %s" % (np.shape(got),))
        cols = sorted({0, 1, n // 3, n // 2, n - 1}) if n > 20 else range(n)
        compare(ctx, f, kind, got[rows][:, list(cols)], rows, [[m[r][c] for c in cols] for r in rows], "120 PDFs, %i arguments" % n)
    else:
        compare(ctx, f, kind, got, range(f.npdf), m, "%i arguments, %s" % (n, order))


def neighbours(ctx):
    """a PDF keeps its values whatever the other PDFs of the ensemble are, in all orders"""
    name = ctx.choose("representation", fix.ALL)
    whole = fix.make(name, 4)
    rows = ctx.choose("rows", [p for n in (1, 2, 3) for p in itertools.product(range(4), repeat=n)])
    data = dict(whole.data)
    for k in whole.per_row:
        data[k] = data[k][list(rows)]
    f = fix.Fix(name, whole.cls, data, [whole.refs[r] for r in rows], whole.xs)
    ens = f.ens()
    for kind in KINDS:
        abc = [x for x in alphabet(whole, kind, 7)]
        if slow(f, kind):
            abc = abc[:2]
        if f.name == "irreg" and kind == "ppf":
            abc = [q for q in abc if q not in (0.0, 1.0)]
        with np.errstate(all="ignore"):
            got = getattr(ens, kind)(np.array(abc))
            compare(ctx, f, kind, got, rows, [abc] * len(rows), "rows %s" % (rows,))
        ctx.step()
    ctx.state(name, rows)


def splines_from_points(ctx):
    """splines through points with a different range per row"""
    rng = [(0.0, 3.0), (0.0, 1.0), (-2.0, 6.0), (2.5, 4.0)]
    rows = ctx.choose("ranges", [p for n in (1, 2, 3) for p in itertools.permutations(range(4), n)])
    n = ctx.choose("points", [4, 6, 9])

    def pts(r):
        lo, hi = rng[r]
        return [lo + (hi - lo) * j / (n - 1) for j in range(n)], [1.0 + fix.num(r, j) - (j - (n - 1) / 2) ** 2 / n**2 for j in range(n)]

    data = [pts(r) for r in rows]
    ens = qp.Ensemble(qp.spline_from_xy, data=dict(xvals=np.array([d[0] for d in data]), yvals=np.array([d[1] for d in data])))
    for i, r in enumerate(rows):
        one = qp.Ensemble(qp.spline_from_xy, data=dict(xvals=np.array([data[i][0]]), yvals=np.array([data[i][1]])))
        lo, hi = rng[r]
        xs = np.linspace(lo, hi, 7)
        same(ctx, ens.pdf(xs)[i], one.pdf(xs)[0], "pdf of spline %i of %s" % (i, rows), 1e-7, 1e-9)
        same(ctx, ens.cdf(xs)[i], one.cdf(xs)[0], "cdf of spline %i of %s" % (i, rows), 1e-7, 1e-9)
        ctx.check(abs(float(ens.cdf(hi)[i, 0]) - 1) < 1e-6, "cdf of spline %i of %s does not end at 1" % (i, rows))
        ctx.step(5)
    ctx.state(rows, n)


LEVELS = [1e-300, 1e-17, 1e-12, 0.01, 0.05, 0.5, 0.95, 0.99, 1 - 1e-12, 1 - 1e-15, float(np.nextafter(1.0, 0.0))]


def outermost(ctx):
    """levels next to 0 and 1, and beyond the outermost stored level, for PDFs with supports far apart"""
    what = ctx.choose("representation", ["irregular", "irregular as given", "quantiles", "quantiles as given", "mixture", "spline", "grid", "histogram"])
    rows = ctx.choose("rows", [p for n in (1, 2, 3) for p in itertools.permutations(range(4), n)])
    variant = ctx.choose("values", list(range(6 if ctx.thorough else 3)))
    off = [0.0, 10.0, -7.0, 3.5]
    num = lambda r, j: fix.num(r + 5 * variant, j) + 0.0137 * ((r * 7 + j * 3 + variant * 11) % 13)
    levels = LEVELS

    def one(r):
        x = np.cumsum([0.1 + num(r, j + 5) for j in range(5)]) + off[r]
        return x, np.array([num(r, j) for j in range(5)])

    xs, ys = np.array([one(r)[0] for r in rows]), np.array([one(r)[1] for r in rows])
    if what.startswith("irregular"):
        given = what.endswith("given")
        # a grid taken as given ends below one
        area = np.trapz(ys, x=xs, axis=1)[:, None]
        cls, data, per = qp.interp_irregular, dict(xvals=xs, yvals=ys / area * 0.75 if given else ys), ("xvals", "yvals")
        data.update(dict(check_input=False) if given else {})
    elif what.startswith("quantiles"):
        kind = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"][variant % 4]
        cls, data, per = qp.quant, dict(quants=np.array([0.1, 0.3, 0.5, 0.8, 0.9]), locs=xs, pdf_constructor_name=kind), ("locs",)
        data.update(dict(check_input=False) if what.endswith("given") else {})
    elif what == "mixture":
        cls, data, per = qp.mixmod, dict(means=xs[:, :2], stds=0.1 + ys[:, :2], weights=ys[:, 2:4] + 0.1), ("means", "stds", "weights")
    elif what == "spline":
        y = 0.25 + ys * 0.1
        cls, data, per = qp.spline_from_xy, dict(xvals=xs, yvals=y), ("xvals", "yvals")
        levels = LEVELS[3:8]
    elif what == "grid":
        cls, data, per = qp.interp, dict(xvals=np.array([-2.0, 0.0, 0.5, 1.25, 2.0]), yvals=ys), ("yvals",)
    else:
        cls, data, per = qp.hist, dict(bins=np.array([-2.0, 0.0, 0.5, 1.25, 2.0, 4.0]), pdfs=ys), ("pdfs",)
    ens = qp.Ensemble(cls, data={k: np.array(v) for k, v in data.items()})
    alone_ = [qp.Ensemble(cls, data={k: np.array(v[i : i + 1]) if k in per else v for k, v in data.items()}) for i in range(len(rows))]
    fun = ctx.choose("function", ["ppf", "isf"])
    t = 1e-5 if what == "spline" else 1e-9
    got = getattr(ens, fun)(np.array(levels))
    want = np.array([getattr(a, fun)(np.array(levels))[0] for a in alone_])
    same(ctx, got, want, "%s of %s %s at %s" % (fun, what, rows, levels), t, t)
    same(ctx, getattr(ens, fun)(np.array([levels] * len(rows))), want, "%s of %s %s, levels per PDF" % (fun, what, rows), t, t)
    for q, w in zip(levels, want.T):
        same(ctx, np.ravel(getattr(ens, fun)(q)), w, "%s(%r) of %s %s" % (fun, q, what, rows), t, t)
    ctx.step(2 + len(levels))
    ctx.state(what, rows, variant, fun)


HARNESSES = {f.__name__: f for f in (outermost, sequences, matrices, pairs, forms, sizes, neighbours, splines_from_points)}
BOUNDS = dict(
    quick="24 fixtures x 1-3 PDFs x pdf/cdf/ppf: all argument sequences of length 1-2 (7 letters), 3 (5), 4 (4); all per-PDF matrices up to 3x2/2x3; all lists of up to 4 (row, argument) pairs; 12 forms of the arguments; all sizes up to 6x17 and 120x300; all 84 selections with repetition of up to 3 of 4 rows; 11 levels from 1e-300 to 1-1e-16 for all orders of up to 3 of 4 PDFs with supports apart",
    thorough="more letters (7 for length 3, 6 for length 4), sf, isf and logcdf",
)
ASSUMPTIONS = ["ppf(0) and ppf(1) of irregular grids are those of the whole ensemble, as documented", "equal up to rounding (1e-9)"]
