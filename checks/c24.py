"""C24: the helper functions for many rows work element by element

Oracle: each function written down for one row and one argument, in plain Python (scipy's interp1d on one row for the kinds of
interpolation that are not linear).  Explored: all lists of (row, argument) pairs up to length 4, all rows x arguments in the
four arrangements the functions recognise, all small sets of bins; dictionaries with every single value changed.
"""

import itertools
import math

import numpy as np
from mc.util import exact, raises, same
from qp import dict_utils, utils
from scipy.interpolate import interp1d

PROPERTY = "C24"
LEVEL = "model_checking"
NAN = float("nan")
GRIDS = dict(even=[0.0, 0.5, 1.0, 1.5], uneven=[-1.0, 0.25, 0.5, 2.0], far=[1e6, 1e6 + 0.5, 1e6 + 2.0], two=[0.0, 2.0], scaled=[1e-9, 2e-9, 4e-9, 5e-9])
FUNCTIONS = ["evaluate_hist_x_multi_y", "evaluate_hist_multi_x_multi_y", "interpolate_x_multi_y", "interpolate_multi_x_multi_y", "interpolate_multi_x_y"]


def cells(grid):
    """arguments off the edges: outside, in each cell"""
    span = grid[-1] - grid[0]
    return [grid[0] - 0.5 * span] + [a + t * (b - a) for a, b in zip(grid, grid[1:]) for t in (0.25, 0.75)] + [grid[-1] + 0.25 * span]


def tables(name, grid, nrow):
    """rows of x and y values"""
    n = len(grid)
    ny = n - 1 if name.startswith("evaluate") else n
    xs = [[v + i * 0.03 * (grid[-1] - grid[0]) for v in grid] for i in range(nrow)]
    ys = [[((5 * i + 3 * j + i * j) % 7 + 1) / 4 for j in range(ny)] for i in range(nrow)]
    if name in ("evaluate_hist_x_multi_y", "interpolate_x_multi_y"):
        xs = [list(grid)] * nrow
    if name == "interpolate_multi_x_y":
        ys = [ys[1 % nrow]] * nrow
    return xs, ys


def value(name, x, xs, ys, ds, kind, fill):
    """one row, one argument"""
    if math.isnan(x):
        return NAN
    if name.startswith("evaluate"):
        for j, (a, b) in enumerate(zip(xs, xs[1:])):
            if a < x < b:
                return ys[j] + (0.0 if ds is None else ds[j] * (x - a))
        return 0.0
    if x < xs[0] or x > xs[-1]:
        return fill[0] if x < xs[0] else fill[1]
    if kind != "linear":
        return float(interp1d(xs, ys, kind=kind)(x))
    for j, (a, b) in enumerate(zip(xs, xs[1:])):
        if a <= x <= b:
            return ys[j] + (ys[j + 1] - ys[j]) * (x - a) / (b - a)


def call(name, x, row, xs, ys, ds, kind, fill):
    xv = np.array(xs[0]) if name in ("evaluate_hist_x_multi_y", "interpolate_x_multi_y") else np.array(xs)
    yv = np.array(ys[0]) if name == "interpolate_multi_x_y" else np.array(ys)
    fun = getattr(utils, name)
    if name.startswith("evaluate"):
        return fun(x, row, xv, yv) if ds is None else fun(x, row, xv, yv, derivs=np.array(ds))
    kw = dict(bounds_error=False, fill_value=fill if fill[0] != fill[1] else fill[0])
    if kind != "linear":
        kw["kind"] = kind
    return fun(x, row, xv, yv, **kw)


def options(ctx, names=FUNCTIONS):
    name = ctx.choose("function", names)
    gname = ctx.choose("grid", list(GRIDS))
    grid = GRIDS[gname]
    kind, fill, derivs = "linear", (0.0, 0.0), False
    if name.startswith("evaluate"):
        derivs = ctx.flag("derivatives")
    else:
        kind = ctx.choose("kind", ["linear", "quadratic", "nearest", "previous"])
        fill = ctx.choose("fill", [(0.0, 0.0), (0.0, 1.0)])
        if kind == "quadratic" and len(grid) < 4:
            kind = "linear"
    return name, gname, grid, kind, fill, derivs


def compare(ctx, name, x, row, pairs, tabs, kind, fill, msg):
    xs, ys, ds = tabs
    with np.errstate(all="ignore"):
        got = call(name, x, row, xs, ys, ds, kind, fill)
    ctx.step()
    want = [value(name, v, xs[r], ys[r], None if ds is None else ds[r], kind, fill) for r, v in pairs]
    ctx.check(np.size(got) == len(want), "%s: %i values instead of %i" % (msg, np.size(got), len(want)))
    same(ctx, np.ravel(got), want, msg, 1e-7, 1e-9)


def flat(ctx):
    """lists of (row, argument) pairs"""
    name, gname, grid, kind, fill, derivs = options(ctx)
    xs, ys = tables(name, grid, 3)
    ds = [[0.5 * (j + 1) - i for j in range(len(grid) - 1)] for i in range(3)] if derivs else None
    pts = cells(grid)
    alph = [pts[1], pts[-2], pts[0]]
    if kind == "nearest":
        alph = [pts[1], pts[2], pts[-1]]
    combos = list(itertools.product(range(3), alph))
    depth = 4 if ctx.thorough else 3
    for n in range(1, depth + 1):
        for pairs in itertools.product(combos, repeat=n):
            if n == depth and not ctx.thorough and kind != "linear" and pairs[0][0] != 1:
                continue
            ctx.state(name, gname, kind, fill, derivs, pairs)
            compare(ctx, name, np.array([p[1] for p in pairs]), np.array([p[0] for p in pairs]), pairs, (xs, ys, ds), kind, fill, "%s(%s), %s grid, %s" % (name, pairs, gname, kind))
    # longer lists that nearly are a product of rows and arguments
    for rows in ([0, 1], [1, 0, 2], [2, 2], [0, 1, 0]):
        for m in (2, 3):
            base = [(r, alph[j]) for r in rows for j in range(m)]
            variants = [base, base[::-1], base[1:], base + [base[0]]]
            for k in range(len(base)):
                variants.append(base[:k] + [((base[k][0] + 1) % 3, base[k][1])] + base[k + 1 :])
                variants.append(base[:k] + [(base[k][0], pts[3 % len(pts)])] + base[k + 1 :])
            # arguments first
            variants.append([(r, alph[j]) for j in range(m) for r in rows])
            for pairs in variants:
                ctx.state(name, gname, kind, fill, derivs, tuple(pairs))
                compare(ctx, name, np.array([p[1] for p in pairs]), np.array([p[0] for p in pairs]), pairs, (xs, ys, ds), kind, fill, "%s(%s), %s grid, %s" % (name, pairs, gname, kind))


def arranged(ctx):
    """rows x arguments as product, one list per row, and with rows in two dimensions"""
    name, gname, grid, kind, fill, derivs = options(ctx)
    xs, ys = tables(name, grid, 4)
    ds = [[0.5 * (j + 1) - i for j in range(len(grid) - 1)] for i in range(4)] if derivs else None
    pts = cells(grid)
    tabs = (xs, ys, ds)
    rowlists = [[0], [2], [0, 1], [1, 0], [3, 3], [0, 1, 2], [2, 0, 3], [0, 1, 2, 3]]
    for rows in rowlists:
        n = len(rows)
        for m in (1, 2, 3, 4, 5):
            for k in range(len(pts) if ctx.thorough else 3):
                x = [pts[(k + 2 * j) % len(pts)] for j in range(m)]
                msg = "%s of rows %s at %s, %s grid, %s" % (name, rows, x, gname, kind)
                ctx.state(name, gname, kind, fill, derivs, tuple(rows), m, k)
                col = np.array(rows)[:, None]
                compare(ctx, name, np.array(x), col, [(r, v) for r in rows for v in x], tabs, kind, fill, msg + " as product")
                per = [[pts[(k + i + 2 * j) % len(pts)] for j in range(m)] for i in range(n)]
                compare(ctx, name, np.array(per), col, [(r, v) for r, p in zip(rows, per) for v in p], tabs, kind, fill, msg + " one list per row %s" % per)
                if n == 4:
                    for shape in ((2, 2), (4, 1), (1, 4), (2, 1, 2)):
                        compare(ctx, name, np.array(per).reshape(shape + (m,)), col.reshape(shape + (1,)), [(r, v) for r, p in zip(rows, per) for v in p], tabs, kind, fill, msg + " one list per row, %s rows" % (shape,))
    for r in range(4):
        x = [pts[j % len(pts)] for j in range(5)]
        compare(ctx, name, np.array(x), np.array([r]), [(r, v) for v in x], tabs, kind, fill, "%s of row %i at %s" % (name, r, x))
        compare(ctx, name, np.array([x[1]]), np.array([r]), [(r, x[1])], tabs, kind, fill, "%s of row %i at %s" % (name, r, x[1]))


WIDTHS = [1.0, 0.5, 3.0, 1.0001]


def bins(ctx):
    """the bin of each value, bin centres and widths"""
    n = ctx.choose("bins", [1, 2, 3] if not ctx.thorough else [1, 2, 3, 4])
    lo = ctx.choose("lower end", [0.0, -2.0, 1e5])
    scale = ctx.choose("scale", [1.0, 1e-8, 1e4])
    for widths in itertools.product(WIDTHS, repeat=n):
        edges = [lo * scale]
        for w in widths:
            edges.append(edges[-1] + w * scale)
        b = np.array(edges)
        real = [q - p for p, q in zip(edges, edges[1:])]
        same(ctx, utils.bin_widths(b), real, "widths of %s" % edges, 1e-12)
        same(ctx, utils.edge_to_center(b), [0.5 * (p + q) for p, q in zip(edges, edges[1:])], "centres of %s" % edges, 1e-12)
        m = np.array([edges, [2 * v for v in edges]]).T
        same(ctx, utils.bin_widths(m), np.array([real, [2 * v for v in real]]).T, "widths of several sets", 1e-12)
        pts, want = [], []
        for j, (p, q) in enumerate(zip(edges, edges[1:])):
            for t in (0.02, 0.5, 0.98):
                pts.append(p + t * (q - p))
                want.append(j)
        out = [edges[0] - 0.01 * scale, edges[0] - 3 * scale, edges[-1] + 0.01 * scale, edges[-1] + 100 * scale]
        for order in (pts + out, (pts + out)[::-1]):
            idx, mask = utils.get_bin_indices(b, np.array(order))
            ctx.step()
            ctx.state(tuple(edges), order[0])
            for v, i, k in zip(order, idx, mask):
                ctx.check(bool(k) == (v in pts), "%r is %sinside of %s" % (v, "" if k else "not ", edges))
                ctx.check(0 <= i < n, "bin %s of %r in %s" % (i, v, edges))
                if v in pts:
                    ctx.check(int(i) == want[pts.index(v)], "%r is in bin %s of %s" % (v, i, edges))
        grid = np.array((pts + out)[: 2 * ((len(pts) + 4) // 2)]).reshape(2, -1)
        idx, mask = utils.get_bin_indices(b, grid)
        flat_idx, flat_mask = utils.get_bin_indices(b, grid.ravel())
        exact(ctx, idx, np.reshape(flat_idx, grid.shape), "bins of a table of values")
        exact(ctx, mask, np.reshape(flat_mask, grid.shape), "mask of a table of values")
        one, ok = utils.get_bin_indices(b, pts[0])
        ctx.check(np.shape(one) == () and int(one) == 0 and bool(ok), "bin of the number %r in %s" % (pts[0], edges))


def profile(ctx):
    """means and errors of the values in each bin"""
    edges = ctx.choose("bins", [[0.0, 1.0], [0.0, 1.0, 2.0], [0.0, 0.5, 2.0, 2.5], [-1.0, 1.0, 1.5]])
    n = ctx.choose("values", [1, 2, 3, 4])
    std = ctx.choose("std", [True, False, None])
    alph = [(-3.0, 1.0), (0.25, 2.0), (0.75, -1.0), (1.25, 4.0), (2.25, 0.5), (9.0, 7.0)]
    for data in itertools.product(alph, repeat=n):
        x, y = np.array([d[0] for d in data]), np.array([d[1] for d in data]) + 0.125 * np.arange(n)
        with np.errstate(all="ignore"):
            vals, errs = utils.profile(x, y, np.array(edges), **({} if std is None else dict(std=std)))
        ctx.step()
        ctx.state(tuple(edges), data, std)
        want_v, want_e = [], []
        for p, q in zip(edges, edges[1:]):
            sel = [float(b) for a, b in zip(x, y) if p < a < q]
            if not sel:
                want_v.append(NAN)
                want_e.append(NAN)
                continue
            mean = math.fsum(sel) / len(sel)
            sd = math.sqrt(math.fsum((v - mean) ** 2 for v in sel) / len(sel))
            want_v.append(mean)
            want_e.append(sd if std is not False else sd / math.sqrt(len(sel)))
        msg = "profile of %s, %s in %s, std %s" % (x, y, edges, std)
        same(ctx, vals, want_v, msg + ": means")
        same(ctx, errs, want_e, msg + ": errors", 1e-9, 1e-9)


def rows(ctx):
    """normalisation, logarithms, kernel estimates and shapes of tables of rows"""
    what = ctx.choose("function", ["normalize_interp1d", "safelog", "kdes", "reshape"])
    n = ctx.choose("rows", [1, 2, 3])
    if what == "normalize_interp1d":
        for grid in GRIDS.values():
            for ys in itertools.product([0.0, 1.0, 2.5], repeat=len(grid)):
                if sum(ys) == 0 or (len(ys) > 3 and not ctx.thorough and ys[0] == 1.0):
                    continue
                tab = [[v * (1 + i) + 0.25 * i * j for j, v in enumerate(ys)] for i in range(n)]
                for per_row in (False, True):
                    xs = [[g + 0.5 * i * (grid[-1] - grid[0]) + (j * i * 0.125) * (grid[-1] - grid[0]) for j, g in enumerate(grid)] for i in range(n)] if per_row else [grid] * n
                    keep = np.array(tab)
                    got = utils.normalize_interp1d(np.array(xs) if per_row else np.array(grid), keep)
                    ctx.step()
                    ctx.state(what, tuple(grid), ys, n, per_row)
                    exact(ctx, keep, tab, "the values given to normalize_interp1d")
                    want = []
                    for x, y in zip(xs, tab):
                        area = math.fsum(0.5 * (b - a) * (u + v) for a, b, u, v in zip(x, x[1:], y, y[1:]))
                        want.append([v / area for v in y])
                    same(ctx, got, want, "normalize_interp1d(%s, %s)" % (xs, tab), 1e-7)
    elif what == "safelog":
        eps = float(np.finfo(float).eps)
        for vals in itertools.product([0.0, -1.0, 1.0, 2.5, 1e-20, 1e300], repeat=n):
            for thr in (None, 1e-3, 1e-30):
                got = utils.safelog(np.array(vals)) if thr is None else utils.safelog(np.array(vals), threshold=thr)
                ctx.step()
                ctx.state(what, vals, thr)
                same(ctx, got, [math.log(max(v, thr or eps)) for v in vals], "safelog(%s, %s)" % (vals, thr))
    elif what == "kdes":
        from scipy.stats import gaussian_kde

        samples = [[0.0, 0.5, 1.5, 2.0 + i, -1.0 * i] for i in range(n)]
        xs = [-1.0, 0.25, 0.5, 3.0]
        for kw in ({}, dict(bw_method=0.5), dict(bw_method="silverman"), dict(weights=[1.0, 2.0, 1.0, 0.5, 1.0])):
            for pick in itertools.product(range(n), repeat=min(n, 2)):
                kdes = utils.build_kdes(np.array([samples[i] for i in pick]), **kw)
                got = utils.evaluate_kdes(np.array(xs), kdes)
                ctx.step()
                ctx.state(what, str(kw), pick)
                same(ctx, got, [gaussian_kde(samples[i], **kw)(xs) for i in pick], "kernel estimates of %s with %s" % (pick, kw))
    else:
        for shape in itertools.product([1, 2, 3], repeat=n):
            for per in ([1], [2], [4], [2, 3]):
                vals = np.arange(float(np.prod(shape) * np.prod(per))).reshape(tuple(shape) + tuple(per))
                got = utils.reshape_to_pdf_size(vals, -len(per))
                ctx.step()
                ctx.state(what, shape, tuple(per))
                same(ctx, got, vals.reshape((-1,) + tuple(per)), "reshape_to_pdf_size of shape %s" % (vals.shape,))
                back = utils.reshape_to_pdf_shape(got, shape, per if len(per) > 1 else per[0])
                same(ctx, back, vals, "reshape_to_pdf_shape of shape %s" % (vals.shape,))


def entries(n, k):
    """dictionaries of columns"""
    return dict(
        a=np.array([1.5 + i + 10 * k for i in range(n)]),
        b=np.array([[i, 7 - i + k] for i in range(n)]).reshape(n, 2),
        s=np.array(["r%i%i" % (i, k) for i in range(n)]),
    )


def dictionaries(ctx):
    """slicing, stacking and comparing dictionaries of columns"""
    what = ctx.choose("function", ["slice", "concatenate", "compare", "shapes", "defaults"])
    n = ctx.choose("rows", [1, 2, 3])
    if what == "slice":
        d = entries(n, 0)
        d["number"], d["nothing"] = 3.5, None
        keys = list(range(-n, n)) + [slice(a, b, s) for a in (None, 0, 1, -1) for b in (None, 1, 2, -1) for s in (None, 1, 2, -1)] + [np.array(m) for m in itertools.product([True, False], repeat=n)] + [list(p) for k in (1, 2) for p in itertools.product(range(n), repeat=k)]
        for key in keys:
            got = dict_utils.slice_dict(d, key)
            ctx.step()
            ctx.state(what, n, str(key))
            ctx.check(set(got) == set(d), "slice_dict: keys %s" % sorted(got))
            ctx.check(got["number"] == 3.5 and got["nothing"] is None, "slice_dict changes entries that are no arrays")
            for k in ("a", "b", "s"):
                want = [d[k][i] for i in np.arange(n)[key]] if not isinstance(key, int) else d[k][key]
                same(ctx, got[k], np.array(want).reshape(np.shape(d[k][key])), "slice_dict %s of %s" % (k, key))
    elif what == "concatenate":
        for sizes in itertools.product([0, 1, 2], repeat=n):
            parts = [entries(m, k) for k, m in enumerate(sizes)]
            got = dict_utils.concatenate_dicts(parts)
            ctx.step()
            ctx.state(what, sizes)
            ctx.check(list(got) == list(parts[0]), "concatenate_dicts: keys %s" % sorted(got))
            for k in ("a", "b", "s"):
                want = [v for p in parts for v in p[k].tolist()]
                ctx.check(got[k].tolist() == want, "concatenate_dicts of %s rows, %s: %s instead of %s" % (sizes, k, got[k].tolist(), want))
            for j in range(n):
                for change in ("drop", "add"):
                    if n == 1:
                        continue
                    bad = [dict(p) for p in parts]
                    if change == "drop":
                        del bad[j]["b"]
                    else:
                        bad[j]["c"] = bad[j]["a"]
                    ctx.check(raises(dict_utils.concatenate_dicts, bad) is not None, "concatenate_dicts accepts different keys")
    elif what == "compare":
        base = dict(x=np.array([0.0, 1.0, 2.5]), m=np.array([[1.0, 2.0], [3.0, 4.0]]), small=np.array([1e-9, 3e-9]), kind="abc", v=3, one=np.array([2.0]))
        copies = lambda: {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in base.items()}
        changes = [("none", None)]
        for k, v in base.items():
            changes.append((k, "drop"))
            if isinstance(v, np.ndarray):
                changes += [(k, i) for i in range(v.size)] + [(k, "longer")]
            else:
                changes.append((k, "other"))
        for where in range(n):
            for k, c in changes:
                dicts = [copies() for _ in range(n)]
                if k != "none":
                    d = dicts[where]
                    if c == "drop":
                        del d[k]
                    elif c == "longer":
                        d[k] = np.concatenate([d[k], d[k][-1:]])
                    elif c == "other":
                        d[k] = d[k] * 2
                    else:
                        d[k].ravel()[c] += 0.01 * float(np.abs(d[k]).max())
                want = k == "none" or n == 1
                got = dict_utils.compare_dicts(dicts)
                ctx.step()
                ctx.state(what, n, where, k, c)
                ctx.check(bool(got) == want, "compare_dicts of %i dictionaries, %s of number %i changed (%s): %s" % (n, k, where, c, got))
    elif what == "shapes":
        ctx.check(raises(dict_utils.check_array_shapes, None, n) is None, "check_array_shapes of nothing")
        for m in (1, 2, 3, 4):
            d = entries(n, 0)
            err = raises(dict_utils.check_array_shapes, d, m)
            ctx.step()
            ctx.state(what, n, m)
            ctx.check((err is None) == (m == n), "check_array_shapes of %i rows for %i PDFs: %s" % (n, m, err))
            for k in ("a", "b", "s"):
                bad = entries(m, 0)
                bad[k] = entries(n, 0)[k]
                err = raises(dict_utils.check_array_shapes, bad, m)
                ctx.check((err is None) == (m == n), "check_array_shapes of %i rows with %i in %s: %s" % (m, n, k, err))
    else:
        for keys in itertools.product([None, "a", "b"], repeat=n):
            d = {k: "value of %s" % k for k in keys}
            for key in (None, "a", "b", "c"):
                want = d.get(key, d.get(None))
                got = dict_utils.get_val_or_default(d, key)
                ctx.step()
                ctx.state(what, keys, key)
                ctx.check(got == want, "get_val_or_default(%s, %s) is %s" % (d, key, got))
                e = dict(d)
                got = dict_utils.set_val_or_default(e, key, "new")
                ctx.check(got == d.get(key, "new") and e == {**d, key: d.get(key, "new")}, "set_val_or_default(%s, %s) gives %s, %s" % (d, key, got, e))


HARNESSES = {h.__name__: h for h in (flat, arranged, bins, profile, rows, dictionaries)}
BOUNDS = dict(
    quick="5 row-wise functions x 5 grids x kinds, fills and derivatives x all lists of up to 3 of 9 (row, argument) pairs and ~160 near-products of up to 9 pairs, all products and per-row arrangements of up to 4 rows x 5 arguments; all sets of up to 3 bins of 4 widths; all profiles of up to 4 of 6 points; dictionaries of 1-3 rows with every single change",
    thorough="lists of up to 4 pairs, 4 bins",
)
ASSUMPTIONS = ["which side of an edge belongs to a bin is not claimed", "scipy's interp1d of one row is right"]
