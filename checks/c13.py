"""C13: the sparse representation decodes what was encoded, for each PDF alone

Oracle: the dictionary, the codes and the matching pursuit written down again in plain form (least squares over the chosen
basis functions); the encoding of one PDF alone.
Explored: all (index, coefficient) codes within bounds, all dictionaries up to 3x3x3, all single basis functions, all pairs
and many triples of them, all orders of up to 3 PDFs in one ensemble.
"""

import contextlib
import io
import itertools

import numpy as np
import qp
from mc import fix
from mc.util import exact, same
from qp import conversion_funcs as cf
from qp import sparse_rep as sr

PROPERTY = "C13"
LEVEL = "model_checking"

_BASIS = {}
X17 = np.linspace(0.0, 2.0, 17)
X13 = np.linspace(-1.0, 2.0, 13)
# grid, mu, number of mu, sigma, number of sigma, number of gamma
DICTS = {
    "a": (X17, [0.0, 2.0], 5, [0.125, 0.5], 2, 2),
    "b": (X13, [-1.0, 2.0], 4, [0.2, 0.8], 2, 1),
    "c": (X17, [0.25, 1.75], 4, [0.1, 0.2], 2, 3),
}


def basis(name):
    """reference dictionary (points x functions)"""
    if name not in _BASIS:
        x, mu, nmu, sig, nsig, nv = DICTS[name]
        _BASIS[name] = np.array(fix.sparse_basis(x.tolist(), mu, sig, [nmu, nsig, nv])).T
    return _BASIS[name]


def trap(y, x):
    return float(np.sum(0.5 * np.diff(x) * (y[1:] + y[:-1])))


def decode(code):
    return int(code) // 65536, int(code) % 65536


def decoded(name, codes, cut=None):
    """the row of values the codes state, normalised"""
    b = basis(name)
    x = DICTS[name][0]
    y = np.zeros(len(x))
    for n, code in enumerate(codes):
        c, i = decode(code)
        y = y + b[:, i] * (1.0 if n == 0 else c / 32000.0)
    if cut is not None:
        y = np.where(y >= cut, y, 0.0)
    return y / trap(y, x)


def integers(ctx):
    """pairs of index and coefficient are combined and taken apart again"""
    part = ctx.choose("part", ["all coefficients", "all indices"])
    some_c = [0, 1, -1, 2, 255, 256, 31999, 32000, 32767, -32000, -32768]
    some_b = [0, 1, 2, 255, 256, 32767, 32768, 62499, 65534, 65535]
    if part == "all coefficients":
        coefs, bases = range(-32768, 32768), [ctx.choose("index", some_b)]
    else:
        coefs, bases = [ctx.choose("coefficient", some_c)], range(65536)
    ctx.step(2)
    for c in coefs:
        for b in bases:
            n = sr.combine_int(c, b)
            if sr.get_N(n) != (c, b) or n != c * 65536 + b:
                ctx.fail("(%i, %i) is combined to %i, which is taken apart to %s" % (c, b, n, sr.get_N(n)))
            ctx.traced()
    arr = sr.combine_int(np.array(list(coefs))[:, None], np.array(list(bases))[None, :])
    c, b = sr.get_N(arr)
    ctx.check(np.all(c == np.array(list(coefs))[:, None]) and np.all(b == np.array(list(bases))[None, :]), "arrays of pairs are not restored")
    ctx.state(part, coefs[0], bases[0], arr.shape)


def dictionary(ctx):
    """the dictionary has the stated function in each column, of length one"""
    nmu = ctx.choose("means", [1, 2, 3, 4])
    nsig = ctx.choose("widths", [1, 2, 3])
    nv = ctx.choose("gammas", [1, 2, 3])
    x = ctx.choose("grid", [X17, X13, np.array([0.0, 0.5, 1.0, 1.25, 2.0])])
    mu = ctx.choose("range of means", [[0.0, 1.5], [1.0, 1.0], [-0.5, 2.0]])
    sig = ctx.choose("range of widths", [[0.25, 0.5], [0.4, 0.4]])
    cut = ctx.choose("cut", [1e-5, 0.1, 0.0])
    got = sr.create_voigt_basis(x, mu, nmu, sig, nsig, nv, cut=cut)
    via = sr.create_basis(dict(xvals=x, mu=mu, sig=sig, dims=[nmu, nsig, nv, 32001, 3]), cut=cut)
    ctx.step(2)
    want = np.array(fix.sparse_basis(x.tolist(), mu, sig, [nmu, nsig, nv], cut)).T
    if cut == 1e-5:
        exact(ctx, sr.create_voigt_basis(x, mu, nmu, sig, nsig, nv), got, "dictionary with the default cut")
    same(ctx, got, want, "dictionary", 1e-10, 1e-14)
    exact(ctx, via, got, "dictionary from the metadata")
    ctx.state(got.tobytes())
    # parameters of each function, by its index
    codes = np.array([[(16000 << 16) | i, (8000 << 16) | (got.shape[1] - 1 - i)] for i in range(got.shape[1])])
    w, m, s, g = sr.indices2shapes(codes, dict(mu=mu, sig=sig, dims=[nmu, nsig, nv, 32001, 2]))
    lin = lambda a, b, n, i: a if n == 1 else a + (b - a) * i / (n - 1)
    for r, row in enumerate(codes):
        for k, code in enumerate(row):
            i = int(code) % 65536
            want = [1.0 if k == 0 else (int(code) // 65536) / 32000.0, lin(mu[0], mu[1], nmu, i // (nsig * nv)), lin(sig[0], sig[1], nsig, i // nv % nsig), lin(0, 0.5, nv, i % nv)]
            same(ctx, [w[r, k], m[r, k], s[r, k], g[r, k]], want, "parameters of basis function %i" % i, 1e-12, 1e-13)


def decoding(ctx):
    """ensembles are the combinations their codes state"""
    name = ctx.choose("dictionary", sorted(DICTS))
    x, mu, nmu, sig, nsig, nv = DICTS[name]
    nb = basis(name).shape[1]
    i = ctx.choose("first", list(range(nb)))
    c = ctx.choose("coefficient", [0, 1, 8000, 31999, 32000])
    first = ctx.choose("first coefficient", [32000, 20000])
    rows = [[(first << 16) | i, (c << 16) | j] + ([(4000 << 16) | k] if ctx.thorough else [(4000 << 16) | ((i + j) % nb)]) for j in range(nb) for k in (range(nb) if ctx.thorough else [0])]
    codes = np.array(rows)
    idx, val = sr.decode_sparse_indices(codes)
    exact(ctx, idx, np.array([[decode(v)[1] for v in r] for r in rows]), "decoded indices")
    same(ctx, val, np.array([[1.0] + [decode(v)[0] / 32000.0 for v in r[1:]] for r in rows]), "decoded coefficients", 1e-13, 0)
    ens = qp.Ensemble(qp.sparse, data=dict(xvals=x.copy(), mu=list(mu), sig=list(sig), dims=[nmu, nsig, nv, 32001, 3], sparse_indices=codes.copy()))
    got = np.asarray(ens.pdf(x))
    ctx.step(3)
    direct = sr.pdf_from_sparse(codes, basis(name), x)
    for r, row in enumerate(rows):
        want = decoded(name, row)
        same(ctx, got[r], want, "pdf of codes %s" % row, 1e-9, 1e-12)
        want = decoded(name, row, 1e-5)
        same(ctx, direct[:, r], want, "pdf from codes %s" % row, 1e-9, 1e-12)
        ctx.state(name, tuple(row))


def pursuits_of(d, y, n, chosen=()):
    """reference matching pursuit: every result, as functions that fit equally well may be taken in either order"""
    coef = np.linalg.lstsq(d[:, list(chosen)], y, rcond=None)[0] if chosen else np.zeros(0)
    res = y - d[:, list(chosen)] @ coef
    if len(chosen) == n or (chosen and res @ res <= 1e-10):
        return [(list(chosen), coef)]
    size = float(np.max(np.abs(d.T @ y)))
    corr = np.abs(d.T @ res)
    best = float(np.max(corr))
    tied = [int(i) for i in np.nonzero(corr >= best - 1e-9 * size)[0]]
    if best < 1e-9 * size or any(i in chosen for i in tied):
        return [(list(chosen), coef)]
    return [r for i in tied for r in pursuits_of(d, y, n, chosen + (i,))]


def targets(name, thorough):
    """basis functions, pairs and triples of them, and a function that is none of them"""
    b = basis(name)
    nb = b.shape[1]
    out = [(("one", i), b[:, i]) for i in range(nb)]
    for i, j in itertools.permutations(range(nb), 2):
        for w in (0.25, 0.8) + ((0.5, 0.95) if thorough else ()):
            out.append((("two", i, j, w), b[:, i] + w * b[:, j]))
    step = 1 if thorough else 5
    for n, (i, j, k) in enumerate(itertools.combinations(range(nb), 3)):
        if n % step == 0:
            out.append((("three", i, j, k), b[:, i] + 0.9 * b[:, j] + 0.8 * b[:, k]))
            out.append((("middle", i, j, k), 0.9 * b[:, i] + b[:, j] + b[:, k]))
    x = DICTS[name][0]
    out.append((("ramp",), 0.5 + x - x.min()))
    out.append((("flat",), np.ones(len(x))))
    return out


def encode(name, ys, nsp, tol=1e-10):
    x, mu, nmu, sig, nsig, nv = DICTS[name]
    with contextlib.redirect_stdout(io.StringIO()):
        return sr.build_sparse_representation(x, np.array(ys), mu=list(mu), Nmu=nmu, sig=list(sig), Nsig=nsig, Nv=nv, Nsparse=nsp, tol=tol, verbose=False)


def judge(ctx, name, label, y, codes, nsp):
    """the codes restore the function as well as the pursuit can"""
    b = basis(name)
    x = DICTS[name][0]
    used = [v for v in codes if v != 0]
    idx = [decode(v)[1] for v in used]
    got = decoded(name, used)
    errors = []
    for chosen, coef in pursuits_of(b, y, nsp):
        errors.append(mismatch(name, label, chosen, coef, idx, got))
        if errors[-1] is None:
            break
    ctx.check(errors[-1] is None, lambda: errors[0])
    if label[0] == "one":
        ctx.check(idx == [label[1]], lambda: "%s: basis function %i is encoded as %s" % (name, label[1], idx))


def mismatch(name, label, chosen, coef, idx, got):
    b = basis(name)
    x = DICTS[name][0]
    best = b[:, chosen] @ coef
    # resolution of the codes: half a unit for each coefficient
    big = float(np.max(coef))
    slack = 0.51 / 32000 * big * len(coef) + 1e-9 * big
    area = abs(trap(best, x))
    odd = [i for i in set(idx) ^ set(chosen) if i not in chosen or abs(coef[chosen.index(i)]) > 1.1 * big / 64000]
    if odd or len(set(idx)) != len(idx):
        return "%s %s: basis functions %s instead of %s" % (name, label, sorted(idx), sorted(chosen))
    tol = slack * float(np.max(np.abs(b))) * (1 + float(x[-1] - x[0]) * float(np.max(np.abs(got))))
    diff = float(np.max(np.abs(got - best / trap(best, x)))) * area
    if diff > tol:
        return "%s %s: decoded values differ from the encoded combination by %.3g, resolution %.3g" % (name, label, diff, tol)
    return None


def encoding(ctx):
    """single PDFs and pairs in both orders"""
    name = ctx.choose("dictionary", sorted(DICTS))
    nsp = ctx.choose("number of functions", [1, 2, 3, 5])
    parts = 12
    part = ctx.choose("part", list(range(parts)))
    scale = ctx.choose("scale", [1.0, 0.5, 3.0])
    todo = targets(name, ctx.thorough)[part::parts]
    ys = [scale * y for _, y in todo]
    keep = [y.copy() for y in ys]
    d = basis(name).copy()
    # in one call, for all of them
    codes, meta, a = encode(name, ys, nsp)
    ctx.step()
    same(ctx, a, d, "dictionary after the encoding", 1e-10, 1e-14)
    x, mu, nmu, sig, nsig, nv = DICTS[name]
    ctx.check(list(meta["dims"]) == [nmu, nsig, nv, 32001, nsp] and meta["Ntot"] == len(ys) and list(meta["mu"]) == list(mu) and list(meta["sig"]) == list(sig), "metadata %s" % {k: v for k, v in meta.items() if k != "xvals"})
    ctx.check(codes.shape == (len(ys), nsp), "codes have the shape %s" % (codes.shape,))
    for (label, _), y, c in zip(todo, ys, codes):
        judge(ctx, name, label, y, c, nsp)
        ctx.state(name, tuple(c))
    for y, k in zip(ys, keep):
        exact(ctx, y, k, "the encoded values")
    # alone
    for n, y in enumerate(ys[:: 1 if ctx.thorough else 4]):
        alone, _, _ = encode(name, [y], nsp)
        ctx.step()
        exact(ctx, alone[0], codes[n * (1 if ctx.thorough else 4)], "%s: codes of a PDF alone" % name)


def orders(ctx):
    """all orders of up to three PDFs"""
    name = ctx.choose("dictionary", sorted(DICTS))
    nsp = ctx.choose("number of functions", [2, 4])
    ts = targets(name, False)
    nb = basis(name).shape[1]
    pool = [ts[0], ts[nb - 1], ts[nb + 3], ts[nb + 2 * nb + 1], ts[-3], ts[-2]]
    n = ctx.choose("npdf", [1, 2, 3])
    pick = ctx.choose("PDFs", list(itertools.product(range(len(pool)), repeat=n)) if n < 3 else list(itertools.permutations(range(len(pool)), 3)) + [(0, 0, 1), (1, 0, 0), (2, 2, 2)])
    codes, _, a = encode(name, [pool[p][1] for p in pick], nsp)
    ctx.step()
    for i, p in enumerate(pick):
        key = (name, nsp, p)
        if key not in _BASIS:
            _BASIS[key] = encode(name, [pool[p][1]], nsp)[0][0]
        exact(ctx, codes[i], _BASIS[key], "%s: codes of %s in the order %s" % (name, pool[p][0], pick))
    got = sr.pdf_from_sparse(codes, a, DICTS[name][0])
    for i, p in enumerate(pick):
        same(ctx, got[:, i], decoded(name, codes[i], 1e-5), "%s: values of %s" % (name, pool[p][0]), 1e-9, 1e-12)
    ctx.state(name, nsp, pick)


def pursuits(ctx):
    """the pursuit itself: least squares over the chosen functions, whatever the dictionary"""
    kind = ctx.choose("dictionary", ["unit", "a", "b", "c"])
    n = ctx.choose("number of functions", [1, 2, 3, 4])
    tol = ctx.choose("tolerance", [None, 1e-10, 1e-2])
    if kind == "unit":
        d = np.eye(5)
        pool = [np.array(v) for v in itertools.product([0.0, 1.0, -2.0, 0.5], repeat=5) if any(v)]
        pool = [v for v in pool if len({abs(w) for w in v if w}) == sum(1 for w in v if w)]
    else:
        d = basis(kind)
        pool = [y for _, y in targets(kind, False)][:: 1 if ctx.thorough else 3]
    keep = d.copy()
    for y in pool:
        idx, val = sr.sparse_basis(d, y.copy(), n, tolerance=tol)
        ctx.step()
        exact(ctx, d, keep, "the dictionary")
        ctx.check(len(idx) == len(val) and len(set(map(int, idx))) == len(idx) <= n, lambda: "%i indices and %i coefficients of at most %i" % (len(idx), len(val), n))
        want = np.linalg.lstsq(d[:, idx], y, rcond=None)[0]
        same(ctx, val, want, "coefficients of the functions %s" % list(idx), 1e-6, 1e-7)
        res = y - d[:, idx] @ val
        left = np.abs(d.T @ res)
        if len(idx) < n:
            ctx.check(tol is not None and res @ res <= tol * 1.0001 or np.max(left) < 1e-6, lambda: "stopped after %i functions with residual %g" % (len(idx), res @ res))
        ctx.state(kind, tuple(map(int, idx)), tuple(np.round(val, 9)))


def conversion(ctx):
    """grids converted to the sparse representation"""
    n = ctx.choose("npdf", [1, 2, 3])
    spec = ctx.choose("rows", list(itertools.permutations(range(3), n)))
    nvals = ctx.choose("nvals", [13, 25])
    how = ctx.choose("interface", ["function", "method"])
    x = np.linspace(0.0, 3.0, 25)
    g = lambda m, s: np.exp(-0.5 * ((x - m) / s) ** 2) / s
    base = np.array([g(1.0, 0.5) + 0.01, g(2.0, 0.25) + 0.5 * g(0.75, 0.25) + 0.01, g(1.5, 0.75) + 0.01])
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=base[list(spec)]))
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "function":
            out = qp.convert(ens, "sparse", nvals=nvals)
        else:
            out = ens.convert_to(qp.sparse_gen, nvals=nvals)
    ctx.step(2)
    newx = np.linspace(0.0, 3.0, nvals)
    same(ctx, np.ravel(out.metadata()["xvals"]), newx, "grid of the conversion")
    got = np.asarray(out.pdf(newx))
    ctx.check(got.shape == (n, nvals) and out.npdf == n, "shape %s" % (got.shape,))
    for i, s in enumerate(spec):
        want = base[s][:: 24 // (nvals - 1)]
        want = want / trap(want, newx)
        same(ctx, got[i], want, "%s: row %i after the conversion" % (spec, i), 0, 0.02)
        key = (nvals, s)
        code = out.objdata()["sparse_indices"][i]
        if key in _BASIS:
            exact(ctx, code, _BASIS[key], "codes of PDF %i in the order %s" % (s, spec))
        else:
            _BASIS[key] = code.copy()
    ctx.state(n, spec, nvals, how)


def voigt(ctx):
    """codes as lists of Voigt profiles: their sum is the PDF the codes state"""
    name = ctx.choose("dictionary", sorted(DICTS))
    x, mu, nmu, sig, nsig, nv = DICTS[name]
    nb = basis(name).shape[1]
    i = ctx.choose("first", list(range(nb)))
    c = ctx.choose("coefficient", [0, 8000, 32000])
    codes = np.array([[(20000 << 16) | i, (c << 16) | j, 0] for j in range(nb)])
    meta = dict(xvals=x.copy(), mu=list(mu), sig=list(sig), dims=[nmu, nsig, nv, 32001, 3])
    shapes = sr.indices2shapes(codes, meta)
    ctx.step()
    for r, row in enumerate(codes):
        got = sr.shapes2pdf(*[s[r] for s in shapes], meta)
        ctx.step()
        same(ctx, got, decoded(name, row, 1e-5), "%s: profiles of the codes %s" % (name, list(row)), 1e-9, 1e-12)
    exact(ctx, meta["xvals"], x, "the grid")
    ctx.state(name, i, c)


def extractions(ctx):
    """grids as Voigt profiles or as grids of the sparse representation"""
    n = ctx.choose("npdf", [1, 2, 3])
    spec = ctx.choose("rows", list(itertools.permutations(range(3), n)))
    nvals = ctx.choose("values", [13, 25])
    how = ctx.choose("function", ["extract_voigt_xy", "extract_voigt_xy_sparse", "extract_xy_sparse"])
    x = np.linspace(0.0, 3.0, 25)
    g = lambda m, s: np.exp(-0.5 * ((x - m) / s) ** 2) / s
    base = np.array([g(1.0, 0.5) + 0.01, g(2.0, 0.25) + 0.5 * g(0.75, 0.25) + 0.01, g(1.5, 0.75) + 0.01])
    ens = qp.Ensemble(qp.interp, data=dict(xvals=x, yvals=base[list(spec)]))
    newx = np.linspace(0.0, 3.0, nvals)
    key = "nvals" if how == "extract_xy_sparse" else "nz"
    with contextlib.redirect_stdout(io.StringIO()):
        out = getattr(cf, how)(ens, **{key: nvals})
    ctx.step()
    if how == "extract_xy_sparse":
        ctx.check(set(out) == {"xvals", "yvals"}, lambda: "keys %s" % sorted(out))
        same(ctx, out["xvals"], newx, "grid")
        got = out["yvals"]
    elif how == "extract_voigt_xy_sparse":
        ctx.check(set(out) == {"indices", "metadata"}, lambda: "keys %s" % sorted(out))
        same(ctx, out["metadata"]["xvals"], newx, "grid")
        got = sr.pdf_from_sparse(out["indices"], sr.create_basis(out["metadata"]), newx).T
    else:
        ctx.check(set(out) == {"means", "stds", "weights", "gammas"}, lambda: "keys %s" % sorted(out))
        got = [sr.shapes2pdf(out["weights"][i], out["means"][i], out["stds"][i], out["gammas"][i], dict(xvals=newx)) for i in range(n)]
    ctx.check(np.shape(got) == (n, nvals), lambda: "shape %s" % (np.shape(got),))
    for i, s in enumerate(spec):
        want = base[s][:: 24 // (nvals - 1)]
        same(ctx, got[i], want / trap(want, newx), "%s: row %i" % (spec, i), 0, 0.02)
        seen = (how, nvals, s)
        if seen in _BASIS:
            same(ctx, got[i], _BASIS[seen], "values of PDF %i in the order %s" % (s, spec), 1e-12, 1e-13)
        else:
            _BASIS[seen] = np.array(got[i])
    ctx.state(n, spec, nvals, how)


def options(ctx):
    """the resolution of the dictionary, given or not: defaults as documented by the code, and a code of that dictionary"""
    grid = ctx.choose("grid", [np.linspace(0.0, 2.0, 17), np.linspace(1.0, 2.2, 13)])
    span, dx = grid[-1] - grid[0], grid[1] - grid[0]
    opts = dict(mu=[grid[2], grid[-2]], Nmu=5, sig=[1.5 * dx, 0.2 * span], Nsig=2, Nv=2, Nsparse=4)
    for given in ctx.choose("number given", [list(itertools.combinations(sorted(opts), k)) for k in range(len(opts) + 1)]):
        kw = {k: opts[k] for k in given}
        full = dict(mu=[grid[0], grid[-1]], Nmu=len(grid), sig=[dx / 6.0, span / 12.0], Nv=3, Nsparse=20)
        full.update(kw)
        full.setdefault("Nsig", int(np.ceil(2.0 * (full["sig"][1] - full["sig"][0]) / dx)))
        want = np.array(fix.sparse_basis(grid.tolist(), full["mu"], full["sig"], [full["Nmu"], full["Nsig"], full["Nv"]])).T
        pick = [1, want.shape[1] // 2, want.shape[1] - 2]
        ys = want[:, pick].T
        codes, meta, d = sr.build_sparse_representation(grid, ys, verbose=False, **kw)
        ctx.step()
        ctx.state(grid.tobytes(), given)
        msg = "sparse representation with %s given" % (given,)
        same(ctx, d, want, msg + ": dictionary", 1e-9, 1e-12)
        ctx.check(list(meta["dims"]) == [full["Nmu"], full["Nsig"], full["Nv"], 32001, full["Nsparse"]], "%s: dims %s" % (msg, meta["dims"]))
        same(ctx, meta["mu"], full["mu"], msg + ": mu", 1e-13, 0)
        same(ctx, meta["sig"], full["sig"], msg + ": sig", 1e-13, 0)
        ctx.check(np.shape(codes) == (3, full["Nsparse"]), "%s: codes of shape %s" % (msg, np.shape(codes)))
        ens = qp.Ensemble(qp.sparse, data=dict(xvals=grid, mu=meta["mu"], sig=meta["sig"], dims=meta["dims"], sparse_indices=codes))
        same(ctx, ens.pdf(grid), ys / np.array([[trap(y, grid)] for y in ys]), msg + ": pdf of single basis functions", 1e-3, 1e-3)


HARNESSES = dict(options=options, voigt=voigt, extractions=extractions, integers=integers, dictionary=dictionary, decoding=decoding, encoding=encoding, orders=orders, pursuits=pursuits, conversion=conversion)
BOUNDS = dict(
    quick="all coefficients -32768..32767 x 10 indices and all 65536 indices x 11 coefficients; all dictionaries up to 4x3x3; 3 dictionaries of 8-24 functions: all ordered pairs of functions x 5 coefficients decoded, all single functions, ordered pairs x 2 weights and every fifth triple encoded with 1, 2, 3, 5 functions and 3 scales; all orders of up to 3 out of 6 PDFs; all sets of building options; Voigt dictionaries; extractions from every source",
    thorough="as quick with all triples decoded and encoded, pairs x 4 weights",
)
ASSUMPTIONS = [
    "where two basis functions fit equally well (within 1e-9) either may be chosen",
    "values below the cut of 1e-5 may be dropped by pdf_from_sparse",
    "dictionaries without empty functions (a width far below the spacing of the grid, between two points)",
]
