"""Small ensembles of every representation with their reference rows"""

import math

import numpy as np

from mc import ref


def num(i, j, k=8):
    """Deterministic small dyadic numbers, different for each row"""
    return ((i * 7 + j * 5 + ((i + 1) * (j + 2)) % 5) % k + 1) / k


class Fix:
    """An ensemble specification: class name, constructor data, one reference per row"""

    def __init__(self, name, cls, data, refs, xs, qs=None, per_row=()):
        self.name, self.cls, self.data, self.refs = name, cls, data, refs
        self.xs = xs
        self.qs = qs or [0.0, 0.125, 0.3, 0.5, 0.8125, 1.0]
        self.per_row = per_row
        self.npdf = len(refs)

    def ens(self, ancil=None, dtype=None):
        import qp

        data = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in self.data.items()}
        if dtype is not None:
            for k in self.per_row:
                data[k] = data[k].astype(dtype)
        return qp.Ensemble(getattr(qp, self.cls) if hasattr(qp, self.cls) else getattr(qp.stats, self.cls), data=data, ancil=ancil)

    def inside(self):
        return [x for x in self.xs if math.isfinite(x)]


def hist(npdf, edges, k=8, zero=()):
    edges = np.array(edges, float)
    nb = len(edges) - 1
    pdfs = np.array([[0.0 if (i, j) in zero else num(i, j, k) for j in range(nb)] for i in range(npdf)])
    e = edges.tolist()
    xs = [e[0] - 1.0] + [v for a, b in zip(e, e[1:]) for v in (a, a + 0.5 * (b - a))] + [e[-1], e[-1] + 2.0]
    return dict(bins=edges, pdfs=pdfs), [ref.HistRow(e, p) for p in pdfs], xs


def interp(npdf, grid, zero_ends=False):
    grid = np.array(grid, float)
    ys = np.array([[num(i, j) for j in range(len(grid))] for i in range(npdf)])
    if zero_ends:
        ys[:, 0] = 0.0
        ys[:, -1] = 0.0
    g = grid.tolist()
    xs = [g[0] - 1.0] + [v for a, b in zip(g, g[1:]) for v in (a, a + 0.25 * (b - a))] + [g[-1], g[-1] + 2.0]
    return dict(xvals=grid, yvals=ys), [ref.InterpRow(g, y, first=True) for y in ys], xs


QUANTS = [0.0, 0.0625, 0.1875, 0.375, 0.5, 0.625, 0.75, 0.875, 0.9375, 1.0]


def quant(npdf, kind, pad=False):
    qs = QUANTS[1:-1] if pad else QUANTS
    locs = []
    for i in range(npdf):
        x = 0.25 * i
        row = []
        for j in range(len(qs)):
            row.append(x)
            x += 0.125 + 0.25 * num(i, j, 4)
        locs.append(row)
    locs = np.array(locs)
    refs = [ref.QuantRow(qs, l, kind) for l in locs]
    xs = sorted({refs[0].lo - 1.0, refs[0].l[2], refs[0].l[4], refs[-1].l[3], 0.5 * (refs[0].l[4] + refs[0].l[5]), 0.6 * refs[-1].l[5] + 0.4 * refs[-1].l[6], refs[-1].hi + 1.0})
    return dict(quants=np.array(qs), locs=locs, pdf_constructor_name=kind), refs, xs, qs


def decode(kind, packed, ymax, floor):
    if kind == 0:
        return [ymax * int(v) / 255.0 for v in packed]
    return [0.0 if v == 0 else ymax * 10.0 ** (-floor * (int(v) / 255.0 - 1.0)) for v in packed]


def packed(npdf, kind):
    grid = [0.0, 0.5, 1.0, 2.0, 2.5]
    yp = np.array([[(i * 37 + j * 91 + 20 * (j % 2)) % 255 + 1 for j in range(5)] for i in range(npdf)])
    for i in range(npdf):
        yp[i, (i + 2) % 5] = 255
        yp[i, (i + 4) % 5] = 0
    yp = yp.astype(np.uint8)
    ymax = np.array([[0.5 + 0.25 * i] for i in range(npdf)])
    floor = -3.0
    refs = [ref.InterpRow(grid, decode(kind, yp[i], ymax[i, 0], floor), first=True) for i in range(npdf)]
    xs = [-1.0] + [v for a, b in zip(grid, grid[1:]) for v in (a, a + 0.25 * (b - a))] + [2.5, 4.0]
    import qp

    data = dict(xvals=np.array(grid), ypacked=yp, ymax=ymax, packing_type=qp.packing_utils.PackingType(kind))
    if kind == 1:
        data["log_floor"] = floor
    return data, refs, xs


SP_MU, SP_SIG, SP_DIMS = [0.0, 2.0], [0.125, 0.5], [5, 2, 2, 32001, 3]


def sparse_basis(xvals, mu, sig, dims, cut=1e-5):
    from scipy.special import voigt_profile

    out = []
    nmu, ns, nv = dims[:3]

    def lin(a, b, n, i):
        return a if n == 1 else a + (b - a) * i / (n - 1)

    for i in range(nmu):
        for j in range(ns):
            for k in range(nv):
                v = [float(voigt_profile(x - lin(mu[0], mu[1], nmu, i), lin(sig[0], sig[1], ns, j), lin(0, 0.5, nv, k))) for x in xvals]
                v = [a if a >= cut else 0.0 for a in v]
                n = math.sqrt(math.fsum(a * a for a in v))
                out.append([a / n for a in v])
    return out


def sparse_row(xvals, basis, codes):
    ys = [0.0] * len(xvals)
    for n, code in enumerate(codes):
        w = 1.0 if n == 0 else (int(code) >> 16) / 32000.0
        b = basis[int(code) & 0xFFFF]
        ys = [y + w * v for y, v in zip(ys, b)]
    return ys


def sparse(npdf, cut=None):
    xvals = np.linspace(0.0, 2.0, 17)
    basis = sparse_basis(xvals.tolist(), SP_MU, SP_SIG, SP_DIMS, cut or 1e-5)
    codes = np.array([[(32000 << 16) | ((3 * i + 5) % 20), (16000 << 16) | ((7 * i + 9) % 20), ((4000 + 1000 * i) << 16) | ((i * 11 + 16) % 20)] for i in range(npdf)])
    refs = [ref.InterpRow(xvals.tolist(), sparse_row(xvals, basis, c), first=True) for c in codes]
    data = dict(xvals=xvals, mu=list(SP_MU), sig=list(SP_SIG), dims=list(SP_DIMS), sparse_indices=codes)
    if cut:
        data["cut"] = cut
    return data, refs, [-0.5, 0.0, 0.1, 0.5, 0.8, 1.25, 1.9, 2.0, 2.5]


def spline(npdf):
    from scipy.interpolate import splrep

    ts, cs, ks = [], [], []
    for i in range(npdf):
        x = np.array([0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0])
        y = np.array([0.5, 0.75, 1.0 + num(i, 1), 2.0, 1.0 + 0.5 * num(i, 3), 0.75, 0.5])
        t, c, k = splrep(x, y)
        from scipy.interpolate import BSpline

        c = c / float(BSpline(t, c[: len(t) - k - 1], k).integrate(0.0, 3.0))
        ts.append(t)
        cs.append(c)
        ks.append([k])
    refs = [ref.SplineRow(t, c, k[0]) for t, c, k in zip(ts, cs, ks)]
    return dict(splx=np.array(ts), sply=np.array(cs), spln=np.array(ks)), refs, [0.0, 0.25, 1.0, 1.3, 2.2, 2.9, 3.0]


def col(f, npdf):
    return np.array([[float(f(i))] for i in range(npdf)])


def scipy_fix(name, npdf, kw, xs):
    import scipy.stats as sps

    data = {k: col(f, npdf) for k, f in kw.items()}
    refs = [ref.ScipyRow(getattr(sps, name), {k: float(v[i, 0]) for k, v in data.items()}) for i in range(npdf)]
    return data, refs, xs


def make(name, npdf):
    """Build the named fixture with npdf rows"""
    if name == "hist_u":
        d, r, x = hist(npdf, [0.0, 0.5, 1.0, 1.5])
        return Fix(name, "hist", d, r, x, per_row=("pdfs",))
    if name == "hist_n":
        d, r, x = hist(npdf, [-1.0, -0.75, 0.5, 1.0, 3.0])
        return Fix(name, "hist", d, r, x, per_row=("pdfs",))
    if name == "hist_z":
        d, r, x = hist(npdf, [0.0, 1.0, 1.5, 2.0, 4.0], zero={(i, (i + 1) % 4) for i in range(npdf)} | {(0, 0)})
        return Fix(name, "hist", d, r, x, per_row=("pdfs",))
    if name == "hist_1":
        d, r, x = hist(npdf, [1.0, 3.0])
        return Fix(name, "hist", d, r, x, per_row=("pdfs",))
    if name == "interp_u":
        d, r, x = interp(npdf, [0.0, 0.5, 1.0, 1.5, 2.0])
        return Fix(name, "interp", d, r, x, per_row=("yvals",))
    if name == "interp_z":
        d, r, x = interp(npdf, [0.0, 0.5, 1.0, 2.0, 2.5], zero_ends=True)
        return Fix(name, "interp", d, r, x, per_row=("yvals",))
    if name == "interp_n":
        d, r, x = interp(npdf, [-1.0, -0.5, 0.0, 1.0, 3.0])
        return Fix(name, "interp", d, r, x, per_row=("yvals",))
    if name == "irreg":
        xs = np.array([[0.25 * i, 0.5 + 0.25 * i, 1.0 + 0.5 * i, 1.5 + 0.75 * i, 2.0 + i] for i in range(npdf)])
        ys = np.array([[num(i, j) for j in range(5)] for i in range(npdf)])
        ends = (float(xs.min()), float(xs.max()))
        r = [ref.InterpRow(a, b, ends=ends) for a, b in zip(xs.tolist(), ys.tolist())]
        q = sorted({-1.0, 0.0, 0.125, float(xs[0, 2]), 1.125, float(xs[-1, 1]), float(xs[-1, 3]), float(xs[0, -1]), ends[1], ends[1] + 1.0})
        return Fix(name, "interp_irregular", dict(xvals=xs, yvals=ys), r, q, per_row=("xvals", "yvals"))
    if name == "mixmod":
        m = np.array([[0.5 + 0.25 * i, 1.5 - 0.125 * i] for i in range(npdf)])
        s = np.array([[0.25 + 0.125 * i, 0.5] for i in range(npdf)])
        w = np.array([[num(i, 1), num(i, 2)] for i in range(npdf)])
        r = [ref.MixRow(a, b, c) for a, b, c in zip(m, s, w)]
        return Fix(name, "mixmod", dict(means=m, stds=s, weights=w), r, [-0.5, 0.0, 0.5, 0.9, 1.5, 2.5], per_row=("means", "stds", "weights"))
    if name == "mixmod1":
        m = np.array([[0.5 + 0.25 * i] for i in range(npdf)])
        s = np.array([[0.25 + 0.125 * i] for i in range(npdf)])
        w = np.array([[2.0 + i] for i in range(npdf)])
        r = [ref.MixRow(a, b, c) for a, b, c in zip(m, s, w)]
        return Fix(name, "mixmod", dict(means=m, stds=s, weights=w), r, [-0.5, 0.0, 0.5, 0.9, 1.5, 2.5], per_row=("means", "stds", "weights"))
    if name.startswith("quant_"):
        kind = dict(pl="piecewise_linear", pc="piecewise_constant", csd="cdf_spline_derivative", dsa="dual_spline_average")[name[6:].replace("_pad", "")]
        d, r, x, q = quant(npdf, kind, name.endswith("_pad"))
        return Fix(name, "quant", d, r, x, qs=[0.0, q[1], q[3], 0.5, 0.6, q[-2], 1.0], per_row=("locs",))
    if name == "spline":
        d, r, x = spline(npdf)
        return Fix(name, "spline", d, r, x, qs=[0.0, 0.2, 0.5, 0.9, 1.0], per_row=("splx", "sply", "spln"))
    if name in ("packed_lin", "packed_log"):
        d, r, x = packed(npdf, 0 if name == "packed_lin" else 1)
        return Fix(name, "packed_interp", d, r, x, per_row=("ypacked", "ymax"))
    if name in ("sparse", "sparse_cut"):
        d, r, x = sparse(npdf, 0.2 if name == "sparse_cut" else None)
        return Fix(name, "sparse", d, r, x, per_row=("sparse_indices",))
    if name == "norm":
        d, r, x = scipy_fix("norm", npdf, dict(loc=lambda i: 0.5 * i, scale=lambda i: 0.5 + 0.25 * i), [-1.0, 0.0, 0.5, 1.25, 3.0])
        return Fix(name, "norm", d, r, x, per_row=("loc", "scale"))
    if name == "uniform":
        d, r, x = scipy_fix("uniform", npdf, dict(loc=lambda i: 0.5 * i, scale=lambda i: 1.0 + 0.5 * i), [-1.0, 0.0, 0.25, 1.0, 1.25, 3.0])
        return Fix(name, "uniform", d, r, x, per_row=("loc", "scale"))
    if name == "beta":
        d, r, x = scipy_fix("beta", npdf, dict(a=lambda i: 1.5 + 0.5 * i, b=lambda i: 2.0 + 0.25 * i), [-0.5, 0.125, 0.5, 0.75, 1.5])
        return Fix(name, "beta", d, r, x, per_row=("a", "b"))
    if name == "gamma":
        d, r, x = scipy_fix("gamma", npdf, dict(a=lambda i: 1.5 + 0.5 * i, scale=lambda i: 0.5 + 0.25 * i), [-0.5, 0.125, 0.5, 0.75, 3.5])
        return Fix(name, "gamma", d, r, x, per_row=("a", "scale"))
    raise KeyError(name)


ROWS = ["hist_u", "hist_n", "hist_z", "hist_1", "interp_u", "interp_n", "interp_z", "irreg", "mixmod", "mixmod1", "quant_pl", "quant_pc", "quant_csd", "quant_dsa", "quant_pl_pad", "spline", "packed_lin", "packed_log", "sparse", "sparse_cut"]
SCIPY = ["norm", "uniform", "beta", "gamma"]
ALL = ROWS + SCIPY
# one of each, where the variants do not matter
CORE = ["hist_n", "interp_n", "irreg", "mixmod", "quant_pl", "spline", "packed_lin", "packed_log", "sparse", "norm", "beta"]
