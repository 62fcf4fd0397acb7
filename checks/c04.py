"""C04: every wrapped scipy distribution behaves as the scipy distribution with that PDF's parameters

All continuous distributions of scipy.stats x parameters x location and scale x functions x arguments inside, at the ends
of and outside the support; the oracle is scipy's own frozen distribution of each PDF alone.
"""

import numpy as np
import qp
import scipy.stats as sps
from mc import util
from mc.util import same
from scipy.stats._distr_params import distcont

PROPERTY = "C04"
LEVEL = "model_checking"
SLOW = {"vonmises_line", "recipinvgauss", "kappa4", "studentized_range", "levy_stable", "ksone", "kstwo", "genhyperbolic", "norminvgauss", "gausshyper", "geninvgauss", "crystalball", "vonmises", "kstwobign", "argus", "skewnorm", "rel_breitwigner", "jf_skew_t", "landau", "dpareto_lognorm", "trapezoid", "triang", "truncpareto", "irwinhall"}
NAMES = sorted(n for n in sps.__all__ if isinstance(getattr(sps, n), sps.rv_continuous))
ARGS = {}
for _n, _a in distcont:
    if isinstance(_n, str):
        ARGS.setdefault(_n, []).append(_a)
NAN = float("nan")
INF = float("inf")


def parameters(name, npdf, frame):
    """parameter values of each PDF, as keyword arguments"""
    dist = getattr(sps, name)
    names = [s.strip() for s in dist.shapes.split(",")] if dist.shapes else []
    sets = ARGS.get(name, [()])
    rows = []
    for i in range(npdf):
        base = list(sets[i % len(sets)]) if i >= len(sets) or i == 0 else list(sets[i])
        if i and names:
            # another valid set of parameters
            for f in (1 + 0.125 * i, 1 + 0.03125 * i, 1 - 0.0625 * i, 1.0):
                trial = [v * f for v in base]
                if name in ("ksone", "kstwo", "irwinhall"):
                    trial = [base[0] + i]
                if np.all(dist._argcheck(*[np.float64(v) for v in trial])):
                    base = trial
                    break
        kw = dict(zip(names, [float(v) for v in base]))
        if "loc" in frame:
            kw["loc"] = -1.5 + 2.0 * i
        if "scale" in frame:
            kw["scale"] = 0.5 + 0.75 * i
        rows.append(kw)
    return rows


def build(name, rows):
    data = {k: np.array([[r[k]] for r in rows]) for k in rows[0]}
    if not data:
        return None
    return qp.Ensemble(getattr(qp.stats, name), data=data)


def points(dists, quick):
    xs = set()
    for d in dists:
        with np.errstate(all="ignore"):
            lo, hi = (float(v) for v in d.support())
            mid = [float(v) for v in d.ppf([0.1, 0.5] if quick else [0.02, 0.3, 0.5, 0.9])]
        for v in mid:
            if np.isfinite(v):
                xs.add(v)
        for v, s in ((lo, -1), (hi, 1)):
            if np.isfinite(v):
                xs |= {v, v + s * 0.5, v - s * 1e-6}
    return sorted(xs) + [NAN, INF, -INF]


def evaluate(ctx):
    name = ctx.choose("distribution", NAMES)
    if name in ("studentized_range", "levy_stable") and not ctx.thorough:
        return
    quick = name in SLOW
    npdf = ctx.choose("npdf", [2] if quick and not ctx.thorough else [1, 2, 3])
    frame = ctx.choose("frame", ["loc", "loc scale", "shape"])
    rows = parameters(name, npdf, frame)
    ens = build(name, rows)
    if ens is None:
        return
    dists = [getattr(sps, name)(**r) for r in rows]
    xs = points(dists, quick)
    qs = [0.0, 0.25, 1.0, NAN, -0.5] if quick else [0.0, 0.01, 0.25, 0.5, 0.9, 1.0, NAN, -0.5, 1.5]
    fun = ctx.choose("function", ["pdf", "cdf", "sf", "ppf", "isf", "logpdf", "logcdf", "logsf", "median", "interval", "support", "mean", "std", "var", "objdata"])
    ctx.state(name, npdf, frame, fun)
    ctx.step()
    with np.errstate(all="ignore"):
        if fun == "objdata":
            obj = ens.objdata()
            ctx.check(set(obj) == set(rows[0]), "%s has the object data %s" % (name, sorted(obj)))
            for k in obj:
                same(ctx, obj[k], np.array([[r[k]] for r in rows]), "object data %s of %s" % (k, name))
            ctx.check(ens.metadata()["pdf_name"][0].decode() == name, "name of %s" % name)
            ctx.check(ens.npdf == npdf, "number of PDFs")
            return
        if fun == "support":
            lo, hi = ens.frozen.support()
            same(ctx, np.broadcast_to(np.ravel(lo), (npdf,)), [d.support()[0] for d in dists], "lower end of the support of %s" % name)
            same(ctx, np.broadcast_to(np.ravel(hi), (npdf,)), [d.support()[1] for d in dists], "upper end of the support of %s" % name)
            return
        if fun == "interval":
            lo, hi = ens.interval(0.8)
            same(ctx, np.ravel(lo), [d.interval(0.8)[0] for d in dists], "interval of %s" % name, 1e-7)
            same(ctx, np.ravel(hi), [d.interval(0.8)[1] for d in dists], "interval of %s" % name, 1e-7)
            return
        if fun in ("median", "mean", "std", "var"):
            if name in SLOW and fun != "median" and not ctx.thorough:
                return
            got = np.asarray(getattr(ens, fun)())
            ctx.check(got.size == npdf, "%s of %s has shape %s" % (fun, name, got.shape))
            same(ctx, got.ravel(), [float(getattr(d, fun)()) for d in dists], "%s of %s" % (fun, name), 1e-7)
            return
        pts = qs if fun in ("ppf", "isf") else xs
        got = getattr(ens, fun)(np.array(pts))
        want = np.array([[float(getattr(d, fun)(x)) for x in pts] for d in dists])
        same(ctx, got, want, "%s(%s) of %s" % (fun, pts, name), 1e-7, 1e-12)
        m = np.array([[pts[(j + i) % len(pts)] for j in range(2)] for i in range(npdf)])
        same(ctx, getattr(ens, fun)(m), np.array([[float(getattr(d, fun)(x)) for x in r] for d, r in zip(dists, m)]), "%s(%s) of %s" % (fun, m.tolist(), name), 1e-7, 1e-12)


TAIL = [1e-3, 1e-6, 1e-10, 1e-17, 1e-40, 1e-200]


def tails(ctx):
    """far into the tails the values keep the precision they have in scipy: relative, not absolute"""
    name = ctx.choose("distribution", NAMES)
    if name in SLOW and not ctx.thorough or name in ("studentized_range", "levy_stable"):
        return
    npdf = ctx.choose("npdf", [1, 2])
    rows = parameters(name, npdf, "loc scale")
    ens = build(name, rows)
    dists = [getattr(sps, name)(**r) for r in rows]
    side = ctx.choose("side", ["lower", "upper"])
    fun = ctx.choose("function", ["pdf", "cdf", "sf", "logpdf", "logcdf", "logsf", "ppf", "isf"])
    ctx.state(name, npdf, side, fun)
    ctx.step()
    with np.errstate(all="ignore"):
        if fun in ("ppf", "isf"):
            pts = TAIL if side == "lower" else [1 - 1e-3, 1 - 1e-10, 1 - 2.0**-53]
        else:
            pts = sorted({float(v) for d in dists for v in (d.ppf if side == "lower" else d.isf)(TAIL) if np.isfinite(v)})
        if not pts:
            return
        got = getattr(ens, fun)(np.array(pts))
        want = np.array([np.asarray(getattr(d, fun)(np.array(pts)), float) for d in dists])
        same(ctx, got, want, "%s(%s) of %s in the %s tail" % (fun, pts, name, side), 1e-7, 1e-300)


def dtypes(ctx):
    """parameters in other number types and orders of the keywords; select, stack and restore them"""
    name = ctx.choose("distribution", ["norm", "beta", "uniform", "gamma", "lognorm", "truncnorm", "expon", "triang", "weibull_min", "t", "rayleigh", "laplace"])
    npdf = ctx.choose("npdf", [1, 2, 3])
    kind = ctx.choose("type", ["f8", "f4", "int", "fortran", "reversed keywords"])
    rows = parameters(name, npdf, "loc scale")
    if kind == "int":
        rows = [{k: (max(1.0, round(v)) if k != "loc" else round(v)) for k, v in r.items()} for r in rows]
        if name == "truncnorm":
            rows = [dict(r, a=-1.0, b=2.0 + i) for i, r in enumerate(rows)]
        if name == "triang":
            rows = [dict(r, c=1.0) for r in rows]
    keys = list(rows[0])
    if kind == "reversed keywords":
        keys = keys[::-1]
    data = {}
    for k in keys:
        v = np.array([[r[k]] for r in rows])
        data[k] = v.astype("f4") if kind == "f4" else v.astype(int) if kind == "int" else np.asfortranarray(v)
        for r, w in zip(rows, data[k][:, 0]):
            r[k] = float(w)
    ens = qp.Ensemble(getattr(qp, name) if hasattr(qp, name) else getattr(qp.stats, name), data=data)
    dists = [getattr(sps, name)(**r) for r in rows]
    xs = points(dists, False)
    ctx.state(name, npdf, kind)
    tol = 1e-5 if kind == "f4" else 1e-9
    with np.errstate(all="ignore"):
        for fun in ("pdf", "cdf"):
            off = [x for x in xs if kind != "f4" or all(abs(x - e) > 1e-4 for d in dists for e in d.support())]
            same(ctx, getattr(ens, fun)(np.array(off)), [getattr(d, fun)(off) for d in dists], "%s of %s" % (fun, name), tol, tol)
        qs = [0.1, 0.5, 0.75]
        same(ctx, ens.ppf(np.array(qs)), [d.ppf(qs) for d in dists], "ppf of %s" % name, tol, tol)
        for i in range(npdf):
            same(ctx, ens[i].pdf(np.array(xs[:3])), [dists[i].pdf(xs[:3])], "selected %s" % name, tol, tol)
    ctx.step(4)


HARNESSES = {f.__name__: f for f in (evaluate, tails, dtypes)}
BOUNDS = dict(
    quick="%i scipy distributions (studentized_range and levy_stable only in the thorough tier) x 1-3 PDFs x shape only / location / location and scale x 15 functions; arguments inside, at, beside and outside of the ends of the support, nan, inf; 8 functions far into both tails (1e-3 ... 1e-200, relative precision)" % len(NAMES),
    thorough="all distributions with moments of the slow ones",
)
ASSUMPTIONS = ["scipy.stats is right"]
