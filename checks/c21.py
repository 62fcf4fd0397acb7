"""C21: moments and summary statistics are those of the distribution

Oracle: moments written down for one PDF at a time (bin centres of histograms, trapezoids of gridded densities, scipy's own
values for its distributions, the parameters of Gaussian mixtures); for the representations without closed form the integral
of the inverse cdf the PDF has alone.
Explored: all representations x all picks and orders of up to 3 (4) rows x orders 0-4 of the moments x all sets of stats;
partial moments on all pairs of limits.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, obs
from mc.util import same

PROPERTY = "C21"
LEVEL = "model_checking"

EXACT = [n for n in fix.ALL if n.startswith(("hist", "interp", "packed", "sparse"))] + fix.SCIPY
OTHER = ["irreg", "quant_pl", "quant_pc", "quant_csd", "quant_dsa", "quant_pl_pad"]
MIX = ["mixmod1", "mixmod"]
_ALONE = {}


def picks(n, k):
    return [p for m in range(1, k + 1) for p in itertools.product(range(n), repeat=m)]


def central(r):
    """mean, variance, skewness, excess kurtosis of a reference row"""
    m1, m2, m3, m4 = (r.moment(m) for m in (1, 2, 3, 4))
    var = m2 - m1 * m1
    mu3 = m3 - 3 * m1 * m2 + 2 * m1**3
    mu4 = m4 - 4 * m1 * m3 + 6 * m1 * m1 * m2 - 3 * m1**4
    return m1, var, mu3 / var**1.5 if var > 0 else math.nan, mu4 / var**2 - 3 if var > 0 else math.nan


def column(ctx, got, want, msg, rtol=1e-9, atol=1e-11):
    want = np.reshape(np.array(want, float), (len(want), 1))
    same(ctx, got, want, msg, rtol, atol)


def closed(ctx):
    """moments in closed form"""
    f = fix.make(ctx.choose("representation", EXACT), 3)
    group = ctx.choose("rows", [1, 2, 3] + ([4] if ctx.thorough else []))
    used = ctx.flag("used before")
    for pick in itertools.product(range(3), repeat=group):
        ens = obs.build(f, pick, obs.ancil(pick))
        if used:
            with np.errstate(all="ignore"):
                ens.pdf(np.array([0.5, 0.75]))
                ens.cdf(0.25)
        before = obs.frozen_state(ens)
        msg = "%s rows %s: " % (f.name, pick)
        ctx.state(f.name, pick, used)
        refs = [f.refs[r] for r in pick]
        for m in (1, 2, 3, 4):
            column(ctx, ens.moment(m), [r.moment(m) for r in refs], msg + "moment %i" % m, 1e-8)
        cen = [central(r) for r in refs]
        column(ctx, ens.mean(), [c[0] for c in cen], msg + "mean")
        column(ctx, ens.var(), [c[1] for c in cen], msg + "variance", 1e-8)
        column(ctx, ens.std(), [math.sqrt(max(c[1], 0.0)) for c in cen], msg + "standard deviation", 1e-7, 1e-7)
        ctx.step(7)
        for which in ("m", "v", "s", "k", "mv", "mvsk", "sk"):
            if any(c[1] < 1e-9 for c in cen) and set(which) & set("sk"):
                continue
            got = ens.stats(moments=which)
            got = [got] if len(which) == 1 else list(got)
            ctx.check(len(got) == len(which), msg + "stats(%s) has %i parts" % (which, len(got)))
            for name, value in zip(which, got):
                column(ctx, value, [c["mvsk".index(name)] for c in cen], msg + "%s of stats(%s)" % (name, which), 1e-6, 1e-7)
            ctx.step()
        obs.unchanged(ctx, ens, before, msg)


def by_ppf(f, row):
    """mean and variance from the inverse cdf of a PDF that is alone"""
    key = (f.name, row)
    if key not in _ALONE:
        q = np.linspace(0.0, 1.0, 20001)
        q = 0.5 * (q[1:] + q[:-1])
        with np.errstate(all="ignore"):
            x = np.ravel(obs.build(f, [row]).ppf(q))
        m = float(np.mean(x))
        _ALONE[key] = m, float(np.mean((x - m) ** 2))
    return _ALONE[key]


def numeric(ctx):
    """moments by integration"""
    f = fix.make(ctx.choose("representation", OTHER), 3)
    every = [(0,), (2,), (0, 1), (2, 0), (1, 1), (2, 0, 1)] if not ctx.thorough else picks(3, 3)
    pick = ctx.choose("rows", every)
    which = ctx.choose("statistic", ["mean", "var", "std", "stats"])
    ens = obs.build(f, pick, obs.ancil(pick))
    msg = "%s rows %s: %s" % (f.name, pick, which)
    ctx.state(f.name, pick, which)
    ctx.step()
    want = [by_ppf(f, r) for r in pick]
    with np.errstate(all="ignore"):
        got = getattr(ens, which)()
    if which == "stats":
        column(ctx, got[0], [w[0] for w in want], msg, 1e-3, 1e-3)
        column(ctx, got[1], [w[1] for w in want], msg, 5e-3, 2e-3)
    else:
        column(ctx, got, [dict(mean=w[0], var=w[1], std=math.sqrt(w[1]))[which] for w in want], msg, 5e-3, 2e-3)


def mixtures(ctx):
    """the mean of Gaussian mixtures is that of its parameters, within the accuracy of the tabulated inverse cdf"""
    name = ctx.choose("representation", MIX if ctx.thorough else ["mixmod1", "mixmod"])
    f = fix.make(name, 3)
    pick = ctx.choose("rows", [(0,), (2,), (2, 0)] if not ctx.thorough else [(0,), (1,), (2,), (0, 1), (2, 0), (1, 1)])
    which = ctx.choose("statistic", ["mean"] + (["var", "std"] if ctx.thorough or name == "mixmod1" and len(pick) == 1 else []))
    ens = obs.build(f, pick)
    ctx.state(name, pick, which)
    ctx.step()
    want = []
    for r in pick:
        parts = f.refs[r].parts
        m = math.fsum(w * a for a, d, w in parts)
        v = math.fsum(w * (a * a + d * d) for a, d, w in parts) - m * m
        want.append(dict(mean=m, var=v, std=math.sqrt(v))[which])
    with np.errstate(all="ignore"):
        column(ctx, getattr(ens, which)(), want, "%s rows %s: %s" % (name, pick, which), 2e-3, 2e-3)


def partial(ctx):
    """moments over a range, on the grid of the range"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    dx = ctx.choose("dx", [0.5, 0.125, 0.01] if not ctx.thorough else [0.5, 0.25, 0.125, 0.05, 0.01])
    pick = ctx.choose("rows", [(0,), (2,), (1, 0), (2, 2, 0), (0, 1, 2)])
    xs = f.inside()
    ens = obs.build(f, pick)
    ctx.state(f.name, dx, pick)
    lims = [(a, b) for a in xs[:-1:2] for b in xs[1:] if b - a > 2 * dx]
    if not ctx.thorough:
        lims = lims[::2]
    for order, limits in itertools.product((0, 1, 2, 3), lims):
        n = int((limits[1] - limits[0]) / dx)
        grid = np.linspace(limits[0], limits[1], n)
        want = []
        for r in pick:
            with np.errstate(all="ignore"):
                p = np.ravel(obs.build(f, [r]).pdf(grid))
            want.append(float(np.sum(p * grid**order) * dx))
        with np.errstate(all="ignore"):
            got = ens.moment_partial(order, limits, dx)
        ctx.step()
        real = (limits[1] - limits[0]) / (n - 1) / dx
        # the resolution asked for, or the one of the grid
        if np.shape(got) == (len(pick),) and np.allclose(got, np.array(want) * real, rtol=1e-9, atol=1e-12):
            ctx.traced()
            continue
        same(ctx, got, want, "%s rows %s: moment_partial(%i, %s, %g)" % (f.name, pick, order, limits, dx), 1e-9, 1e-12)
        if dx == 0.01 and order == 0 and f.cls not in ("quant", "spline") and f.name not in ("hist_1",):
            # it is the integral of the density over the range
            c = [np.ravel(obs.build(f, [r]).cdf(np.array(limits))) for r in pick]
            same(ctx, got, [v[1] - v[0] for v in c], "%s rows %s: moment_partial(0, %s) and the cdf" % (f.name, pick, limits), 0.15, 0.15)


def plogp(p):
    return np.where(p > 0, -p * np.log(np.where(p > 0, p, 1.0)), 0.0)


def entropy(ctx):
    """entropies are those of the densities"""
    f = fix.make(ctx.choose("representation", [n for n in fix.ALL if n not in ("spline", "quant_csd", "quant_dsa")]), 3)
    pick = ctx.choose("rows", [(0,), (2,), (1, 0), (2, 0, 1)])
    ens = obs.build(f, pick)
    ctx.state(f.name, pick)
    ctx.step()
    with np.errstate(all="ignore"):
        got = ens.entropy()
        want = []
        for r in pick:
            row = f.refs[r]
            if f.name in fix.SCIPY:
                want.append(float(row.d.entropy()))
                continue
            lo, hi = (row.lo, row.hi) if f.cls != "mixmod" else (row.lo - 1, row.hi + 1)
            x = np.linspace(lo, hi, 8001)
            x = 0.5 * (x[1:] + x[:-1])
            want.append(float(np.sum(plogp(np.ravel(obs.build(f, [r]).pdf(x)))) * (hi - lo) / 8000))
    column(ctx, got, want, "%s rows %s: entropy" % (f.name, pick), 5e-3, 5e-3)


def quantiles(ctx):
    """medians and intervals are the inverse cdf at their levels, for each PDF"""
    f = fix.make(ctx.choose("representation", [n for n in fix.ALL if n != "spline"]), 3)
    pick = ctx.choose("rows", picks(3, 3) if ctx.thorough else [(0,), (2,), (0, 1), (2, 0), (1, 1), (2, 0, 1), (0, 0, 2)])
    ens = obs.build(f, pick)
    ctx.state(f.name, pick)
    alone = [obs.build(f, [r]) for r in pick]
    with np.errstate(all="ignore"):
        column(ctx, ens.median(), [float(np.ravel(a.ppf(0.5))[0]) for a in alone], "%s rows %s: median" % (f.name, pick), 1e-8)
        column(ctx, ens.stats("m") if f.name in EXACT else ens.median(), [f.refs[r].moment(1) for r in pick] if f.name in EXACT else [float(np.ravel(a.median())[0]) for a in alone], "%s rows %s" % (f.name, pick), 1e-8)
        for alpha in (0.0, 0.25, 0.5, 0.9):
            lo, hi = ens.interval(alpha)
            q = 0.5 * (1 - alpha)
            column(ctx, lo, [float(np.ravel(a.ppf(q))[0]) for a in alone], "%s rows %s: lower end of interval(%g)" % (f.name, pick, alpha), 1e-7, 1e-9)
            column(ctx, hi, [float(np.ravel(a.ppf(1 - q))[0]) for a in alone], "%s rows %s: upper end of interval(%g)" % (f.name, pick, alpha), 1e-7, 1e-9)
            ctx.step()
    ctx.step(2)


def shifted(ctx):
    """moments follow the position and the width of the PDFs"""
    name = ctx.choose("representation", ["hist_u", "hist_n", "interp_u", "interp_z", "packed_lin", "packed_log"])
    shift = ctx.choose("shift", [-100.0, -1.0, 0.25, 1000.0])
    scale = ctx.choose("scale", [0.001, 0.5, 4.0, 100.0])
    f = fix.make(name, 3)
    data = obs.raw(f, [0, 1, 2])
    key = "bins" if "bins" in data else "xvals"
    data[key] = data[key] * scale + shift
    ens = qp.create(f.cls, data)
    ctx.state(name, shift, scale)
    ctx.step(4)
    cen = [central(r) for r in f.refs]
    msg = "%s moved by %g and scaled by %g: " % (name, shift, scale)
    loss = 1e-12 * (abs(shift) + 3 * scale) ** 2
    column(ctx, ens.mean(), [c[0] * scale + shift for c in cen], msg + "mean", 1e-9)
    column(ctx, ens.var(), [c[1] * scale**2 for c in cen], msg + "variance", 1e-7, loss)
    column(ctx, ens.median(), np.ravel(f.ens().median()) * scale + shift, msg + "median", 1e-8)
    e0 = obs.build(f, [0, 1, 2]).mode(np.array(sorted(f.inside())))
    column(ctx, ens.mode(np.array(sorted(f.inside())) * scale + shift), np.ravel(e0) * scale + shift, msg + "mode") if name.startswith("interp") else None


HARNESSES = {
    "closed": closed,
    "numeric": numeric,
    "mixtures": mixtures,
    "partial": partial,
    "entropy": entropy,
    "quantiles": quantiles,
    "shifted": shifted,
}
BOUNDS = {
    "quick": "all sequences of up to 3 of 3 rows for the closed forms; moments 1-4, all stats; selected rows where moments are integrated numerically",
    "thorough": "all sequences of up to 4 rows, all rows for the numerical ones, more limits",
}
ASSUMPTIONS = ["Moments of histograms take each bin at its centre, those of gridded densities are trapezoids, as documented by the code; moments without closed form are compared within 0.5 %."]
