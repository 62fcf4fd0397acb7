"""C15: metrics return their defined value for each PDF, independent of the other PDFs

Oracle: the definitions written down again for one PDF at a time, from the values the PDF has alone (a fresh ensemble of
one PDF).
Explored: all multisets and orders of up to 3 rows of every representation x limits and resolutions, every truth from an
alphabet; all vectors of up to 4 (estimate, reference) pairs for the point metrics; functions and classes.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, obs
from mc.util import exact, raises, same
from qp.metrics import array_metrics as am
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import metrics as mm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.brier import Brier

PROPERTY = "C15"
LEVEL = "model_checking"

EPS = 2.0**-52
GRIDS = [((0.0, 2.0), 0.125), ((-1.0, 3.0), 0.25), ((0.5, 1.5), 0.0625), ((10.0, 12.0), 0.5), ((0.0, 3.0), 0.01)]
_ONE = {}


def grid_of(limits, dx):
    """points, resolution"""
    n = int(math.floor((limits[1] - limits[0]) / dx + 1e-9))
    step = (limits[1] - limits[0]) / (n - 1)
    return np.array([limits[0] + step * i for i in range(n)]), step


def alone(f, row, kind, pts):
    """values of one PDF that is the only one"""
    key = (f.name, row, kind, tuple(pts))
    if key not in _ONE:
        if len(_ONE) > 4000:
            _ONE.clear()
        with np.errstate(all="ignore"):
            _ONE[key] = np.ravel(getattr(obs.build(f, [row]), kind)(np.array(pts)))
    return _ONE[key]


PICKS = [(0,), (2,), (0, 1), (2, 0), (1, 1), (0, 1, 2), (2, 1, 0), (1, 0, 1), (1, 2, 0)]


def subject(ctx):
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    pick = ctx.choose("rows", list(itertools.product(range(3), repeat=3)) + PICKS if ctx.thorough else PICKS)
    return f, pick


def single(ctx):
    """moments, outlier rates"""
    f, pick = subject(ctx)
    limits, dx = ctx.choose("grid", GRIDS)
    ens = obs.build(f, pick, obs.ancil(pick))
    before = obs.frozen_state(ens)
    pts, step = grid_of(limits, dx)
    ctx.state(f.name, pick, limits, dx)
    for order in (0, 1, 2, 3):
        want = [float(np.sum(alone(f, r, "pdf", pts) * pts**order)) * step for r in pick]
        same(ctx, mm.calculate_moment(ens, order, limits, dx), want, "%s %s: moment %i on %s" % (f.name, pick, order, limits), 1e-9, 1e-11)
        same(ctx, cm.MomentMetric(order, limits, dx).evaluate(ens), want, "%s %s: MomentMetric %i on %s" % (f.name, pick, order, limits), 1e-9, 1e-11)
        ctx.step(2)
    lo, hi = limits
    want = [alone(f, r, "cdf", [lo])[0] + 1 - alone(f, r, "cdf", [hi])[0] for r in pick]
    same(ctx, mm.calculate_outlier_rate(ens, lo, hi), want, "%s %s: outlier rate %s" % (f.name, pick, limits), 1e-9, 1e-11)
    same(ctx, cm.OutlierMetric(cdf_limits=limits).evaluate(ens), want, "%s %s: OutlierMetric %s" % (f.name, pick, limits), 1e-9, 1e-11)
    if limits == GRIDS[0][0]:
        want = [alone(f, r, "cdf", [0.0001])[0] + 1 - alone(f, r, "cdf", [0.9999])[0] for r in pick]
        same(ctx, mm.calculate_outlier_rate(ens), want, "%s %s: outlier rate, default limits" % (f.name, pick), 1e-9, 1e-11)
        same(ctx, cm.OutlierMetric().evaluate(ens), want, "%s %s: OutlierMetric, default limits" % (f.name, pick), 1e-9, 1e-11)
    if limits == (0.0, 3.0):
        pts, step = grid_of(limits, 0.01)
        want = [float(np.sum(alone(f, r, "pdf", pts) * pts)) * step for r in pick]
        same(ctx, cm.MomentMetric().evaluate(ens), want, "%s %s: default MomentMetric" % (f.name, pick), 1e-9, 1e-11)
    ctx.step(4)
    obs.unchanged(ctx, ens, before, "%s metrics" % f.name)


def log_(v):
    return np.log(np.maximum(v, EPS))


OTHERS = ["same", "norm", "hist_n", "interp_z", "mixmod", "quant_pl", "packed_log"]


def pair(ctx):
    """divergence and distance of two ensembles"""
    f, pick = subject(ctx)
    other = ctx.choose("other representation", OTHERS)
    g = f if other == "same" else fix.make(other, 3)
    pick2 = ctx.choose("rows of the other", [pick, pick[::-1], tuple((r + 1) % 3 for r in pick)])
    limits, dx = ctx.choose("grid", GRIDS[:3] if not ctx.thorough else GRIDS)
    p, q = obs.build(f, pick, obs.ancil(pick)), obs.build(g, pick2)
    before = obs.frozen_state(p), obs.frozen_state(q)
    pts, step = grid_of(limits, dx)
    msg = "%s %s and %s %s on %s" % (f.name, pick, g.name, pick2, limits)
    ctx.state(f.name, pick, g.name, pick2, limits)
    a = [alone(f, r, "pdf", pts) for r in pick]
    b = [alone(g, r, "pdf", pts) for r in pick2]
    rmse = [math.sqrt(math.fsum((u - v) ** 2) / len(pts)) for u, v in zip(a, b)]
    same(ctx, mm.calculate_rmse(p, q, limits, dx), rmse, "rmse of %s" % msg, 1e-8, 1e-11)
    same(ctx, cm.RMSEMetric(limits, dx).evaluate(p, q), rmse, "RMSEMetric of %s" % msg, 1e-8, 1e-11)
    kld = np.array([step * math.fsum(u * (log_(u) - log_(v))) for u, v in zip(a, b)])
    ctx.step(4)
    size = np.array([step * math.fsum(np.abs(u * (log_(u) - log_(v)))) for u, v in zip(a, b)])
    clear = np.all((kld > 1e-9 * (1 + size)) | (kld < -1e-9 * (1 + size)) | (size == 0))
    for got, what in ((mm.calculate_kld(p, q, limits, dx), "kld"), (cm.KLDMetric(limits, dx).evaluate(p, q), "KLDMetric")):
        got = np.asarray(got)
        if got.shape == kld.shape and np.any(kld < 1e-9 * (1 + size)) and np.all(got == EPS):
            # the sums that are negative (or zero up to rounding) replace all others
            if np.any(kld > 1e-9 * (1 + size)) and np.any(kld < 0):
                ctx.finding("kld-negative", "%s of %s is %s instead of %s" % (what, msg, got, kld))
            continue
        if clear and np.any(kld < 0):
            want = np.where(kld < 0, EPS, kld)
            same(ctx, got, want, "%s of %s" % (what, msg), 1e-8, 1e-10)
        else:
            same(ctx, got, kld, "%s of %s" % (what, msg), 1e-8, 1e-10 * (1 + float(np.max(size))))
    if len(pick) > 1:
        short = obs.build(g, pick2[:-1])
        for fn in (mm.calculate_kld, mm.calculate_rmse):
            ctx.check(isinstance(raises(fn, p, short, limits, dx), ValueError), "%s: ensembles of different sizes are accepted" % fn.__name__)
    obs.unchanged(ctx, p, before[0], msg)
    obs.unchanged(ctx, q, before[1], msg)


def truths(ctx):
    """Brier score and conditional density loss"""
    f, pick = subject(ctx)
    limits, dx = ctx.choose("grid", GRIDS[:3])
    pts, step = grid_of(limits, dx)
    n = len(pts)
    # away from the middle between two points, where either point is right
    alph = [limits[0], limits[1], pts[n // 3] + 0.2 * step, pts[2 * n // 3] + 0.71 * step]
    for truth in itertools.product(alph if len(pick) < 3 or ctx.thorough else alph[1:], repeat=len(pick)):
        form = [np.array(truth), list(truth)][ctx.compared % 2]
        ens = obs.build(f, pick)
        before = obs.frozen_state(ens)
        pdf = [alone(f, r, "pdf", pts) for r in pick]
        near = [int(np.argmin(np.abs(pts - t))) for t in truth]
        tot = 0.0
        for v, k in zip(pdf, near):
            tot += math.fsum((x - (1.0 if i == k else 0.0)) ** 2 for i, x in enumerate(v))
        msg = "%s %s at %s" % (f.name, pick, truth)
        ctx.state(f.name, pick, limits, truth)
        same(ctx, mm.calculate_brier(ens, form, limits, dx), tot / len(pick), "Brier score of " + msg, 1e-9, 1e-11)
        same(ctx, cm.BrierMetric(limits, dx).evaluate(ens, form), tot / len(pick), "BrierMetric of " + msg, 1e-9, 1e-11)
        t1 = math.fsum(math.fsum(0.5 * (a - b) * (u * u + v * v) for a, b, u, v in zip(pts[1:], pts, w, w[1:])) for w in pdf) / len(pick)
        t2 = math.fsum(w[k] for w, k in zip(pdf, near)) / len(pick)
        same(ctx, cm.CDELossMetric(eval_grid=pts).evaluate(ens, form), t1 - 2 * t2, "CDE loss of " + msg, 1e-9, 1e-11)
        same(ctx, cm.CDELossMetric(eval_grid=pts.tolist()).evaluate(ens, form), t1 - 2 * t2, "CDE loss of " + msg, 1e-9, 1e-11)
        uneven = [p for k, p in enumerate(pts.tolist()) if k % 5 in (0, 1, 3)]
        pdf = [alone(f, r, "pdf", uneven) for r in pick]
        near = [int(np.argmin(np.abs(np.array(uneven) - t))) for t in truth]
        t1 = math.fsum(math.fsum(0.5 * (a - b) * (u * u + v * v) for a, b, u, v in zip(uneven[1:], uneven, w, w[1:])) for w in pdf) / len(pick)
        t2 = math.fsum(w[k] for w, k in zip(pdf, near)) / len(pick)
        same(ctx, cm.CDELossMetric(eval_grid=uneven).evaluate(ens, form), t1 - 2 * t2, "CDE loss on an uneven grid of " + msg, 1e-9, 1e-11)
        ctx.step(4)
        obs.unchanged(ctx, ens, before, msg)
    bad = [list(truth[:-1]) + [limits[0] - 0.01], list(truth[:-1]) + [limits[1] + 0.01], list(truth) + [limits[0]], list(truth[:-1])]
    for t in bad:
        if t:
            ctx.check(isinstance(raises(mm.calculate_brier, ens, np.array(t), limits, dx), ValueError), "truths %s within %s for %i PDFs are accepted" % (t, limits, len(pick)))


def goodness(ctx):
    """statistics of samples against the reference of each PDF"""
    f, pick = subject(ctx)
    if not ctx.thorough and pick not in ((0,), (2, 0), (1, 2, 0)):
        return
    ref = ctx.choose("reference", ["norm", "hist_u", "interp_z", "mixmod", "same"] if ctx.thorough else ["norm", "interp_z", "same"])
    g = f if ref == "same" else fix.make(ref, 3)
    n = ctx.choose("samples", [1, 4] if not ctx.thorough else [1, 2, 3, 5, 20])
    if f.cls == "spline" and n > 2:
        return
    seed = ctx.choose("seed", [0, 1, 2] if ctx.thorough else [0, 1])
    many = ctx.choose("reference rows", [pick, (1,)] if len(pick) > 1 else [pick])
    est, refe = obs.build(f, pick), obs.build(g, many)
    before = obs.frozen_state(est), obs.frozen_state(refe)
    with np.errstate(all="ignore"):
        x = np.sort(np.asarray(obs.build(f, pick).rvs(size=n, random_state=seed)), axis=-1)
    msg = "%s %s against %s %s with %i samples" % (f.name, pick, g.name, many, n)
    ctx.check(x.shape == (len(pick), n), "samples of %s have the shape %s" % (msg, x.shape))
    want = dict(ad=[], cvm=[], ks=[])
    i = np.arange(1, n + 1)
    for k, r in enumerate(many if len(many) == len(pick) else [1] * len(pick)):
        e = obs.build(g, [r])
        with np.errstate(all="ignore"):
            c = np.ravel(e.cdf(x[k]))
            lc, ls = np.ravel(e.logcdf(x[k])), np.ravel(e.logsf(x[k]))
            want["ad"].append(-n - np.sum((2 * i - 1) / n * (lc + ls[::-1])))
        want["cvm"].append(1 / (12 * n) + np.sum(((2 * i - 1) / (2 * n) - c) ** 2))
        want["ks"].append(max(np.max(i / n - c), np.max(c - (i - 1) / n)))
    classes = dict(ad=cm.ADMetric, cvm=cm.CvMMetric, ks=cm.KSMetric)
    ctx.state(f.name, pick, g.name, many, n, seed)
    for name, vals in want.items():
        with np.errstate(all="ignore"):
            got = mm.calculate_goodness_of_fit(est, refe, fit_metric=name, num_samples=n, _random_state=seed)
            same(ctx, got, vals, "%s of %s" % (name, msg), 1e-8, 1e-10)
            got = classes[name](num_samples=n, _random_state=seed).evaluate(est, refe)
            same(ctx, got, vals, "%sMetric of %s" % (name, msg), 1e-8, 1e-10)
        ctx.step(2)
    ctx.check(isinstance(raises(mm.calculate_goodness_of_fit, est, refe, "nothing"), KeyError), "an unknown statistic is accepted")
    obs.unchanged(ctx, est, before[0], msg)
    obs.unchanged(ctx, refe, before[1], msg)


def risk(ctx):
    """risk based point estimates minimise the risk of each PDF"""
    name = ctx.choose("representation", ["norm", "gamma", "beta", "hist_u", "interp_z", "irreg", "packed_lin"] if ctx.thorough else ["norm", "beta", "interp_z", "irreg"])
    f = fix.make(name, 3)
    pick = ctx.choose("rows", [(0,), (2, 0)] + ([(0, 1), (1, 2, 0)] if ctx.thorough else []))
    limits, cls = ctx.choose("limits", [((np.inf, np.inf), True), ((0.0, 1.0), False), ((0.25, 3.0), True)])
    ens = obs.build(f, pick)
    got = cm.RBPEMetric(limits=limits).evaluate(ens) if cls else mm.calculate_rbpe(ens, limits)
    ctx.step()
    ctx.check(np.shape(got) == (len(pick),), "%s: shape %s of %i estimates" % (name, np.shape(got), len(pick)))
    ctx.state(name, pick, limits)
    for r, v in zip(pick, got):
        key = (name, r, limits)
        if key not in _ONE:
            _ONE[key] = float(mm.calculate_rbpe(obs.build(f, [r]), limits)[0])
        same(ctx, v, _ONE[key], "%s %s: estimate of row %i with %s" % (name, pick, r, limits), 1e-5, 1e-6)
        if name == "norm" and r == 0:
            continue  # the pole of the loss at -1 is inside
        a, b = (alone(f, r, "ppf", [q])[0] for q in (0.01, 0.99))
        zs = np.linspace(a, b, 2001)
        w = alone(f, r, "pdf", zs)

        def value(zp):
            t = ((zp - zs) / (1 + zs) / 0.15) ** 2
            y = w * (1 - 1 / (1 + t))
            return float(np.sum(0.5 * np.diff(zs) * (y[1:] + y[:-1])))

        here = value(v)
        if limits[0] != np.inf:
            ctx.check(limits[0] <= v <= limits[1], "%s: estimate %r of row %i is outside %s" % (name, v, r, limits))
        for d in (0.02, -0.02, 0.1, -0.1):
            u = v + d if limits[0] == np.inf else min(max(v + d, limits[0]), limits[1])
            ctx.check(here <= value(u) + 2e-3, "%s: the risk of row %i at %r is larger than at %r" % (name, r, v, u))


def quick(ctx):
    """the array functions on small arrays of any number of dimensions"""
    n = ctx.choose("points", [1, 2, 3])
    alph = [0.0, 0.5, 1.0, 2.0]
    p = np.array(ctx.choose("p", list(itertools.product(alph, repeat=n))))
    for q in itertools.product(alph, repeat=n):
        q = np.array(q)
        keep = p.copy(), q.copy()
        for dx in (0.5, 0.01):
            want = dx * math.fsum(a * (math.log(max(a, EPS)) - math.log(max(b, EPS))) for a, b in zip(p, q))
            same(ctx, am.quick_kld(p, q, dx), want, "quick_kld(%s, %s)" % (p, q), 1e-10, 1e-13)
            same(ctx, am.quick_kld(np.array([p, q]), np.array([q, q]), dx), [want, 0.0], "quick_kld of two rows", 1e-10, 1e-13)
            same(ctx, am.quick_moment(p, q, dx), dx * math.fsum(p * q), "quick_moment(%s, %s)" % (p, q), 1e-10, 1e-13)
            same(ctx, am.quick_moment(np.array([p, q]), q, dx), [dx * math.fsum(p * q), dx * math.fsum(q * q)], "quick_moment of two rows", 1e-10, 1e-13)
        want = math.sqrt(math.fsum((p - q) ** 2) / n)
        same(ctx, am.quick_rmse(p, q, n), want, "quick_rmse(%s, %s)" % (p, q), 1e-10, 1e-13)
        for m in (1, 4, 10):
            # the number of points is the caller's: the sum may run over a part of them
            same(ctx, am.quick_rmse(p, q, m), math.sqrt(math.fsum((p - q) ** 2) / m), "quick_rmse(%s, %s) of %i points" % (p, q, m), 1e-10, 1e-13)
        same(ctx, am.quick_rmse(np.array([p, p]), np.array([q, p]), n), [want, 0.0], "quick_rmse of two rows", 1e-10, 1e-13)
        # the Brier score of arrays and lists, one row and two
        for t in range(n):
            truth = [1 if i == t else 0 for i in range(n)]
            one = math.fsum((a - b) ** 2 for a, b in zip(p, truth))
            two = math.fsum((a - b) ** 2 for a, b in zip(q, truth))
            same(ctx, Brier(p, np.array(truth)).evaluate(), one, "Brier score of %s" % p, 1e-12, 1e-14)
            same(ctx, Brier(p.tolist(), truth).evaluate(), one, "Brier score of %s as a list" % p, 1e-12, 1e-14)
            same(ctx, Brier(np.array([p, q]), np.array([truth, truth])).evaluate(), (one + two) / 2, "Brier score of %s and %s" % (p, q), 1e-12, 1e-14)
            same(ctx, Brier([p.tolist(), q.tolist()], [truth, truth]).accumulate(), one + two, "sum of the Brier scores of %s and %s" % (p, q), 1e-12, 1e-14)
        ctx.check(isinstance(raises(Brier(p, np.zeros(n + 1)).evaluate), ValueError), "Brier accepts different shapes")
        ctx.check(isinstance(raises(Brier(["a"] * n, np.zeros(n)).evaluate), TypeError), "Brier accepts text")
        exact(ctx, p, keep[0], "input")
        exact(ctx, q, keep[1], "input")
        ctx.step(10)
        ctx.state(tuple(p), tuple(q))


def med(v):
    v = sorted(v)
    k = len(v) // 2
    return v[k] if len(v) % 2 else 0.5 * (v[k - 1] + v[k])


def quantile(v, q):
    v = sorted(v)
    pos = q * (len(v) - 1)
    i = min(int(pos), len(v) - 2) if len(v) > 1 else 0
    return v[i] + (pos - i) * (v[i + 1] - v[i]) if len(v) > 1 else v[0]


def points(ctx):
    """point metrics for every small set of pairs"""
    n = ctx.choose("pairs", [1, 2, 3, 4])
    est = [0.0, 0.5, 1.25] if n < 4 else [0.0, 1.25]
    tru = [0.0, 0.45, 1.0] if n < 4 else [0.0, 0.45]
    alph = list(itertools.product(est, tru)) + ([(5.0, 0.25)] if n > 2 else [])
    first = ctx.choose("first pair", alph)
    form = ctx.choose("type", ["f8", "f4"]) if n < 3 else "f8"
    for rest in itertools.product(alph, repeat=n - 1):
        pairs = (first,) + rest
        e, t = np.array([p[0] for p in pairs], form), np.array([p[1] for p in pairs], form)
        keep = e.copy(), t.copy()
        ez = [(float(a) - float(b)) / (1 + float(b)) for a, b in zip(e, t)]
        tol = 1e-12 if form == "f8" else 1e-5
        same(ctx, pm.PointStatsEz().evaluate(e, t), ez, "ez of %s" % (pairs,), tol, tol)
        sig = (quantile(ez, 0.75) - quantile(ez, 0.25)) / 1.349
        same(ctx, pm.PointSigmaIQR().evaluate(e, t), sig, "interquartile width of %s" % (pairs,), tol, tol)
        same(ctx, pm.PointBias().evaluate(e, t), med(ez), "bias of %s" % (pairs,), tol, tol)
        cut = max(0.06, 3 * sig)
        if all(abs(abs(v) - cut) > 1e-6 for v in ez):
            same(ctx, pm.PointOutlierRate().evaluate(e, t), sum(abs(v) > cut for v in ez) / n, "outlier rate of %s" % (pairs,), tol, tol)
        m = med(ez)
        same(ctx, pm.PointSigmaMAD().evaluate(e, t), 1.4826 * med([abs(v - m) for v in ez]), "median deviation of %s" % (pairs,), tol, tol)
        ctx.step(5)
        exact(ctx, e, keep[0], "estimates")
        exact(ctx, t, keep[1], "references")
        ctx.state(pairs)


def samples(ctx):
    """k-sample Anderson-Darling statistic"""
    from scipy import stats

    a = np.array(ctx.choose("p", list(itertools.product([0.1, 0.4, 0.45, 0.9], repeat=3))))
    for b in itertools.product([0.1, 0.4, 0.8], repeat=2):
        b = np.array(b)
        if len(set(a.tolist()) | set(b.tolist())) < 2:
            continue
        got = am.quick_anderson_ksamp(a, b)
        want = stats.anderson_ksamp([a, b])
        same(ctx, got.statistic, want.statistic, "statistic of %s and %s" % (a, b))
        same(ctx, got.critical_values, want.critical_values, "critical values of %s and %s" % (a, b))
        # the definition of Scholz and Stephens, midrank version
        z = np.sort(np.concatenate([a, b]))
        n = len(z)
        tot = 0.0
        for s in (a, b):
            inner = 0.0
            for v in sorted(set(z.tolist())):
                l = np.sum(z == v)
                bj = np.sum(z < v) + l / 2
                mij = np.sum(s < v) + np.sum(s == v) / 2
                den = bj * (n - bj) - n * l / 4
                if den > 0:
                    inner += l / n * (n * mij - bj * len(s)) ** 2 / den
            tot += inner / len(s)
        tot *= (n - 1) / n
        k = 2
        hh = sum(1 / i for i in range(1, n))
        g = sum(1 / ((n - i) * j) for i in range(1, n - 1) for j in range(i + 1, n))
        hs = 1 / len(a) + 1 / len(b)
        aa = (4 * g - 6) * (k - 1) + (10 - 6 * g) * hs
        bb = (2 * g - 4) * k**2 + 8 * hh * k + (2 * g - 14 * hh - 4) * hs - 8 * hh + 4 * g - 6
        cc = (6 * hh + 2 * g - 2) * k**2 + (4 * hh - 4 * g + 6) * k + (2 * hh - 6) * hs + 4 * hh
        dd = (2 * hh + 6) * k**2 - 4 * hh * k
        var = (aa * n**3 + bb * n**2 + cc * n + dd) / ((n - 1.0) * (n - 2.0) * (n - 3.0))
        same(ctx, got.statistic, (tot - 1) / math.sqrt(var), "definition of the statistic of %s and %s" % (a, b), 1e-8, 1e-9)
        ctx.step()
        ctx.state(tuple(a), tuple(b))


def defaults(ctx):
    """metrics made without arguments, and the form of what the classes return"""
    from qp.metrics.base_metric_classes import BaseMetric, MetricInputType, MetricOutputType
    from qp.metrics.pit import PIT

    for kinds in (MetricInputType, MetricOutputType):
        ctx.check(len({k.value for k in kinds}) == len(kinds.__members__), "%s: two members are one" % kinds.__name__)
    f = fix.make(ctx.choose("representation", ["norm", "hist_u", "interp_z", "mixmod", "quant_pl", "packed_lin"] if not ctx.thorough else fix.CORE), 3)
    pick = ctx.choose("rows", [(0,), (2, 0), (1, 2, 0)])
    ref = fix.make(ctx.choose("reference", ["norm", "interp_z"]), 3)
    n = len(pick)
    est, other = obs.build(f, pick), obs.build(ref, pick)
    truth = np.array([0.25, 1.5, 0.75])[:n]
    msg = "%s %s" % (f.name, pick)
    ctx.state(f.name, pick, ref.name)
    box, fine = (0.0, 3.0), 0.01
    one, single = MetricOutputType.one_value_per_distribution, MetricOutputType.single_value
    seeds = [0, 1] if ctx.thorough else [1]
    with np.errstate(all="ignore"):
        plan = [
            (cm.MomentMetric, {}, (est,), lambda: mm.calculate_moment(est, 1, box, fine)),
            (cm.MomentMetric, dict(moment_order=2), (est,), lambda: mm.calculate_moment(est, 2, box, fine)),
            (cm.MomentMetric, dict(moment_order=0, limits=(0.0, 1.0)), (est,), lambda: mm.calculate_moment(est, 0, (0.0, 1.0), fine)),
            (cm.MomentMetric, dict(dx=0.125), (est,), lambda: mm.calculate_moment(est, 1, box, 0.125)),
            (cm.KLDMetric, {}, (est, other), lambda: mm.calculate_kld(est, other, box, fine)),
            (cm.KLDMetric, dict(dx=0.125), (est, other), lambda: mm.calculate_kld(est, other, box, 0.125)),
            (cm.KLDMetric, dict(limits=(0.0, 1.0)), (est, other), lambda: mm.calculate_kld(est, other, (0.0, 1.0), fine)),
            (cm.RMSEMetric, {}, (est, other), lambda: mm.calculate_rmse(est, other, box, fine)),
            (cm.RMSEMetric, dict(dx=0.125), (est, other), lambda: mm.calculate_rmse(est, other, box, 0.125)),
            (cm.RMSEMetric, dict(limits=(0.0, 1.0)), (est, other), lambda: mm.calculate_rmse(est, other, (0.0, 1.0), fine)),
            (cm.BrierMetric, {}, (est, truth), lambda: mm.calculate_brier(est, truth, box, fine)),
            (cm.BrierMetric, dict(dx=0.125), (est, truth), lambda: mm.calculate_brier(est, truth, box, 0.125)),
            (cm.BrierMetric, dict(limits=(0.0, 2.0)), (est, truth), lambda: mm.calculate_brier(est, truth, (0.0, 2.0), fine)),
            (cm.OutlierMetric, {}, (est,), lambda: mm.calculate_outlier_rate(est, 0.0001, 0.9999)),
            (cm.CDELossMetric, {}, (est, truth), lambda: cm.CDELossMetric(eval_grid=np.linspace(0, 2.5, 301)).evaluate(est, truth)),
            # functions without the last arguments
            (lambda: mm.calculate_moment(est, 2, (0.0, 1.0)), None, None, lambda: mm.calculate_moment(est, 2, (0.0, 1.0), fine)),
            (lambda: mm.calculate_kld(est, other, (0.0, 1.0)), None, None, lambda: mm.calculate_kld(est, other, (0.0, 1.0), fine)),
            (lambda: mm.calculate_rmse(est, other, (0.0, 1.0)), None, None, lambda: mm.calculate_rmse(est, other, (0.0, 1.0), fine)),
            (lambda: mm.calculate_brier(est, truth, (0.0, 2.0)), None, None, lambda: mm.calculate_brier(est, truth, (0.0, 2.0), fine)),
            (lambda: mm.calculate_outlier_rate(est, lower_limit=0.25), None, None, lambda: mm.calculate_outlier_rate(est, 0.25, 0.9999)),
            (lambda: mm.calculate_outlier_rate(est, upper_limit=0.5), None, None, lambda: mm.calculate_outlier_rate(est, 0.0001, 0.5)),
            (lambda: est.moment_partial(1, (0.0, 2.0)), None, None, lambda: est.moment_partial(1, (0.0, 2.0), fine)),
            (lambda: est.moment_partial(2, limits=(0.0, 2.0), dx=0.125), None, None, lambda: est.moment_partial(2, (0.0, 2.0), 0.125)),
            (lambda: am.quick_kld(*_two(est, other)), None, None, lambda: am.quick_kld(*_two(est, other), dx=0.01)),
        ]
        for name, cls in (("ad", cm.ADMetric), ("cvm", cm.CvMMetric), ("ks", cm.KSMetric)):
            for seed in seeds:
                def whole(name=name, seed=seed, num=100):
                    return mm.calculate_goodness_of_fit(est, other, fit_metric=name, num_samples=num, _random_state=seed)

                plan.append((cls, dict(_random_state=seed), (est, other), whole))
                plan.append((lambda name=name, seed=seed: mm.calculate_goodness_of_fit(est, other, name, _random_state=seed), None, None, whole))
                plan.append((cls, dict(_random_state=seed, num_samples=7), (est, other), lambda w=whole: w(num=7)))

                def later(cls=cls, seed=seed):
                    m = cls(num_samples=7)
                    m.random_state = seed
                    ctx.check(m.random_state == seed, "the random state of %s is %s instead of %s" % (cls.__name__, m.random_state, seed))
                    return m.evaluate(est, other)

                plan.append((later, None, None, lambda w=whole: w(num=7)))
        plan.append((lambda: mm.calculate_goodness_of_fit(est, other, num_samples=7, _random_state=1), None, None, lambda: mm.calculate_goodness_of_fit(est, other, "ks", 7, 1)))
        k = ctx.choose("call", range(len(plan)))
        made, kw, args, ref_fn = plan[k]
        want = np.asarray(ref_fn())
        if kw is None:
            same(ctx, made(), want, "%s: call %i with defaults" % (msg, k), 1e-12, 0)
            ctx.step(2)
            return
        got = made(**kw).evaluate(*args)
        name = "%s%s of %s" % (made.__name__, kw, msg)
        same(ctx, got, want, name, 1e-12, 0)
        kind = made.metric_output_type
        ctx.check(kind in (one, single), "%s returns %s" % (made.__name__, kind))
        ctx.check(np.shape(got) == ((n,) if kind is one else ()), "%s is of the shape %s and not %s" % (name, np.shape(got), kind))
        ctx.step(4)
    if k:
        return
    # the sample as a whole
    for cls, shape in ((pm.PointStatsEz, one), (pm.PointSigmaIQR, single), (pm.PointBias, single), (pm.PointOutlierRate, single), (pm.PointSigmaMAD, single)):
        got = cls().evaluate(truth, truth + 0.25)
        ctx.check(cls.metric_output_type is shape, "%s returns %s" % (cls.__name__, cls.metric_output_type))
        ctx.check(np.shape(got) == ((n,) if shape is one else ()), "%s of %i pairs is of the shape %s" % (cls.__name__, n, np.shape(got)))
        ctx.step()
    got = cm.PITMetric().evaluate(est, truth) if n > 2 else None
    if got is not None:
        ctx.check(cm.PITMetric.metric_output_type is MetricOutputType.single_distribution and isinstance(got, qp.Ensemble) and got.npdf == 1, "the PIT metric is no single distribution")
        want = PIT(est, truth, np.linspace(0, 1, 100)).pit
        grid = np.linspace(0, 1, 9)
        same(ctx, got.cdf(grid), want.cdf(grid), "%s: PIT with defaults" % msg, 1e-12, 0)
        same(ctx, PIT(est, truth).pit.cdf(grid), want.cdf(grid), "%s: PIT with defaults" % msg, 1e-12, 0)
    ctx.check(cm.RBPEMetric.metric_output_type is one, "risk based estimates are %s" % cm.RBPEMetric.metric_output_type)
    base = BaseMetric()
    ctx.check(base.initialize() is None and base.finalize() is None and BaseMetric.metric_output_type is MetricOutputType.unknown, "the base of the metrics does more than nothing")


def _two(a, b):
    pts = np.linspace(0, 2, 17)
    return a.pdf(pts), b.pdf(pts)


HARNESSES = dict(single=single, defaults=defaults, pair=pair, truths=truths, goodness=goodness, risk=risk, quick=quick, points=points, samples=samples)
BOUNDS = dict(
    quick="every representation x 9 selections and orders of up to 3 rows x 5 grids (3 for two ensembles and truths); pairs with 7 other representations in 3 orders; all truths from 3-4 values; goodness of fit with 1 and 4 samples of 3 selections against 3 references, one for all or one each; all vectors of up to 4 pairs from 9 (5) pairs for point metrics; all arrays of up to 3 values from 4 for array functions; risk based estimates of 4 representations",
    thorough="as quick with all 27 triples of rows, 5 grids, 5 numbers of samples, 3 seeds",
)
ASSUMPTIONS = [
    "the values of a PDF that is alone in its ensemble are right (C01, C03)",
    "risk based estimates are checked to be a local minimum of the risk within 0.1 and not to depend on other PDFs (the search is a local one)",
]
