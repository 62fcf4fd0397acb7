"""C16: metrics accumulated over chunks equal the metric of the whole

Oracle: the definitions on the whole data set, one PDF or one pair at a time; for the metrics that use a sketch (t-digest)
the piecewise linear inverse cdf through the mid-ranks of the whole sample, which is what the sketch represents exactly as
long as it has fewer different values than its size, and a bound on the ranks when it has more.
Explored: all ways to cut up to 5 (6) PDFs or pairs into consecutive chunks x all orders in which the partial results come
x all accumulating metrics x representations; partial results of two data sets interleaved on one metric object.
"""

import contextlib
import io
import itertools
import math
import os
import pickle

import numpy as np
import qp
from mc import fix, obs
from mc.util import compositions, same
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import point_estimate_metric_classes as pm

PROPERTY = "C16"
LEVEL = "model_checking"


def pieces(comp):
    out, at = [], 0
    for k in comp:
        out.append((at, at + k))
        at += k
    return out


def sketch(vals):
    """the inverse cdf of a sketch that keeps every different value"""
    vs = sorted(set(vals))
    knots, cum = [], 0.0
    for v in vs:
        w = vals.count(v)
        knots.append((cum + 0.5 * w) / len(vals))
        cum += w

    def inv(q):
        if q <= knots[0]:
            return vs[0]
        for a, b, u, v in zip(knots, knots[1:], vs, vs[1:]):
            if q <= b:
                return u + (q - a) / (b - a) * (v - u)
        return vs[-1]

    return inv


def ez(e, t):
    return [(float(a) - float(b)) / (1 + float(b)) for a, b in zip(e, t)]


def definition(name, vals):
    """(value or None if rounding decides)"""
    inv = sketch(vals)
    if name == "bias":
        return inv(0.5)
    sig = (inv(0.75) - inv(0.25)) / 1.349
    if name == "iqr":
        return sig
    if name == "outlier":
        cut = max(0.06, 3 * sig)
        if any(abs(abs(v) - cut) < 1e-9 for v in vals):
            return None
        return sum(abs(v) > cut for v in vals) / len(vals)
    return None


POINT = dict(iqr=pm.PointSigmaIQR, bias=pm.PointBias, outlier=pm.PointOutlierRate, mad=pm.PointSigmaMAD)
SMALL = {}


def metric(name):
    return POINT[name](num_bins=2000) if name == "mad" else POINT[name]()


def bracket(ctx, name, vals, got, msg):
    """the result is that of the whole sample up to the neighbours in rank"""
    v = sorted(vals)
    n = len(v)

    def near(q):
        return v[max(int(math.floor(q * n - 0.5)) - 1, 0)], v[min(int(math.ceil(q * n + 0.5)), n - 1)]

    eps = 1e-9
    if name == "bias":
        lo, hi = near(0.5)
        ctx.check(lo - eps <= got <= hi + eps, "%s: %r is not between %r and %r" % (msg, got, lo, hi))
    if name == "mad":
        # half of the sample is within the distance of the median, up to the weight of the neighbours
        inv = sketch(vals)
        m = inv(0.5)
        d = sorted(abs(x - m) for x in v)
        most = max(v.count(x) for x in v)
        bins = (v[-1] - v[0]) / 1000
        lo, hi = d[max(int(math.floor(n / 2)) - 2 - most, 0)], d[min(int(math.ceil(n / 2)) + most, n - 1)]
        if lo == d[0]:
            lo = 0
        ctx.check(lo * 1.4826 - bins - eps <= got <= hi * 1.4826 + bins + eps, "%s: %r is not between %r and %r" % (msg, got, lo * 1.4826, hi * 1.4826))


def orders(comp, thorough):
    k = len(comp)
    if k <= 4 or thorough:
        return list(itertools.permutations(range(k)))
    keep = [tuple(range(k)), tuple(range(k))[::-1]]
    return keep + [tuple(range(s, k)) + tuple(range(s)) for s in range(1, k)] + [tuple(p) for p in itertools.permutations(range(k)) if p[0] == 2][:10]


PAIRS = [
    [(0.5, 0.45), (0.1, 0.2), (1.25, 1.0), (0.0, 0.0), (5.0, 0.25), (0.3, 0.35)],
    [(0.5, 0.5), (0.5, 0.5), (0.9, 1.0), (0.5, 0.5), (1.5, 1.0), (0.5, 0.5)],
    [(0.1, 0.9), (0.2, 0.8), (0.3, 0.7), (0.4, 0.6), (0.5, 0.5), (0.6, 0.4)],
    [(3.0, 0.0), (0.011, 0.0), (0.012, 0.0), (0.013, 0.0), (0.014, 0.0), (0.015, 0.0)],
]


def points(ctx):
    """point metrics"""
    name = ctx.choose("metric", sorted(POINT))
    n = ctx.choose("pairs", [1, 2, 3, 4, 5, 6] if ctx.thorough else [1, 2, 3, 4, 5])
    data = ctx.choose("sample", PAIRS)
    form = ctx.choose("type", ["f8", "f4"])
    order = ctx.choose("rows", list(itertools.permutations(range(n)))[:: max(1, math.factorial(n) // 6)])
    e, t = np.array([data[i][0] for i in order], form), np.array([data[i][1] for i in order], form)
    vals = ez(e, t) if form == "f8" else [float(v) for v in (e - t) / (np.float32(1) + t)]
    want = definition(name, vals)
    tol = 1e-9 if form == "f8" else 1e-6
    whole = None
    for comp in compositions(n):
        m = metric(name)
        keep = e.copy(), t.copy()
        m.initialize()
        parts = [m.accumulate(e[a:b], t[a:b]) for a, b in pieces(comp)]
        for perm in orders(comp, ctx.thorough):
            got = float(m.finalize([parts[i] for i in perm]))
            ctx.step(len(comp) + 1)
            ctx.state(name, n, comp, perm, order, form)
            msg = "%s of %s in chunks %s taken as %s" % (name, list(zip(e.tolist(), t.tolist())), comp, perm)
            ctx.check(math.isfinite(got), "%s: %r" % (msg, got))
            if want is not None:
                same(ctx, got, want, msg, tol, tol)
            bracket(ctx, name, vals, got, msg)
            if whole is None:
                whole = got
            if name != "outlier" or want is not None:
                same(ctx, got, whole, msg + " and at once", 1e-6, 1e-6)
        same(ctx, e, keep[0], "estimates")
        same(ctx, t, keep[1], "references")
        # by iterating, from lists, generators and through pickling
        cut = pieces(comp)
        for it in (list, iter, lambda s: (x for x in s)):
            got = float(metric(name).eval_from_iterator(it([e[a:b] for a, b in cut]), it([t[a:b] for a, b in cut])))
            if want is not None:
                same(ctx, got, want, "%s by iterating over chunks %s" % (name, comp), tol, tol)
            elif name == "mad":
                same(ctx, got, whole, "%s by iterating over chunks %s" % (name, comp), 1e-6, 1e-6)
            ctx.step(len(comp))
        got = float(metric(name).finalize(pickle.loads(pickle.dumps(parts))))
        if want is not None:
            same(ctx, got, want, "%s of partial results sent by other processes" % name, tol, tol)


REPS = ["norm", "beta", "hist_u", "hist_n", "interp_z", "interp_n", "irreg", "mixmod", "quant_pl", "quant_dsa", "packed_log", "sparse", "spline"]
GRID = np.linspace(0.0, 2.0, 17)
# the steps of the grid of the conditional density loss need not be equal
UNEVEN = np.array([0.0, 0.05, 0.1, 0.3, 0.55, 0.6, 1.0, 1.1, 1.6, 2.0])


def alone(f, row, kind, pts):
    with np.errstate(all="ignore"):
        return np.ravel(getattr(obs.build(f, [row]), kind)(np.array(pts)))


def truth_of(f, i, k):
    inside = f.inside()
    return [0.3 + 0.25 * i, 1.9 - 0.3 * i, min(max(inside[(2 * i + 1) % len(inside)], 0.05), 1.95)][k]


def want_brier(f, rows, truths, grid):
    width = (grid[-1] - grid[0]) / (len(grid) - 1)
    tot = 0.0
    for r, z in zip(rows, truths):
        k = int(math.floor((z - grid[0]) / width + 0.5))
        tot += math.fsum((x - (1.0 if i == k else 0.0)) ** 2 for i, x in enumerate(alone(f, r, "pdf", grid)))
    return tot / len(rows)


def want_cde(f, rows, truths, grid):
    t1 = t2 = 0.0
    for r, z in zip(rows, truths):
        w = alone(f, r, "pdf", grid)
        t1 += math.fsum(0.5 * (b - a) * (u * u + v * v) for a, b, u, v in zip(grid, grid[1:], w, w[1:]))
        t2 += w[int(np.argmin(np.abs(grid - z)))]
    return (t1 - 2 * t2) / len(rows)


def want_pit(pits, grid):
    """levels and locations of the quantile ensemble, or None if it cannot be represented"""
    if len(pits) < len(grid):
        grid = np.linspace(0, 1, len(pits))
    inv = sketch(pits)
    levels, locs = [], []
    for q in grid:
        v = inv(float(q))
        if locs and abs(v - locs[-1]) < 1e-12:
            continue
        levels.append(float(q))
        locs.append(v)
    keep = [i for i, v in enumerate(locs) if 0 < v < 1]
    if len(keep) < 2:
        return None
    return [levels[i] for i in keep], [locs[i] for i in keep]


def check_pit(ctx, ens, want, msg):
    levels, locs = want
    ctx.check(ens.npdf == 1, "%s: %i PDFs" % (msg, ens.npdf))
    q, l = np.ravel(ens.metadata()["quants"]), np.ravel(ens.objdata()["locs"])
    ref = fix.ref.QuantRow(levels, locs, "piecewise_linear")
    same(ctx, q, ref.q, msg + ": quantile levels", 1e-9, 1e-12)
    same(ctx, l, ref.l, msg + ": quantile locations", 1e-6, 1e-8)


def dists(ctx):
    """metrics of distributions and points"""
    name = ctx.choose("metric", ["brier", "cdeloss", "pit"])
    f = fix.make(ctx.choose("representation", REPS), 6)
    n = ctx.choose("npdf", [1, 2, 3, 4, 5] if ctx.thorough else [1, 2, 4])
    rows = ctx.choose("rows", [tuple(range(n)), tuple(range(n))[::-1], tuple((2 * i + 1) % 6 for i in range(n))])
    kind = ctx.choose("truths", [0, 1, 2])
    truths = np.array([truth_of(f, i, kind) for i in rows])
    ens = obs.build(f, rows, obs.ancil(rows))
    want_at_once = None
    if name == "brier":
        dx = 2.0 / 17
        # the points of the metric: away from the middle between two points, where either is right
        truths = np.array([GRID[min(int(np.argmin(np.abs(GRID - t))), 15)] + 0.01 for t in truths])
        m, want = cm.BrierMetric(limits=(0.0, 2.0), dx=dx - 1e-12), want_brier(f, rows, truths, GRID)
        want_at_once = want
    elif name == "cdeloss":
        truths = np.array([GRID[min(int(np.argmin(np.abs(GRID - t))), 15)] + 0.01 for t in truths])
        m, want = cm.CDELossMetric(eval_grid=UNEVEN), want_cde(f, rows, truths, UNEVEN)
        want_at_once = want
    else:
        grid = [np.linspace(0, 1, 4), np.array([0.0, 0.1, 0.35, 0.8])][kind % 2]
        pits = [float(alone(f, r, "cdf", [z])[0]) for r, z in zip(rows, truths)]
        # values that differ by rounding only are one for the sketch or not
        pits = [round(p, 12) for p in pits]
        want = want_pit(pits, grid)
        if want is None or (len(pits) > 1 and min(abs(a - b) for a, b in itertools.combinations(pits, 2)) < 1e-9 and len(set(pits)) == len(pits)):
            return
        m = cm.PITMetric(eval_grid=grid)
    ctx.state(name, f.name, rows, kind)
    before = obs.frozen_state(ens)
    msg0 = "%s of %s %s" % (name, f.name, rows)
    if want_at_once is not None:
        same(ctx, m.evaluate(ens, truths), want_at_once, msg0 + " at once", 1e-9, 1e-10)
    for comp in compositions(n):
        m.initialize()
        parts = [m.accumulate(ens[np.arange(a, b)] if b - a > 1 else ens[a], truths[a:b]) for a, b in pieces(comp)]
        for perm in orders(comp, ctx.thorough):
            got = m.finalize([parts[i] for i in perm])
            msg = "%s in chunks %s taken as %s" % (msg0, comp, perm)
            if name == "pit":
                check_pit(ctx, got, want, msg)
            else:
                same(ctx, got, want, msg, 1e-9, 1e-10)
            ctx.step(len(comp) + 1)
            ctx.state(name, f.name, rows, kind, comp, perm)
        got = m.finalize(pickle.loads(pickle.dumps(parts)))
        if name == "pit":
            check_pit(ctx, got, want, msg0 + " from other processes")
        else:
            same(ctx, got, want, msg0 + " from other processes", 1e-9, 1e-10)
    obs.unchanged(ctx, ens, before, msg0)


_FILES = {}


def files(ctx):
    """chunks read from a file by several parallel readers"""
    f = fix.make(ctx.choose("representation", ["norm", "hist_n", "irreg", "mixmod", "quant_pl", "packed_lin"]), 6)
    n = ctx.choose("npdf", [3, 5])
    size = ctx.choose("chunk size", [1, 2, 3, 7])
    readers = ctx.choose("readers", [1, 2, 3])
    key = (f.name, n)
    if key not in _FILES:
        _FILES[key] = os.path.join(os.environ["QPMC_SCRATCH"], "c16-%i-%s-%i.hdf5" % (os.getpid(), f.name, n))
        obs.build(f, range(n)).write_to(_FILES[key])
    truths = np.array([GRID[min(int(np.argmin(np.abs(GRID - truth_of(f, i, 0)))), 15)] + 0.01 for i in range(n)])
    pits = [float(alone(f, r, "cdf", [z])[0]) for r, z in zip(range(n), truths)]
    grid = np.linspace(0, 1, 3)
    todo = [(cm.BrierMetric(limits=(0.0, 2.0), dx=2.0 / 17 - 1e-12), want_brier(f, range(n), truths, GRID)), (cm.CDELossMetric(eval_grid=UNEVEN), want_cde(f, range(n), truths, UNEVEN))]
    pit = want_pit([round(p, 12) for p in pits], grid)
    parts = [[] for _ in range(3)]
    mp = cm.PITMetric(eval_grid=grid)
    for rank in range(readers):
        for start, end, ens in qp.iterator(_FILES[key], chunk_size=size, rank=rank, parallel_size=readers):
            for p, m in zip(parts, [todo[0][0], todo[1][0], mp]):
                p.append(m.accumulate(ens, truths[start:end]))
            ctx.step(3)
    msg = "%s of %i %s PDFs from a file, chunk size %i, %i readers"
    ctx.state(f.name, n, size, readers)
    for p, (m, want) in zip(parts, todo):
        same(ctx, m.finalize(p), want, msg % (m.metric_name, n, f.name, size, readers), 1e-6, 1e-7)
    if pit is not None:
        got = mp.finalize(parts[2])
        same(ctx, np.ravel(got.objdata()["locs"]), fix.ref.QuantRow(*pit, "piecewise_linear").l, msg % ("pit", n, f.name, size, readers), 1e-5, 1e-6)


def mixed(ctx):
    """one metric object used for two data sets, the steps interleaved in every way"""
    name = ctx.choose("metric", ["brier", "cdeloss"] + sorted(POINT))
    f = fix.make(ctx.choose("representation", ["norm", "hist_n"]) if name in ("brier", "cdeloss") else "norm", 6)
    steps = ctx.choose("steps", sorted(set(itertools.permutations("AAABBB"))))
    order = ctx.choose("finalised", ["AB", "BA", "ABA"])
    if name in ("brier", "cdeloss"):
        m = cm.BrierMetric(limits=(0.0, 2.0), dx=2.0 / 17 - 1e-12) if name == "brier" else cm.CDELossMetric(eval_grid=UNEVEN)
        rows = dict(A=[0, 1, 2], B=[3, 4, 5])
        tr = {k: [GRID[3 + 2 * r] + 0.01 for r in v] for k, v in rows.items()}
        want = {k: want_brier(f, rows[k], tr[k], GRID) if name == "brier" else want_cde(f, rows[k], tr[k], UNEVEN) for k in rows}

        def one(k, i):
            return m.accumulate(obs.build(f, [rows[k][i]]), np.array([tr[k][i]]))

    else:
        m = metric(name)
        sets = dict(A=PAIRS[0][:3], B=PAIRS[2][2:5])
        want = {k: float(metric(name).finalize([metric(name).accumulate(*np.array(v).T)])) for k, v in sets.items()}

        def one(k, i):
            return m.accumulate(np.array([sets[k][i][0]]), np.array([sets[k][i][1]]))

    parts = dict(A=[], B=[])
    m.initialize()
    for k in steps:
        parts[k].append(one(k, len(parts[k])))
        ctx.step()
    ctx.state(name, f.name, steps, order)
    for k in order:
        same(ctx, m.finalize(parts[k]), want[k], "%s of %s, steps %s" % (name, k, "".join(steps)), 1e-6, 1e-6)


def quantile(u, tails):
    """inverse cdf of the large samples; with tails, 14 % are far away from the others"""
    return np.where(u < 0.07, u - 3.0, np.where(u > 0.93, u + 3.0, 0.2 + 0.03 * (u - 0.5))) if tails else u**2


def many(ctx):
    """samples larger than the sketch: the ranks are kept within its accuracy"""
    name = ctx.choose("metric", ["iqr", "bias", "outlier", "mad", "pit", "brier", "cdeloss"])
    n = ctx.choose("sample", [300, 2000] if not ctx.thorough else [300, 2000, 20000])
    comp = ctx.choose("compression", [1000, 100])
    size = ctx.choose("chunk size", [1, 7, 100, 1999, 20000] if n < 20000 else [100, 1999, 20000])
    shape = ctx.choose("order", ["sorted", "reversed", "stride"])
    tails = ctx.choose("values", ["smooth", "tails"] if name in ("iqr", "bias", "outlier", "mad") else ["smooth"]) == "tails"
    arrive = ctx.choose("arrival", [1, -1])
    if name in ("brier", "cdeloss") and (comp != 1000 or n > 300):
        return
    stride = {300: 77, 2000: 677, 20000: 6677}[n]
    idx = dict(sorted=list(range(n)), reversed=list(range(n))[::-1], stride=[(i * stride) % n for i in range(n)])[shape]
    u = np.array([(i + 0.5) / n for i in idx])
    acc = 0.02 if comp == 100 else 0.004
    if n == 300:
        acc = max(acc, 1.5 / n)
    ctx.state(name, n, comp, size, shape, arrive)
    if name in ("iqr", "bias", "outlier", "mad"):
        t = np.zeros(n)
        e = quantile(u, tails) - 0.2
        m = POINT[name](tdigest_compression=comp, **(dict(num_bins=20000) if name == "mad" else {}))
        got = float(m.finalize([m.accumulate(e[a : a + size], t[a : a + size]) for a in range(0, n, size)][::arrive]))
        want = float(m.evaluate(e, t))

        def inv(q):
            return float(quantile(np.array(min(max(q, 0), 1)), tails))

        if name == "bias":
            ctx.check(inv(0.5 - acc) - 0.2 <= got <= inv(0.5 + acc) - 0.2, "bias %r instead of %r" % (got, want))
        elif name == "iqr":
            ctx.check((inv(0.75 - acc) - inv(0.25 + acc)) / 1.349 <= got <= (inv(0.75 + acc) - inv(0.25 - acc)) / 1.349, "width %r instead of %r" % (got, want))
        elif name == "outlier":
            ctx.check(abs(got - want) <= 2 * acc + 0.02, "outlier rate %r instead of %r" % (got, want))
        else:
            ctx.check(abs(got - want) <= (6 * acc + 0.002) * want, "median deviation %r instead of %r" % (got, want))
    else:
        loc = 1.0 + 0.25 * np.array([(7 * i) % 5 for i in idx])
        ens = qp.Ensemble(qp.stats.uniform, data=dict(loc=loc.reshape(-1, 1) - 1.0, scale=np.full((n, 1), 1.0)))
        t = loc - 1.0 + u
        if name == "pit":
            m = cm.PITMetric(eval_grid=np.linspace(0, 1, 11), tdigest_compression=comp)
        elif name == "brier":
            m = cm.BrierMetric(limits=(0.0, 2.5), dx=0.1)
        else:
            m = cm.CDELossMetric(eval_grid=np.linspace(0, 2.5, 26))
        if size == 1 and n > 300:
            return
        got = m.finalize([m.accumulate(ens[np.arange(a, min(a + size, n))], t[a : a + size]) for a in range(0, n, size)][::arrive])
        if name == "pit":
            q, l = np.ravel(got.metadata()["quants"]), np.ravel(got.objdata()["locs"])
            ctx.check(len(q) == 11, "%i quantiles" % len(q))
            ctx.check(np.max(np.abs(q - l)) < acc, "PIT quantiles at %s are %s" % (q, l))
        else:
            same(ctx, got, m.evaluate(ens, t), name, 1e-9, 1e-11)
    ctx.step(-(-n // size))


REUSED = ["pit", "pit few", "brier", "cdeloss"] + sorted(POINT)


def reused(ctx):
    """one metric object for a history of data sets of different sizes: each result is that of a new object"""
    name = ctx.choose("metric", REUSED)
    depth = 4 if ctx.thorough else 3
    sizes = ctx.choose("sizes", [h for k in range(2, depth + 1) for h in itertools.product([2, 3, 5], repeat=k)])
    how = ctx.choose("use", ["chunks", "evaluate", "both"])
    f = fix.make("norm", 6)

    def new():
        if name == "pit":
            return cm.PITMetric(eval_grid=np.linspace(0, 1, 4))
        if name == "pit few":
            return cm.PITMetric(eval_grid=np.array([0.0, 0.3, 1.0]))
        if name == "brier":
            return cm.BrierMetric(limits=(0.0, 2.0), dx=2.0 / 17 - 1e-12)
        if name == "cdeloss":
            return cm.CDELossMetric(eval_grid=UNEVEN)
        return metric(name)

    def run(m, n, k, use):
        if name in POINT:
            est, refs = np.array(PAIRS[k % len(PAIRS)][:n]).T
        else:
            est, refs = obs.build(f, range(n)), np.array([GRID[3 + 2 * r + k % 2] + 0.01 for r in range(n)])
        out = []
        if use in ("evaluate", "both"):
            out.append(m.evaluate(est, refs))
        if use in ("chunks", "both"):
            m.initialize()
            out.append(m.finalize([m.accumulate(est[:1], refs[:1]) if name in POINT else m.accumulate(est[0], refs[:1]), m.accumulate(est[1:] if name in POINT else est[np.arange(1, n)], refs[1:])]))
        res = []
        for o in out:
            if isinstance(o, qp.Ensemble):
                res += [np.ravel(o.metadata()["quants"]), np.ravel(o.objdata()["locs"])]
            else:
                res.append(np.asarray(o, float))
        return res

    with contextlib.redirect_stdout(io.StringIO()):
        m = new()
        for k, n in enumerate(sizes):
            got, want = run(m, n, k, how), run(new(), n, k, how)
            ctx.step(2)
            ctx.state(name, how, sizes[: k + 1])
            for g, w in zip(got, want):
                same(ctx, g, w, "%s (%s) used for samples of %s: result for the last one" % (name, how, sizes[: k + 1]), 1e-12, 1e-13)


HARNESSES = dict(points=points, dists=dists, files=files, mixed=mixed, reused=reused, many=many)
BOUNDS = dict(
    quick="up to 5 pairs (4 PDFs) x all ways to cut them into chunks x all orders of up to 4 partial results (18 of those of 5) x 4 samples in 6 orders x 2 float types, 13 representations in 3 selections x 3 sets of truths; files read by 1-3 readers in chunks of 1-7; one metric object for two data sets, all 20 interleavings, and all histories of 2-3 samples of 3 sizes; samples of 300 and 2000 in 5 chunk sizes with sketches of 100 and 1000",
    thorough="as quick with up to 6 pairs, 5 PDFs, all orders, histories of 4 samples, samples of 20000",
)
ASSUMPTIONS = [
    "the sketch is pytdigest's; beyond its size its accuracy is taken to be 2 percent in rank at compression 100 and 0.4 percent at 1000",
    "Brier scores and conditional density losses are compared away from truths half way between two points of the grid",
    "a distribution of PIT values needs two different values between 0 and 1",
]
