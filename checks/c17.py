"""C17: PIT values are the cdf of each PDF at its own truth, and its summaries follow

Oracle: the cdf each PDF has when it is alone in its ensemble; order statistics, quantiles and statistics written down
again for the list of these values.
Explored: every representation x selections and orders of up to 4 rows x all vectors of truths from an alphabet (at nodes,
between them, outside, infinite, not a number) x evaluation grids x forms of the truths; all orders of the pairs.
"""

import itertools
import math

import numpy as np
from mc import fix, obs, ref
from mc.util import raises, same
from qp.metrics import concrete_metric_classes as cm
from qp.metrics.pit import PIT
from scipy import stats

PROPERTY = "C17"
LEVEL = "model_checking"

GRIDS = [np.linspace(0, 1, 3), np.array([0.1, 0.5, 0.9]), np.array([0.0, 0.25, 0.6, 1.0]), None, np.array([0.3, 0.8])]
_ONE = {}


def alone(f, row, x):
    key = (f.name, row, repr(x))
    if key not in _ONE:
        with np.errstate(all="ignore"):
            _ONE[key] = float(np.ravel(obs.build(f, [row]).cdf(np.array([x])))[0])
    return _ONE[key]


def quantile(v, q):
    pos = q * (len(v) - 1)
    i = min(int(math.floor(pos)), len(v) - 1)
    if i == len(v) - 1:
        return v[-1]
    return v[i] + (pos - i) * (v[i + 1] - v[i])


def summary(pits, grid):
    """levels and locations of the quantile ensemble, None if there are not two values to keep, or rounding decides"""
    v = sorted(pits)
    if len(v) < len(grid):
        grid = np.linspace(0, 1, len(v))
    levels, locs = [], []
    for q in grid:
        x = quantile(v, float(q))
        if locs and x == locs[-1]:
            continue
        if locs and abs(x - locs[-1]) < 1e-12 or 0 < abs(x) < 1e-12 or 0 < abs(x - 1) < 1e-12:
            return None
        levels.append(float(q))
        locs.append(x)
    keep = [i for i, x in enumerate(locs) if 0 < x < 1]
    if len(keep) < 2:
        return None
    return [levels[i] for i in keep], [locs[i] for i in keep]


def alphabet(f, thorough):
    ins = f.inside()
    mid = ins[len(ins) // 2]
    out = [ins[1], mid, 0.5 * (ins[len(ins) // 2 - 1] + mid) + 0.01, ins[-2] - 0.005, -1000.0, float("nan")]
    return out + [1000.0, float("inf"), ins[2] + 0.003] if thorough else out


def check(ctx, f, rows, truths, grid, form, msg):
    """compare one PIT object with the definitions; False if it cannot be built from these values"""
    pits = [alone(f, r, x) for r, x in zip(rows, truths)]
    pits = [p if math.isfinite(p) else 0.0 for p in pits]
    if f.cls == "quant" and any(p < 0 or p > 1 for p in pits):
        return False  # the interpolated cdf between the nodes is not limited
    want = summary(pits, grid if grid is not None else np.linspace(0, 1, 100))
    if want is None:
        return False
    ens = obs.build(f, rows)
    before = obs.frozen_state(ens)
    t = {"array": np.array(truths), "list": list(truths), "column": np.array(truths).reshape(-1, 1)}[form]
    keep = np.array(truths)
    g = grid if grid is None or len(grid) % 2 else grid.tolist()
    with np.errstate(all="ignore"):
        pit = PIT(ens, t) if g is None else PIT(ens, t, g)
        ctx.step()
        same(ctx, pit.pit_samps, pits, msg + ": values", 1e-9, 1e-12)
        ref_q = ref.QuantRow(*want, "piecewise_linear")

        def summary_ok(one, what):
            ctx.check(one.npdf == 1, "%s: %i PDFs in the %s" % (msg, one.npdf, what))
            same(ctx, np.ravel(one.metadata()["quants"]), ref_q.q, "%s: levels of the %s" % (msg, what), 1e-9, 1e-12)
            same(ctx, np.ravel(one.objdata()["locs"]), ref_q.l, "%s: locations of the %s" % (msg, what), 1e-7, 1e-10)

        summary_ok(pit.pit, "ensemble")
        metric = (cm.PITMetric() if g is None else cm.PITMetric(eval_grid=g)).evaluate(ens, t)
        summary_ok(metric, "metric")
        n = len(pits)
        v = np.sort(pits)
        i = np.arange(1, n + 1)
        ks = pit.evaluate_PIT_KS()
        same(ctx, ks.statistic, max(np.max(i / n - v), np.max(v - (i - 1) / n)), msg + ": KS", 1e-9, 1e-12)
        cvm = None
        if n > 1:
            cvm = pit.evaluate_PIT_CvM()
            same(ctx, cvm.statistic, 1 / (12 * n) + np.sum(((2 * i - 1) / (2 * n) - v) ** 2), msg + ": CvM", 1e-9, 1e-12)
            same(ctx, cvm.pvalue, stats.cramervonmises(v, "uniform").pvalue, msg + ": p-value of CvM", 1e-7, 1e-9)
        same(ctx, ks.pvalue, stats.kstest(v, "uniform").pvalue, msg + ": p-value of KS", 1e-7, 1e-9)
        for lo, hi in ((0.0, 1.0), (0.05, 0.95), (want[1][0], want[1][-1])):
            if any(0 < min(abs(p - lo), abs(p - hi)) < 1e-9 for p in pits):
                continue
            part = np.array([p for p in pits if lo <= p <= hi])
            if lo > 0 and want[1][0] == lo and any(abs(p - lo) < 1e-9 or abs(p - hi) < 1e-9 for p in pits):
                continue
            expect = None
            err = raises(stats.anderson_ksamp, [part, np.linspace(lo, hi, len(part))])
            if err is None:
                expect = stats.anderson_ksamp([part, np.linspace(lo, hi, len(part))])
                got = pit.evaluate_PIT_anderson_ksamp(pit_min=lo, pit_max=hi)
                same(ctx, got.statistic, expect.statistic, "%s: AD within %s" % (msg, (lo, hi)), 1e-8, 1e-9)
                if (lo, hi) == (0.0, 1.0):
                    same(ctx, pit.evaluate_PIT_anderson_ksamp().statistic, expect.statistic, msg + ": AD", 1e-8, 1e-9)
                    if cvm is not None and len(ref_q.q) > 2:
                        every = pit.calculate_pit_meta_metrics()
                        ctx.check(set(every) == {"ad", "cvm", "ks", "outlier_rate"}, "%s: summary of %s" % (msg, sorted(every)))
                        same(ctx, every["ad"].statistic, expect.statistic, msg + ": AD of the summary", 1e-8, 1e-9)
                        same(ctx, every["ks"].statistic, ks.statistic, msg + ": KS of the summary")
                        same(ctx, every["cvm"].statistic, cvm.statistic, msg + ": CvM of the summary")
                        same(ctx, every["outlier_rate"], pit.evaluate_PIT_outlier_rate(), msg + ": outliers of the summary")
        # outliers of the summarised distribution: known at its nodes
        if len(ref_q.q) > 2:
            for a, b in itertools.combinations(range(len(ref_q.q)), 2):
                lo, hi = float(np.ravel(pit.pit.objdata()["locs"])[a]), float(np.ravel(pit.pit.objdata()["locs"])[b])
                got = pit.evaluate_PIT_outlier_rate(lo, hi)
                ctx.check(np.ndim(got) == 0, "%s: outlier rate is not a number" % msg)
                same(ctx, got, ref_q.q[a] + 1 - ref_q.q[b], "%s: outlier rate at %r and %r" % (msg, lo, hi), 1e-7, 1e-8)
            same(ctx, pit.evaluate_PIT_outlier_rate(), float(np.ravel(pit.pit.cdf(0.0001))[0]) + 1 - float(np.ravel(pit.pit.cdf(0.9999))[0]), msg + ": outlier rate", 1e-9, 1e-10)
    ctx.step(6)
    obs.unchanged(ctx, ens, before, msg)
    same(ctx, np.ravel(np.array(t)), keep, msg + ": truths")
    same(ctx, pit.pit_samps, pits, msg + ": values afterwards", 1e-9, 1e-12)
    return True


def few(ctx):
    """one to three PDFs, all vectors of truths"""
    f = fix.make(ctx.choose("representation", fix.ALL), 4)
    n = ctx.choose("npdf", [2, 3])
    rows = ctx.choose("rows", [tuple(range(n)), tuple(range(n))[::-1], (2, 0, 2)[:n], (1, 3, 0)[:n]] if ctx.thorough else [(2, 0, 1)[:n], (1, 1, 3)[:n]])
    alph = alphabet(f, ctx.thorough)
    first = ctx.choose("first truth", alph)
    for k, rest in enumerate(itertools.product(alph if n < 3 or ctx.thorough else alph[:2] + alph[3:4] + alph[5:], repeat=n - 1)):
        truths = (first,) + rest
        grid = GRIDS[(k + n) % len(GRIDS)]
        form = ["array", "list", "column"][k % 3]
        msg = "PIT of %s %s at %s on %s" % (f.name, rows, truths, grid if grid is None else grid.tolist())
        if check(ctx, f, rows, truths, grid, form, msg):
            ctx.state(f.name, rows, truths, form)


def orders(ctx):
    """all orders of the pairs, all grids"""
    f = fix.make(ctx.choose("representation", fix.ALL), 5)
    grid = ctx.choose("grid", range(len(GRIDS)))
    n = 4
    ins = f.inside()
    truths = [ins[(2 * i + 1) % len(ins)] + 0.013 * i for i in range(n)]
    if ctx.flag("one not a number"):
        truths[1] = float("nan")
    perm = ctx.choose("order", list(itertools.permutations(range(n))) if ctx.thorough else list(itertools.permutations(range(n)))[::3])
    rows = tuple(perm)
    vals = tuple(truths[i] for i in perm)
    if check(ctx, f, rows, vals, GRIDS[grid], "array", "PIT of %s %s at %s" % (f.name, rows, vals)):
        ctx.state(f.name, grid, rows, vals)


def many(ctx):
    """more values than the grid has points, and as many"""
    f = fix.make(ctx.choose("representation", ["norm", "hist_n", "interp_z", "irreg", "mixmod", "packed_lin"]), 5)
    n = ctx.choose("npdf", [5, 8, 13])
    g = ctx.choose("grid points", [2, 3, 5, n - 1, n, n + 1])
    shift = ctx.choose("shift", [0, 1, 2])
    rows = tuple((2 * i + shift) % 5 for i in range(n))
    ins = f.inside()
    a, b = ins[0], ins[-1]
    truths = tuple(a + (b - a) * (((3 * i + shift) % n) + 0.37) / n for i in range(n))
    grid = np.linspace(0, 1, g) if shift else np.linspace(0.05, 0.97, g)
    if check(ctx, f, rows, truths, grid, "array", "PIT of %i %s PDFs, grid of %i points" % (n, f.name, g)):
        ctx.state(f.name, n, g, shift)


def single(ctx):
    """the values of one PDF"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    row = ctx.choose("row", [0, 1, 2])
    for x in alphabet(f, True):
        p = alone(f, row, x)
        p = p if math.isfinite(p) else 0.0
        if not 0 < p < 1:
            continue
        # a distribution of one value has no quantile function: only the accumulated form gives the values
        with np.errstate(all="ignore"):
            got = cm.PITMetric(eval_grid=np.linspace(0, 1, 3)).accumulate(obs.build(f, [row]), np.array([x]))
        same(ctx, got, [[p, 1.0]], "PIT of %s row %i at %r" % (f.name, row, x), 1e-9, 1e-12)
        ctx.step()
        ctx.state(f.name, row, x)


HARNESSES = dict(few=few, orders=orders, many=many, single=single)
BOUNDS = dict(
    quick="every representation x 2 selections of 2-3 rows x all vectors of truths from 6 (4) values x 5 grids and 3 forms in turn; 8 orders of 4 pairs x 5 grids; 5-13 values with grids of 2 to n+1 points",
    thorough="as quick with 4 selections, truths from 9 values, all 24 orders",
)
ASSUMPTIONS = [
    "values that are not finite are counted as 0, as documented by the warning",
    "a quantile distribution needs two different values between 0 and 1",
    "values of the summarised distribution between its quantiles are not specified (C14)",
    "a summary of two quantiles has no cdf (its quadratic interpolation needs three)",
    "p-values are those of scipy for the sorted values",
]
