"""C18: concurrent evaluations give the same values as evaluations alone

Oracle: the same operation on a fresh ensemble used by nobody else.
Explored: every pair of operations on one new ensemble of every representation, under every schedule with one preemption
(the first operation is stopped before each line of the library's code it executes, the second runs, the first goes on);
two evaluations of the same kind also with two preemptions at every pair of lines.  The thorough tier adds other pairs of
operations with two preemptions, preemptions before each instruction, and three threads.
"""

import itertools

import numpy as np
import qp
from mc import fix, obs, sched
from mc.util import same

PROPERTY = "C18"
LEVEL = "model_checking"


def some(seq, n):
    seq = list(seq)
    return [seq[(i * (len(seq) - 1)) // (n - 1)] for i in range(n)]


def ops_for(f):
    xs = np.array(some(f.inside(), 3))
    qs = np.array([0.2, 0.5, 0.85]) if f.cls != "quant" else np.array([f.qs[1], f.qs[3], f.qs[-2]])
    if f.cls == "spline":
        qs = qs[:1]
    a, b = np.array(some(f.inside(), 4)), np.array(some(f.inside(), 3))
    out = dict(
        pdf=lambda e: e.pdf(xs),
        cdf=lambda e: e.cdf(xs),
        ppf=lambda e: e.ppf(qs),
        grid=lambda e: e.gridded(a),
        grid2=lambda e: e.gridded(b),
        one=lambda e: e[1].ppf(qs),
        rvs=lambda e: e.rvs(size=2, random_state=3),
        sf=lambda e: e.sf(xs),
        data=lambda e: [np.array(v) for _, v in sorted(e.objdata().items())],
        npdf=lambda e: e.npdf,
        hist=lambda e: e.histogramize(np.linspace(a[0], a[-1], 4)),
    )
    if f.cls == "spline":
        del out["one"], out["rvs"]
    return out


PAIRS = [("pdf", "pdf"), ("cdf", "cdf"), ("ppf", "ppf"), ("pdf", "cdf"), ("cdf", "pdf"), ("cdf", "ppf"), ("ppf", "cdf"), ("pdf", "ppf"), ("ppf", "pdf"), ("grid", "grid2"), ("grid", "grid"), ("grid", "pdf"), ("ppf", "one"), ("one", "cdf"), ("rvs", "ppf"), ("ppf", "rvs"), ("hist", "ppf"), ("sf", "data")]
_ALONE = {}


def flat(v):
    return [np.asarray(x) for x in v] if isinstance(v, (list, tuple)) else [np.asarray(v)]


def alone(f, op):
    key = (f.name, op)
    if key not in _ALONE:
        with np.errstate(all="ignore"):
            _ALONE[key] = flat(ops_for(f)[op](f.ens()))
    return _ALONE[key]


def judge(ctx, f, threads, names, msg):
    for t, name in zip(threads, names):
        if not t.done:
            ctx.fail("%s: %s does not end (stopped at %s)" % (msg, name, t.where))
        if t.error is not None:
            ctx.fail("%s: %s fails with %s: %s" % (msg, name, type(t.error).__name__, t.error))
        want = alone(f, name)
        got = flat(t.result)
        ctx.check(len(got) == len(want), "%s: result of %s" % (msg, name))
        for a, b in zip(got, want):
            same(ctx, a, b, "%s: %s" % (msg, name), 1e-12, 1e-13)


def afterwards(ctx, f, ens, names, msg):
    """the ensemble is not left in a different state"""
    with np.errstate(all="ignore"):
        for name in list(dict.fromkeys(names)) + ["pdf", "cdf"]:
            for a, b in zip(flat(ops_for(f)[name](ens)), alone(f, name)):
                same(ctx, a, b, "%s: %s afterwards" % (msg, name), 1e-12, 1e-13)


def call(op, ens):
    def fn():
        with np.errstate(all="ignore"):
            return op(ens)

    return fn


def explore(ctx, f, names, opcodes, two, start=0, stride=1, warm=None):
    """all schedules with one (two) preemptions, names[0] first"""
    ops = ops_for(f)
    k = start
    for name in names:
        alone(f, name)
    while True:
        m = 0
        while True:
            ens = f.ens()
            if warm:
                with np.errstate(all="ignore"):
                    ops[warm](ens)
            schedule = [(0, k), (1, m)] if two else [(0, k), (1, -1)]
            threads = sched.run([call(ops[n], ens) for n in names], schedule, opcodes)
            msg = "%s: %s is stopped after %i %s%s, %s runs%s" % (f.name, names[0], k, "instructions" if opcodes else "lines", " at %s" % threads[0].where[0] if threads[0].where else "", names[1], " for %i" % m if two else "")
            judge(ctx, f, threads, names, msg)
            if not opcodes or k % 10 == 0:
                afterwards(ctx, f, ens, names, msg)
            ctx.step()
            ctx.state(f.name, names, k, m, opcodes, warm)
            m += 1
            if not two or m > threads[1].events:
                break
        k += stride
        if threads[0].events < k:
            return


def pairs(ctx):
    """one preemption before every line"""
    f = fix.make(ctx.choose("representation", fix.ALL), 2)
    names = ctx.choose("operations", PAIRS)
    if any(n not in ops_for(f) for n in names):
        return
    if not ctx.thorough and f.name in ("hist_1", "hist_z", "interp_u", "mixmod1", "quant_pl_pad", "gamma", "uniform") and names not in PAIRS[1:7:2]:
        return
    explore(ctx, f, names, False, False)


def warm(ctx):
    """the tables and grids have been used before"""
    f = fix.make(ctx.choose("representation", ["hist_n", "interp_n", "irreg", "mixmod", "packed_lin", "sparse", "norm", "quant_pl"]), 2)
    names = ctx.choose("operations", [("grid", "grid2"), ("grid2", "grid"), ("grid2", "grid2"), ("cdf", "ppf")])
    explore(ctx, f, names, False, False, warm="grid" if names[0] != "cdf" else "ppf")


def others(ctx):
    """two ensembles of one class at the same time, built and evaluated"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    if not ctx.thorough and f.name not in fix.CORE:
        return
    op = ctx.choose("operation", ["cdf", "ppf"])
    op2 = ctx.choose("second operation", ["ppf", "grid"])
    pts = np.array(some(f.inside(), 3))
    qs = np.array([0.3]) if f.cls != "quant" else np.array([f.qs[3]])

    def use(rows, name):
        def fn():
            with np.errstate(all="ignore"):
                ens = obs.build(f, rows, obs.ancil(rows))
                return [ens.ppf(qs) if name == "ppf" else ens.cdf(pts) if name == "cdf" else ens.gridded(pts)[1]]

        return fn

    want = [use([0, 1], op)(), use([2, 1], op2)()]
    k = 0
    while True:
        threads = sched.run([use([0, 1], op), use([2, 1], op2)], [(0, k), (1, -1)])
        for t, w, name in zip(threads, want, (op, op2)):
            msg = "two %s ensembles, the first is stopped after %i lines: %s" % (f.name, k, name)
            if t.error is not None or not t.done:
                ctx.fail("%s fails with %r" % (msg, t.error))
            same(ctx, t.result[0], w[0], msg, 1e-12, 1e-13)
        ctx.step()
        ctx.state(f.name, op, op2, k)
        k += 1
        if k > threads[0].events:
            break


def two(ctx):
    """two preemptions at every pair of lines"""
    f = fix.make(ctx.choose("representation", ["hist_n", "interp_n", "irreg", "mixmod", "packed_lin", "sparse", "norm", "quant_pl", "quant_dsa"]), 2)
    names = ctx.choose("operations", [("cdf", "cdf"), ("ppf", "ppf"), ("pdf", "pdf")] + ([("cdf", "ppf"), ("ppf", "cdf"), ("grid", "grid2"), ("grid2", "grid")] if ctx.thorough else []))
    if not ctx.thorough and names[0] == "pdf" and f.name not in ("mixmod", "quant_dsa"):
        return
    explore(ctx, f, names, False, True, ctx.choose("first line modulo 16", range(16)), 16)


def instructions(ctx):
    """one preemption before every instruction"""
    f = fix.make(ctx.choose("representation", ["hist_n", "interp_n", "irreg", "mixmod", "packed_log", "sparse", "norm", "quant_pl", "spline"]), 2)
    names = ctx.choose("operations", [("cdf", "cdf"), ("cdf", "ppf"), ("ppf", "ppf"), ("grid", "grid2")])
    explore(ctx, f, names, True, False, ctx.choose("first instruction modulo 4", range(4)), 4)


def three(ctx):
    """three threads, every order, the first two stopped at every line"""
    f = fix.make(ctx.choose("representation", ["hist_n", "interp_n", "irreg", "mixmod", "packed_lin"]), 2)
    names = ctx.choose("operations", list(itertools.product(["cdf", "ppf"], repeat=3)) + [("grid", "grid2", "grid")])
    ops = ops_for(f)
    k = ctx.choose("first line modulo 16", range(16))
    while True:
        m = 0
        while True:
            ens = f.ens()
            threads = sched.run([call(ops[n], ens) for n in names], [(0, k), (1, m), (2, -1)])
            judge(ctx, f, threads, names, "%s: %s stopped after %i lines, %s after %i, then %s" % (f.name, names[0], k, names[1], m, names[2]))
            ctx.step()
            ctx.state(f.name, names, k, m)
            m += 1
            if m > threads[1].events:
                break
        k += 16
        if k > threads[0].events:
            break


HARNESSES = dict(pairs=pairs, warm=warm, others=others, two=two, instructions=instructions, three=three)
THOROUGH_ONLY = ("instructions", "three")
BOUNDS = dict(
    quick="one preemption before every executed line of the library: 18 ordered pairs of operations on one new ensemble (2 PDFs, 3 points) of every representation, 4 pairs on one used before, construction and use of two ensembles of one class; two preemptions at every pair of lines of two evaluations of the same kind for 9 representations",
    thorough="as quick with all variants, two preemptions for 7 pairs of operations, one preemption before every instruction, three threads",
)
ASSUMPTIONS = [
    "shared state is in the library's own code: numpy and scipy calls are not interrupted",
    "line granularity in the quick tier",
]
