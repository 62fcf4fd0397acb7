"""C22: random samples of each PDF follow that PDF, reproducibly

Oracle: the sequence of uniform numbers is scripted, so that each sample must be the inverse cdf that its own PDF has when it is
alone, at its own number; scipy's frozen distributions with the same state for the wrapped ones.
Explored: all representations x sequences of up to 3 (4) rows x sizes x scripts covering every cell of every PDF at every
position; all histories of up to 3 draws and evaluations with one random state.
"""

import itertools
import math

import numpy as np
import qp
from mc import fix, obs
from mc.util import same

PROPERTY = "C22"
LEVEL = "model_checking"


class Script(np.random.RandomState):
    """a random state with given uniform numbers"""

    def __init__(self, values):
        super().__init__(1)
        self.script, self.asked = [float(v) for v in values], 0

    def _take(self, size):
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size))
        n = int(np.prod(shape))
        if self.asked + n > len(self.script):
            raise AssertionError("more numbers than samples are drawn")
        out = np.array(self.script[self.asked : self.asked + n]).reshape(shape)
        self.asked += n
        return out if size is not None else float(out)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._take(size)

    def random_sample(self, size=None):
        return self._take(size)

    def random(self, size=None):
        return self._take(size)

    def rand(self, *size):
        return self._take(size or None)


def cells(f):
    """uniform numbers in every cell of the PDF"""
    return {
        "mixmod": [0.001, 0.05, 0.3, 0.5, 0.75, 0.99],
        "quant": [q for q in fix.QUANTS[1:-1]],
    }.get(f.cls, [0.001, 0.0625, 0.2, 0.375, 0.5, 0.65, 0.8125, 0.97])


ROWS = [n for n in fix.ROWS if n != "spline"]


def scripted(ctx):
    """sample (i, j) is the inverse cdf of PDF i at number (i, j)"""
    f = fix.make(ctx.choose("representation", ROWS), 3)
    n = ctx.choose("npdf", [1, 2, 3] if not ctx.thorough else [1, 2, 3, 4])
    size = ctx.choose("size", [1, 2, 3, 5, 8] if not ctx.thorough else [1, 2, 3, 4, 5, 7, 8, 16])
    used = ctx.flag("used before")
    us = cells(f)
    picks = list(itertools.product(range(3), repeat=n))
    if n >= 3 and not ctx.thorough:
        picks = [p for p in picks if len(set(p)) > 1][:: 2]
    for pick in picks:
        ens = obs.build(f, pick)
        if used:
            with np.errstate(all="ignore"):
                obs.values(ens, f)
                ens.rvs(size=2, random_state=3)
        for a, b, c in ((1, 1, 0), (3, 2, 1), (0, 0, 2), (2, 3, 4)):
            u = [[us[(a * i + b * j + c) % len(us)] for j in range(size)] for i in range(n)]
            rs = Script([v for row in u for v in row])
            with np.errstate(all="ignore"):
                got = ens.rvs(size=size, random_state=rs)
            ctx.step()
            ctx.state(f.name, pick, size, a, b, c, used)
            msg = "%s rows %s, %i samples" % (f.name, pick, size)
            ctx.check(np.shape(got) == (n, size), "%s: shape %s" % (msg, np.shape(got)))
            if rs.asked != n * size:
                # drawn in another way: only the support can be told
                inside(ctx, f, pick, got, msg)
                continue
            by_ppf(ctx, f, pick, u, got, msg)


_ALONE = {}


def by_ppf(ctx, f, pick, u, got, msg):
    """sample by sample, against the inverse cdf the PDF has when it is alone"""
    for i, r in enumerate(pick):
        for j, q in enumerate(u[i]):
            key = (f.name, r, q)
            if key not in _ALONE:
                with np.errstate(all="ignore"):
                    _ALONE[key] = float(np.ravel(obs.build(f, [r]).ppf(np.array([q])))[0])
            want = _ALONE[key]
            ctx.traced()
            ctx.check(abs(float(got[i, j]) - want) <= 1e-9 + 1e-7 * abs(want), "%s: sample %i of PDF %i is %r, the ppf of row %i at %r is %r" % (msg, j, i, float(got[i, j]), r, q, want))


def inside(ctx, f, pick, got, msg):
    for i, r in enumerate(pick):
        lo, hi = support(f, r)
        v = np.asarray(got)[i]
        ctx.check(np.all(np.isfinite(v)) and np.all((v >= lo - 1e-9) & (v <= hi + 1e-9)), "%s: samples %s of row %i outside of its support %r to %r" % (msg, v, r, lo, hi))


def support(f, r):
    if f.name in fix.SCIPY:
        return f.refs[r].d.support()
    if f.cls in ("spline",):
        return 0.0, 3.0
    if f.cls == "mixmod":
        return f.refs[r].lo - 1e-6, f.refs[r].hi + 1e-6
    return f.refs[r].lo, f.refs[r].hi


STATES = ["number", "RandomState", "Generator", "global"]


def draw(ens, size, state, seed):
    with np.errstate(all="ignore"):
        if state == "number":
            return ens.rvs(size=size, random_state=seed)
        if state == "RandomState":
            return ens.rvs(size=size, random_state=np.random.RandomState(seed))
        if state == "Generator":
            return ens.rvs(size=size, random_state=np.random.default_rng(seed))
        np.random.seed(seed)
        return ens.rvs(size=size)


def seeded(ctx):
    """the same state gives the same samples, in the support of their own PDF; other states give others"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    pick = ctx.choose("rows", [(0,), (2,), (0, 1), (1, 0), (1, 1), (2, 0, 1)])
    size = ctx.choose("size", [1, 2, 3, 20] if f.cls != "spline" else [1, 3])
    state = ctx.choose("state", STATES)
    ens, other = obs.build(f, pick), obs.build(f, pick, obs.ancil(pick))
    msg = "%s rows %s, %i samples, %s" % (f.name, pick, size, state)
    ctx.state(f.name, pick, size, state)
    first = draw(ens, size, state, 11)
    ctx.check(np.shape(first) == (len(pick), size), "%s: shape %s" % (msg, np.shape(first)))
    inside(ctx, f, pick, first, msg)
    keep = np.array(first)
    same(ctx, draw(ens, size, state, 11), keep, msg + ": again", 1e-12, 0)
    same(ctx, draw(other, size, state, 11), keep, msg + ": from another ensemble of the same PDFs", 1e-12, 0)
    with np.errstate(all="ignore"):
        obs.values(ens, f, ("pdf", "cdf"))
    same(ctx, draw(ens, size, state, 11), keep, msg + ": after evaluations", 1e-12, 0)
    third = draw(ens, size, state, 12)
    ctx.step(5)
    # the inverse cdf of the interpolated ones starts with a constant piece (finding first-interval of C01, C02)
    ends = {support(f, r)[0] for r in pick}
    free = np.array([v for v in np.ravel(keep) if v not in ends])
    later = np.ravel(third)[[v not in ends for v in np.ravel(keep)]]
    ctx.check(not np.any(later == free), msg + ": another state gives the same samples")
    ctx.check(len(set(free.tolist())) == free.size, msg + ": samples are repeated: %s" % keep)


def wrapped(ctx):
    """scipy's distributions draw what scipy draws"""
    f = fix.make(ctx.choose("representation", fix.SCIPY), 3)
    pick = ctx.choose("rows", [p for k in (1, 2, 3) for p in itertools.product(range(3), repeat=k)])
    import scipy.stats as sps

    ens = obs.build(f, pick)
    dist = getattr(sps, f.cls)
    data = obs.raw(f, pick)
    for size in (1, 2, 7):
        for state in ("number", "RandomState"):
            got = draw(ens, size, state, 5)
            want = dist.rvs(size=(len(pick), size), random_state=5, **data)
            same(ctx, got, want, "%s rows %s, %i samples" % (f.name, pick, size), 1e-12, 0)
            ctx.step()
            ctx.state(f.name, pick, size, state)


def histories(ctx):
    """one random state used for several draws: each draw continues it, whatever else happens between"""
    f = fix.make(ctx.choose("representation", [n for n in ROWS if n != "spline"]), 3)
    pick = ctx.choose("rows", [(0,), (1, 0), (2, 0, 1)])
    sizes = ctx.choose("sizes", list(itertools.product([1, 2, 3], repeat=2)) + ([] if not ctx.thorough else list(itertools.product([1, 2, 3], repeat=3))))
    between = ctx.choose("between", ["nothing", "evaluate", "select", "another ensemble", "no size"])
    ens = obs.build(f, pick)
    us = cells(f)
    n = len(pick)
    total = sum(n * s for s in sizes) + (n if between == "no size" else 0) * len(sizes)
    script = [us[(5 * k + 1 + k // 3) % len(us)] for k in range(total)]
    rs = Script(script)
    at = 0
    ctx.state(f.name, pick, sizes, between)
    for s in sizes:
        with np.errstate(all="ignore"):
            got = ens.rvs(size=s, random_state=rs)
        ctx.step()
        msg = "%s rows %s, draw of %i in %s with %s between" % (f.name, pick, s, sizes, between)
        ctx.check(np.shape(got) == (n, s), "%s: shape %s" % (msg, np.shape(got)))
        u = np.array(script[at : at + n * s]).reshape(n, s).tolist()
        at += n * s
        if rs.asked == at:
            by_ppf(ctx, f, pick, u, got, msg)
        with np.errstate(all="ignore"):
            if between == "evaluate":
                obs.values(ens, f)
                ens.gridded(np.array([0.25, 0.5]))
            elif between == "select":
                ens[0].rvs(size=2, random_state=3)
            elif between == "another ensemble":
                obs.build(f, [1, 2]).rvs(size=3, random_state=4)
            elif between == "no size":
                one = ens.rvs(random_state=rs)
                ctx.check(np.shape(one) == (n, 1), "%s: without a size, shape %s" % (msg, np.shape(one)))
                u = [[v] for v in script[at : at + n]]
                at += n
                if rs.asked == at:
                    by_ppf(ctx, f, pick, u, one, msg)
        ctx.check(rs.asked <= at, msg + ": more numbers than samples are drawn")


def conversions(ctx):
    """samples drawn for a conversion are those of the source, row by row"""
    f = fix.make(ctx.choose("representation", ROWS + fix.SCIPY), 3)
    pick = ctx.choose("rows", [(0,), (1, 0), (2, 0, 1), (1, 1)])
    how = ctx.choose("conversion", ["hist", "samples", "mixmod"])
    ens = obs.build(f, pick)
    n = len(pick)
    msg = "%s rows %s to %s" % (f.name, pick, how)
    ctx.state(f.name, pick, how)
    ctx.step(2)
    with np.errstate(all="ignore"):
        if how == "samples":
            np.random.seed(5)
            want = ens.rvs(size=9)
            np.random.seed(5)
            got = qp.conversion_funcs.extract_samples(ens, xvals=np.array([0.0, 1.0]), size=9)
            same(ctx, got["samples"], want, msg, 1e-12, 0)
        elif how == "hist":
            lo = min(support(f, r)[0] if math.isfinite(support(f, r)[0]) else -9.0 for r in pick)
            hi = max(support(f, r)[1] if math.isfinite(support(f, r)[1]) else 30.0 for r in pick)
            edges = np.linspace(lo - 0.5, hi + 0.5, 7)
            np.random.seed(5)
            want = ens.rvs(size=16)
            np.random.seed(5)
            got = qp.conversion_funcs.extract_hist_samples(ens, bins=edges, size=16)
            counts = np.array([[sum(a <= v < b for v in row) for a, b in zip(edges, edges[1:])] for row in want])
            total = np.asarray(got["pdfs"], float)
            same(ctx, total / total.sum(axis=1)[:, None], counts / 16.0, msg, 1e-12, 1e-15)
        else:
            got = [qp.conversion_funcs.extract_mixmod_fit_samples(ens, ncomps=1, nsamples=40, random_state=8) for _ in range(2)]
            x = ens.rvs(size=40, random_state=8)
            for g in got:
                ctx.check(np.shape(g["means"]) == (n, 1), "%s: shape %s" % (msg, np.shape(g["means"])))
                same(ctx, np.ravel(g["means"]), x.mean(axis=1), msg + ": mean of the samples", 1e-8)
                same(ctx, np.ravel(g["weights"]), np.ones(n), msg + ": weights", 1e-9)


HARNESSES = {
    "scripted": scripted,
    "seeded": seeded,
    "wrapped": wrapped,
    "histories": histories,
    "conversions": conversions,
}
BOUNDS = {
    "quick": "sequences of up to 3 rows, up to 8 samples per PDF, 4 scripts each that put every number at many positions; two draws from one state",
    "thorough": "up to 4 rows and 16 samples, three draws from one state",
}
ASSUMPTIONS = ["A representation that stops asking the random state for uniform numbers is only checked for shape, support and reproducibility."]
