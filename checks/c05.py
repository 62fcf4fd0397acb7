"""C05: selecting PDFs gives exactly those PDFs with their data

Oracle: Python's and numpy's own indexing of the list of row numbers, and a fresh ensemble made of those rows.
Explored: every key of every kind for ensembles of up to 4 PDFs, followed by every key on the selection.
"""

import itertools
import os

import numpy as np
import qp
from mc import fix, obs
from mc.util import raises, same, same_dict

PROPERTY = "C05"
LEVEL = "model_checking"


def keys(n, small=False):
    """every key of each kind: (kind, key)"""
    out = [("int", i) for i in range(-n, n)]
    out += [("np.int64", np.int64(i)) for i in ([0, -1] if small else range(-n, n))]
    bounds = [None] + list(range(-n - 1, n + 2))
    seen = set()
    for step in (None, 1, 2, 3, -1, -2):
        for a in bounds:
            for b in bounds:
                sel = tuple(range(n)[slice(a, b, step)])
                # keep one spelling of each selection in the small set, all spellings otherwise
                if not sel or (small and (sel, step) in seen):
                    continue
                seen.add((sel, step))
                out.append(("slice", slice(a, b, step)))
    lists = [p for k in range(1, n + 1) for p in itertools.product(range(n), repeat=k)]
    if small:
        lists = [p for p in lists if len(p) <= 2 or p == tuple(reversed(range(n)))]
    out += [("list", list(p)) for p in lists]
    out += [("array", np.array(p)) for p in lists if len(p) in (1, n)]
    out += [("negative array", np.array(p) - n) for p in lists if len(p) == n][:4]
    for m in itertools.product([False, True], repeat=n):
        if any(m):
            out.append(("mask", np.array(m)))
            if not small:
                out.append(("list mask", list(m)))
    return out


def rows_of(rows, key):
    """the row numbers selected by a key, by numpy"""
    return [int(r) for r in np.atleast_1d(np.array(rows)[key])]


def check_selection(ctx, f, sub, rows, with_ancil, msg, kinds=("pdf", "cdf", "ppf")):
    got = obs.observe(sub, f, kinds)
    obs.compare(ctx, got, obs.fresh(f, rows, kinds), msg, ancil_=obs.ancil(rows) if with_ancil else None)


def select(ctx):
    """one key, all kinds"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3] if not ctx.thorough else [1, 2, 3, 4]))
    with_ancil = ctx.flag("ancil")
    kinds = sorted({k for k, _ in keys(f.npdf)})
    kind = ctx.choose("kind", kinds)
    full = f.ens(ancil=obs.ancil(range(f.npdf)) if with_ancil else None)
    before = obs.frozen_state(full)
    for k, key in keys(f.npdf, small=not ctx.thorough and f.name not in fix.CORE):
        if k != kind:
            continue
        rows = rows_of(range(f.npdf), key)
        ctx.state(f.name, f.npdf, with_ancil, k, repr(key))
        sub = full[key]
        ctx.step()
        msg = "%s (%i PDFs)[%r]" % (f.name, f.npdf, key)
        check_selection(ctx, f, sub, rows, with_ancil, msg)
    obs.unchanged(ctx, full, before, "%s after selecting by %s" % (f.name, kind))


def select_used(ctx):
    """a selection from an ensemble that was evaluated before, and a later evaluation of the ensemble"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [2, 3]))
    full = f.ens(ancil=obs.ancil(range(f.npdf)))
    first = ctx.choose("before", ["pdf", "cdf", "ppf", "gridded"])
    with np.errstate(all="ignore"):
        getattr(full, first)(np.array([0.25, 0.5, 0.75]))
    for k, key in keys(f.npdf, small=True):
        if k in ("list", "slice") and len(rows_of(range(f.npdf), key)) == f.npdf:
            continue
        rows = rows_of(range(f.npdf), key)
        ctx.state(f.name, f.npdf, first, k, repr(key))
        sub = full[key]
        ctx.step()
        check_selection(ctx, f, sub, rows, True, "%s[%r] after %s" % (f.name, key, first))
    got = obs.observe(full, f)
    obs.compare(ctx, got, obs.fresh(f, range(f.npdf)), "%s after selections" % f.name, ancil_=obs.ancil(range(f.npdf)))


def twice(ctx):
    """a selection from a selection"""
    f = fix.make(ctx.choose("representation", fix.ALL if ctx.thorough else fix.CORE), ctx.choose("npdf", [2, 3] if not ctx.thorough else [2, 3, 4]))
    with_ancil = ctx.flag("ancil")
    first = keys(f.npdf, small=True)
    index = ctx.choose("first", range(len(first)))
    key1 = first[index][1]
    full = f.ens(ancil=obs.ancil(range(f.npdf)) if with_ancil else None)
    rows1 = rows_of(range(f.npdf), key1)
    sub1 = full[key1]
    ctx.step()
    seen = set()
    for kind2, key2 in keys(len(rows1), small=True):
        rows2 = rows_of(rows1, key2)
        if (kind2, tuple(rows2)) in seen:
            continue
        seen.add((kind2, tuple(rows2)))
        ctx.state(f.name, with_ancil, f.npdf, repr(key1), repr(key2))
        sub2 = sub1[key2]
        ctx.step()
        check_selection(ctx, f, sub2, rows2, with_ancil, "%s (%i PDFs)[%r][%r]" % (f.name, f.npdf, key1, key2), kinds=("pdf",))


def rejected(ctx):
    """keys that select nothing that exists are rejected, and nothing changes"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3]))
    with_ancil = ctx.flag("ancil")
    full = f.ens(ancil=obs.ancil(range(f.npdf)) if with_ancil else None)
    before = obs.frozen_state(full)
    n = f.npdf
    bad = [n, n + 1, -n - 1, np.int64(n), [0, n], [-n - 1], np.array([n]), np.array([True] * (n + 1)), "a", 0.5, [0.5]]
    for key in bad:
        ctx.state(f.name, n, repr(key))
        ctx.step()
        err = raises(full.__getitem__, key)
        ctx.check(err is not None, "%s (%i PDFs)[%r] does not raise" % (f.name, n, key))
        obs.unchanged(ctx, full, before, "%s[%r]" % (f.name, key))


def iteration(ctx):
    """the loop over an ensemble delivers each PDF once"""
    f = fix.make(ctx.choose("representation", fix.ALL), ctx.choose("npdf", [1, 2, 3, 4]))
    with_ancil = ctx.flag("ancil")
    full = f.ens(ancil=obs.ancil(range(f.npdf)) if with_ancil else None)
    n = 0
    for one in full:
        check_selection(ctx, f, one, [n], with_ancil, "PDF %i of the loop over %s" % (n, f.name))
        ctx.step()
        n += 1
        ctx.state(f.name, n)
        if n > f.npdf:
            break
    ctx.check(n == f.npdf, "the loop over %i PDFs of %s gives %i" % (f.npdf, f.name, n))


CONVERT = [
    ("interp", dict(xvals=np.linspace(0.0, 2.0, 9))),
    ("hist", dict(bins=np.array([-1.0, 0.25, 1.0, 1.5, 3.0]))),
    ("quant", dict(quants=np.array([0.1, 0.3, 0.5, 0.75, 0.9]))),
]


def commute(ctx):
    """selecting before or after writing, converting or gridding"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    full = f.ens(ancil=obs.ancil(range(3)))
    op = ctx.choose("operation", ["gridded", "mode"] + [c[0] for c in CONVERT] + ["write"])
    if op == "quant" and f.cls == "spline":
        return
    few = [(k, key) for k, key in keys(3, small=True)]
    grid = np.array([0.25, 0.5, 1.25])
    if op == "write":
        path = os.path.join(os.environ["QPMC_SCRATCH"], "sel%i.hdf5" % os.getpid())
        full.write_to(path)
        again = qp.read(path)
        os.unlink(path)
    elif op in ("gridded", "mode"):
        with np.errstate(all="ignore"):
            again = np.asarray(full.gridded(grid)[1] if op == "gridded" else full.mode(grid))
    else:
        with np.errstate(all="ignore"):
            again = qp.convert(full, op, **dict(CONVERT)[op])
    for k, key in few:
        rows = rows_of(range(3), key)
        msg = "%s: select %r and %s" % (f.name, key, op)
        ctx.state(f.name, op, repr(key))
        ctx.step(2)
        sub = full[key]
        if op in ("gridded", "mode"):
            with np.errstate(all="ignore"):
                got = np.asarray(sub.gridded(grid)[1] if op == "gridded" else sub.mode(grid))
            want = again[rows]
            same(ctx, got, want, msg, 1e-9, 1e-11)
        elif op == "write":
            check_selection(ctx, f, again[key], rows, True, msg)
        else:
            with np.errstate(all="ignore"):
                a = qp.convert(sub, op, **dict(CONVERT)[op])
                b = again[key]
                ctx.check(a.npdf == b.npdf == len(rows), "%s: number of PDFs %i and %i" % (msg, a.npdf, b.npdf))
                same_dict(ctx, {k: np.array(v) for k, v in a.objdata().items()}, {k: np.array(v) for k, v in b.objdata().items()}, msg, strict=False)
                same(ctx, a.pdf(grid), b.pdf(grid), msg, 1e-8, 1e-10)


HARNESSES = dict(select=select, select_used=select_used, twice=twice, rejected=rejected, iteration=iteration, commute=commute)
BOUNDS = dict(
    quick="all integers, slices (start, stop in -n-1..n+1, steps 1, 2, 3, -1, -2), lists, arrays and masks for n <= 3 (every spelling for one representation of each class, one spelling per selection otherwise); a second key for n <= 3; invalid keys; loops; before or after writing, converting and gridding",
    thorough="n <= 4, every spelling, second keys for all representations",
)
ASSUMPTIONS = [
    "selections of no PDF at all are not claimed (qp does not support ensembles without PDFs)",
    "ensembles with check_input=False are normalised when selected from (not claimed)",
    "numpy's own indexing defines which rows a key selects",
]
