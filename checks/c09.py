"""C09: chunked iteration delivers every PDF exactly once, in order

Oracle: the list of row numbers cut into chunks, and a fresh ensemble of the rows of each chunk.
Explored: all numbers of PDFs, chunk sizes, numbers of readers and ranks within the bounds; all points to leave early;
all interleavings of two iterators over one file.
"""

import os

import numpy as np
import qp
from mc import fix, obs
from mc.util import exact, raises, same

PROPERTY = "C09"
LEVEL = "model_checking"
_FILES = {}


def kinds_for(f):
    return ("pdf",) if f.cls == "spline" else ("pdf", "cdf", "ppf")


def file_of(f, n, anc, private=False):
    """an ensemble file of the first n rows"""
    key = (f.name, n, anc)
    if private or key not in _FILES:
        path = os.path.join(os.environ["QPMC_SCRATCH"], "c09-%i-%s-%i-%i%s.hdf5" % (os.getpid(), f.name, n, anc, "-p" if private else ""))
        obs.build(f, range(n), obs.ancil(range(n)) if anc else None).write_to(path)
        if private:
            return path
        _FILES[key] = path
    return _FILES[key]


def check_chunk(ctx, f, start, end, ens, anc, msg):
    rows = range(start, end)
    kinds = kinds_for(f)
    obs.compare(ctx, obs.observe(ens, f, kinds), obs.fresh(f, rows, kinds), "%s, chunk %i-%i" % (msg, start, end), ancil_=obs.ancil(rows) if anc else None)


def chunks(ctx):
    """all chunk sizes, numbers of readers and ranks"""
    f = fix.make(ctx.choose("representation", fix.ALL), 7)
    n = ctx.choose("npdf", [1, 2, 3, 4, 5, 6, 7])
    anc = ctx.flag("ancil")
    if n > 4 and not ctx.thorough and f.name not in ("norm", "hist_n", "quant_dsa", "packed_log", "irreg"):
        return
    path = file_of(f, n, anc)
    for size in list(range(1, n + 2)) + [100000]:
        for nread in (1, 2, 3, 4):
            seen, held = [], []
            for rank in range(nread):
                kwds = {} if nread == 1 and rank == 0 and size % 2 else dict(rank=rank, parallel_size=nread)
                last = -1
                for start, end, ens in qp.iterator(path, chunk_size=size, **kwds):
                    ctx.step()
                    ctx.check(start > last, "%s: the chunks are not in order" % f.name)
                    last = start
                    ctx.check(0 < end - start <= size and end <= n, "%s: chunk %i-%i of %i with chunk size %i" % (f.name, start, end, n, size))
                    seen += range(start, end)
                    held.append((start, end, ens))
            ctx.state(f.name, n, anc, size, nread)
            msg = "%s, %i PDFs, chunk size %i, %i readers" % (f.name, n, size, nread)
            ctx.check(sorted(seen) == list(range(n)), "%s: delivered rows %s" % (msg, seen))
            # the chunks are still valid after the iteration
            for start, end, ens in held:
                check_chunk(ctx, f, start, end, ens, anc, msg)


def independent(ctx):
    """chunks do not share data: change each of them, then look at the others"""
    f = fix.make(ctx.choose("representation", fix.ALL), 7)
    n = ctx.choose("npdf", [2, 3, 4])
    size = ctx.choose("chunk size", [1, 2])
    which = ctx.choose("changed chunk", range((n + size - 1) // size))
    how = ctx.choose("change", ["ancil column", "ancil value", "data value", "append", "update", "switch"])
    if how == "switch" and f.cls != "quant":
        return
    path = file_of(f, n, True)
    held = []
    for i, (start, end, ens) in enumerate(qp.iterator(path, chunk_size=size)):
        ctx.step()
        check_chunk(ctx, f, start, end, ens, True, "%s while iterating" % f.name)
        held.append((start, end, ens))
        if i == which:
            rows = range(start, end)
            if how == "ancil column":
                ens.add_to_ancil(dict(new=np.array([1.0] * len(rows))))
                ens.ancil["another"] = np.array([2.0] * len(rows))
            elif how == "ancil value":
                ens.ancil["z"][...] = -1.0
                ens.ancil["v"][...] = -1.0
            elif how == "data value":
                for v in ens.objdata().values():
                    v[...] = v[::-1] if len(v) > 1 else v + v.dtype.type(1)
            elif how == "append":
                ens.append(obs.build(f, [0], obs.ancil([0])))
            elif how == "update":
                ens.update(obs.raw(f, [6]))
            else:
                ens.dist.pdf_constructor_name = "piecewise_constant"
    ctx.state(f.name, n, size, which, how)
    for i, (start, end, ens) in enumerate(held):
        if i != which:
            check_chunk(ctx, f, start, end, ens, True, "%s after chunk %i was changed (%s)" % (f.name, which, how))
    # and the file is as before
    for start, end, ens in qp.iterator(path, chunk_size=size):
        check_chunk(ctx, f, start, end, ens, True, "%s, second pass after a change (%s)" % (f.name, how))


def early(ctx):
    """leaving the loop, or an error inside it, closes the file: it can be written again and read again"""
    f = fix.make(ctx.choose("representation", fix.CORE), 7)
    n = ctx.choose("npdf", [1, 3, 4])
    anc = ctx.flag("ancil")
    size = ctx.choose("chunk size", [1, 2])
    stop = ctx.choose("leave after", range(1, (n + size - 1) // size + 1))
    how = ctx.choose("how", ["break", "close", "exception", "drop"])
    path = file_of(f, n, anc, private=True)

    def loop():
        it = qp.iterator(path, chunk_size=size)
        for i, (start, end, ens) in enumerate(it):
            ctx.step()
            check_chunk(ctx, f, start, end, ens, anc, f.name)
            if i + 1 == stop:
                if how == "exception":
                    raise KeyError("inside the loop")
                if how == "break":
                    break
                if how == "close":
                    it.close()
                    break
                return it
        return None

    it = None
    try:
        it = loop()
    except KeyError:
        pass
    del it
    ctx.state(f.name, n, anc, size, stop, how)
    import h5py

    # nothing is left open: the file can be opened for writing
    err = raises(lambda: h5py.File(path, "r+").close())
    ctx.check(err is None, "after leaving the loop (%s) the file is still in use: %r" % (how, err))
    g = fix.make("norm", 7)
    obs.build(g, [3, 1]).write_to(path)
    for start, end, ens in qp.iterator(path, chunk_size=1):
        kinds = kinds_for(g)
        obs.compare(ctx, obs.observe(ens, g, kinds), obs.fresh(g, [[3, 1][start]], kinds), "the file written after leaving the loop", ancil_=None)
    os.unlink(path)


def interleaved(ctx):
    """two iterators over the same file, all orders of their steps"""
    f = fix.make(ctx.choose("representation", ["hist_n", "quant_csd", "norm", "packed_log", "sparse"]), 7)
    n = 3
    path = file_of(f, n, True)
    sizes = ctx.choose("chunk sizes", [(1, 1), (1, 2), (2, 2)])
    its = [qp.iterator(path, chunk_size=s) for s in sizes]
    pos = [0, 0]
    open_ = [0, 1]
    while open_:
        i = ctx.choose("next of", open_)
        try:
            start, end, ens = next(its[i])
        except StopIteration:
            ctx.check(pos[i] == n, "iterator %i stops at %i of %i" % (i, pos[i], n))
            open_.remove(i)
            continue
        ctx.step()
        ctx.check(start == pos[i], "iterator %i delivers %i instead of %i" % (i, start, pos[i]))
        pos[i] = end
        ctx.state(f.name, sizes, tuple(pos))
        check_chunk(ctx, f, start, end, ens, True, "%s, two iterators" % f.name)


def whole(ctx):
    """the chunks together are the ensemble, by concatenation and by chunked writing"""
    f = fix.make(ctx.choose("representation", fix.ALL), 7)
    n = ctx.choose("npdf", [1, 2, 4])
    anc = ctx.flag("ancil")
    path = file_of(f, n, anc)
    kinds = kinds_for(f)
    for size in range(1, n + 2):
        parts = [ens for _, _, ens in qp.iterator(path, chunk_size=size)]
        again = qp.concatenate(parts)
        ctx.step(len(parts) + 1)
        ctx.state(f.name, n, anc, size)
        obs.compare(ctx, obs.observe(again, f, kinds), obs.fresh(f, range(n), kinds), "%s: chunks of %i together" % (f.name, size), ancil_=obs.ancil(range(n)) if anc else None)
        full = qp.read(path)
        for part, (start, end, _) in zip(parts, qp.iterator(path, chunk_size=size)):
            for k, v in full.objdata().items():
                exact(ctx, part.objdata()[k], v[start:end], "%s: %s of the chunk" % (f.name, k))
            for k, v in full.metadata().items():
                same(ctx, np.asarray(part.metadata()[k]), np.asarray(v), "%s: %s of the chunk" % (f.name, k))


HARNESSES = dict(chunks=chunks, independent=independent, early=early, interleaved=interleaved, whole=whole)
BOUNDS = dict(
    quick="n = 1..4 (1..7 for five representations) x chunk sizes 1..n+1 and the default x 1-4 readers x all ranks x with and without ancillary data; every chunk changed in 6 ways; every point to leave the loop x 4 ways; all interleavings of two iterators over 3 PDFs",
    thorough="n = 1..7 for all representations",
)
ASSUMPTIONS = ["the readers of a parallel job are the iterators of each rank, run one after another in one process (they only read)", "chunks are read from hdf5 files (the only type the iterator accepts)"]
