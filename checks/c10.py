"""C10: chunked writing equals writing at once; unfinished files are not taken as valid

Oracle: a fresh ensemble of all rows; the list of tables and columns of the ensemble.  Explored: every split into
consecutive chunks x every order of writing them; every step at which the writing process ends, with and without
closing the file.
"""

import itertools
import os
import signal

import h5py
import numpy as np
import qp
from mc import fix, obs
from mc.util import compositions, raises, same_dict

PROPERTY = "C10"
LEVEL = "model_checking"


def kinds_for(f):
    return ("pdf",) if f.cls == "spline" else ("pdf", "cdf", "ppf")


def path_of():
    return os.path.join(os.environ["QPMC_SCRATCH"], "c10-%i.hdf5" % os.getpid())


def cut(rows, sizes):
    out, start = [], 0
    for s in sizes:
        out.append((start, start + s, rows[start : start + s]))
        start += s
    return out


def layout(ctx, f, fout, n, anc, msg):
    """names, shapes and types of the datasets"""
    whole = obs.build(f, [i % f.npdf for i in range(n)], obs.ancil(range(n)) if anc else None)
    want = whole.build_tables()
    want.pop("meta")
    ctx.check(set(fout.keys()) == set(want), "%s: groups %s instead of %s" % (msg, sorted(fout.keys()), sorted(want)))
    for g, tab in want.items():
        ctx.check(set(fout[g].keys()) == set(tab), "%s: columns of %s are %s instead of %s" % (msg, g, sorted(fout[g].keys()), sorted(tab)))
        for k, v in tab.items():
            d = fout[g][k]
            ctx.check(d.shape == v.shape and d.dtype == v.dtype, "%s: %s/%s is %s%s instead of %s%s" % (msg, g, k, d.dtype, d.shape, v.dtype, v.shape))


def chunked(ctx):
    """all splits and orders"""
    f = fix.make(ctx.choose("representation", fix.ALL), 4)
    n = ctx.choose("npdf", [1, 2, 3, 4])
    anc = ctx.flag("ancil")
    template = ctx.choose("opened by", ["first", "last", "whole"])
    kinds = kinds_for(f)
    rows = list(range(n))
    for sizes in compositions(n):
        parts = cut(rows, sizes)
        orders = list(itertools.permutations(range(len(parts))))
        if not ctx.thorough and len(orders) > 6:
            orders = orders[:1] + orders[-1:] + orders[7:20:6]
        for order in orders:
            path = path_of()
            chunks = [obs.build(f, r, obs.ancil(r) if anc else None) for _, _, r in parts]
            first = {"first": chunks[order[0]], "last": chunks[order[-1]]}.get(template) or obs.build(f, rows, obs.ancil(rows) if anc else None)
            before = [obs.frozen_state(c) for c in chunks]
            group, fout = first.initializeHdf5Write(path, n)
            msg = "%s written in chunks %s in the order %s (opened by %s)" % (f.name, sizes, order, template)
            layout(ctx, f, fout, n, anc, msg)
            for i in order:
                start, end, _ = parts[i]
                chunks[i].writeHdf5Chunk(group, start, end)
                ctx.step()
            first.finalizeHdf5Write(fout)
            ctx.step(2)
            ctx.state(f.name, n, anc, template, sizes, order)
            ctx.check(qp.is_qp_file(path) is True, msg + ": not recognised as a qp file")
            again = qp.read(path)
            obs.compare(ctx, obs.observe(again, f, kinds), obs.fresh(f, rows, kinds), msg, ancil_=obs.ancil(rows) if anc else None)
            ctx.check(qp.data_length(path) == n, msg + ": data_length is %s" % qp.data_length(path))
            for c, b in zip(chunks, before):
                obs.unchanged(ctx, c, b, msg)
            if order == orders[0] and template == "first":
                # the same file as written at once
                at_once = path[:-5] + "-w.hdf5"
                obs.build(f, rows, obs.ancil(rows) if anc else None).write_to(at_once)
                a, b = qp.read(at_once), again
                same_dict(ctx, {k: np.array(v) for k, v in b.objdata().items()}, {k: np.array(v) for k, v in a.objdata().items()}, msg)
                same_dict(ctx, {k: np.array(v) for k, v in b.metadata().items()}, {k: np.array(v) for k, v in a.metadata().items()}, msg)
                for start, end, ens in qp.iterator(path, chunk_size=2):
                    obs.compare(ctx, obs.observe(ens, f, ("pdf",)), obs.fresh(f, rows[start:end], ("pdf",)), msg + ", iterated", ancil_=obs.ancil(rows[start:end]) if anc else None)
                os.unlink(at_once)
            os.unlink(path)


def announced(ctx):
    """the layout for any number of PDFs, from an ensemble and from the class"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    rows = ctx.choose("rows", [[0], [1, 2], [0, 1, 2]])
    n = ctx.choose("npdf", [1, 2, 3, 4, 7])
    ens = obs.build(f, rows, obs.ancil(rows))
    ctx.step(2)
    ctx.state(f.name, tuple(rows), n)
    path = path_of()
    _, fout = ens.initializeHdf5Write(path, n)
    layout(ctx, f, fout, n, True, "%s: file for %i PDFs opened by %i" % (f.name, n, len(rows)))
    fout.close()
    os.unlink(path)
    spec = obs.raw(f, rows)
    if f.cls == "quant":
        spec["quants"] = np.array(ens.metadata()["quants"])  # as stored
    kwds = ens.gen_class.get_allocation_kwds(n, **spec)
    data = ens.objdata()
    ctx.check(set(kwds) == set(data), "%s: the class announces %s instead of %s" % (f.name, sorted(kwds), sorted(data)))
    for k, v in data.items():
        shape, dtype = kwds[k]
        ctx.check(tuple(shape) == (n,) + v.shape[1:], "%s: the class announces shape %s of %s instead of %s" % (f.name, tuple(shape), k, (n,) + v.shape[1:]))
        kind = np.dtype(dtype).kind
        ctx.check(kind == v.dtype.kind or {kind, v.dtype.kind} == {"i", "u"}, "%s: the class announces type %s of %s instead of %s" % (f.name, dtype, k, v.dtype))


def in_child(steps):
    """run the steps in a process that ends without any cleaning up"""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            signal.alarm(60)
            steps()
            rc = 0
        finally:
            os._exit(rc)
    try:
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    return os.waitstatus_to_exitcode(status)


def stopped(ctx):
    """the writing ends after each step"""
    f = fix.make(ctx.choose("representation", fix.ALL), 4)
    n = ctx.choose("npdf", [1, 3])
    sizes = ctx.choose("chunks", compositions(n))
    parts = cut(list(range(n)), sizes)
    anc = ctx.flag("ancil")
    done = ctx.choose("chunks written", range(len(parts) + 1))
    end = ctx.choose("the process", ["ends", "closes and ends", "flushes and ends", "closes in place"])
    old = ctx.choose("before", ["nothing", "an ensemble"])
    path = path_of()
    if os.path.exists(path):
        os.unlink(path)
    if old != "nothing":
        obs.build(fix.make("norm", 2), [0, 1], obs.ancil([0, 1])).write_to(path)
    chunks = [obs.build(f, r, obs.ancil(r) if anc else None) for _, _, r in parts]

    def steps():
        group, fout = chunks[0].initializeHdf5Write(path, n)
        for i in range(done):
            chunks[i].writeHdf5Chunk(group, parts[i][0], parts[i][1])
        if end.startswith("closes"):
            fout.close()
        elif end.startswith("flushes"):
            fout.flush()

    if end == "closes in place":
        steps()
    else:
        ctx.check(in_child(steps) == 0, "the steps fail")
    ctx.step(done + 1)
    ctx.state(f.name, sizes, anc, done, end, old)
    msg = "%s, %i of chunks %s written, then the process %s (before: %s)" % (f.name, done, sizes, end, old)
    ctx.check(qp.is_qp_file(path) is False, msg + ": the file is taken as a qp file")
    ctx.check(raises(qp.read, path) is not None, msg + ": the file can be read as an ensemble")
    # and it can be written again
    ens = obs.build(f, range(n))
    ens.write_to(path)
    kinds = ("pdf",)
    obs.compare(ctx, obs.observe(qp.read(path), f, kinds), obs.fresh(f, range(n), kinds), msg + ", written again", ancil_=None)
    os.unlink(path)


def from_iterator(ctx):
    """copying a file chunk by chunk (read with the iterator, write with the chunk writer)"""
    f = fix.make(ctx.choose("representation", fix.ALL), 4)
    n = ctx.choose("npdf", [1, 3, 4])
    size = ctx.choose("chunk size", [1, 2, 3])
    anc = ctx.flag("ancil")
    source, path = path_of()[:-5] + "-s.hdf5", path_of()
    obs.build(f, range(n), obs.ancil(range(n)) if anc else None).write_to(source)
    group = fout = None
    for start, end, ens in qp.iterator(source, chunk_size=size):
        if fout is None:
            group, fout = ens.initializeHdf5Write(path, n)
        ens.writeHdf5Chunk(group, start, end)
        ctx.step()
    ens.finalizeHdf5Write(fout)
    ctx.state(f.name, n, size, anc)
    kinds = kinds_for(f)
    obs.compare(ctx, obs.observe(qp.read(path), f, kinds), obs.fresh(f, range(n), kinds), "%s copied in chunks of %i" % (f.name, size), ancil_=obs.ancil(range(n)) if anc else None)
    os.unlink(source)
    os.unlink(path)


HARNESSES = dict(chunked=chunked, announced=announced, stopped=stopped, from_iterator=from_iterator)
BOUNDS = dict(
    quick="all compositions of up to 4 PDFs x orders of the chunks (all up to 3 chunks, 5 of the 24 orders of 4) x 22 representations x with and without ancillary data x opened by the first, last or a whole ensemble; layouts for 1, 2, 3, 4, 7 PDFs; the process ending after each step in 4 ways, over nothing or an earlier file",
    thorough="all orders of 4 chunks",
)
ASSUMPTIONS = ["a process that ends between two steps of the chunked writing is a forked child that leaves with _exit; torn writes of the operating system are not modelled", "the layout announced by the class alone may be of lower precision (f4), as in the code; that of quantile ensembles is asked for with the stored (padded) quantiles (tests/qp/test_auto.py pins the layout for the quantiles as given)"]
