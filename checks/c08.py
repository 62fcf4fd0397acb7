"""C08: files and dictionaries of ensembles restore the same ensemble

Oracle: a fresh ensemble of the same rows.  Explored: all representations, file types, ancillary columns, and all
sequences of two (three) writes to one name.
"""

import os
import shutil

import numpy as np
import qp
from mc import fix, obs
from mc.util import raises, same, subsets

PROPERTY = "C08"
LEVEL = "model_checking"
TYPES = ["hdf5", "hf5", "h5", "fits", "fit", "pq", "parq"]
NATIVE = ("hdf5", "hf5", "fits")


class Dir:
    """a scratch directory of this execution"""

    count = 0

    def __enter__(self):
        Dir.count += 1
        self.path = os.path.join(os.environ["QPMC_SCRATCH"], "c08-%i-%i" % (os.getpid(), Dir.count))
        os.makedirs(self.path)
        return self.path

    def __exit__(self, *args):
        shutil.rmtree(self.path, ignore_errors=True)


def columns(rows, ext, names="zkvb"):
    anc = obs.ancil(rows)
    if ext not in NATIVE:
        # strings are changed by the other file types (not by qp)
        anc.pop("s")
    return {k: v for k, v in anc.items() if k in names} or None


def kinds_for(f):
    return ("pdf",) if f.cls == "spline" else ("pdf", "cdf", "ppf")


def verify(ctx, f, rows, anc, path, msg):
    """the file holds the rows"""
    ext = path.rsplit(".", 1)[1]
    kinds = kinds_for(f)
    again = qp.read(path)
    ctx.step()
    got = obs.observe(again, f, kinds)
    if got["ancil"] is not None:
        # fits files are big endian
        got["ancil"] = {k: v.astype(v.dtype.newbyteorder("=")) for k, v in got["ancil"].items()}
    obs.compare(ctx, got, obs.fresh(f, rows, kinds), msg, ancil_=anc)
    ctx.check(qp.is_qp_file(path) is True, msg + ": not recognised as a qp file")
    md = qp.read_metadata(path)
    want = obs.fresh(f, rows, kinds)["meta"]
    ctx.check(set(md) == set(want), "%s: read_metadata gives %s instead of %s" % (msg, sorted(md), sorted(want)))
    for k, v in want.items():
        same(ctx, np.squeeze(np.asarray(md[k])).astype(v.dtype), np.squeeze(v), "%s: read_metadata %s" % (msg, k))
    if ext == "hdf5":
        ctx.check(qp.data_length(path) == len(rows), "%s: data_length is %s instead of %i" % (msg, qp.data_length(path), len(rows)))
    return again


def round_trip(ctx):
    """write and read, twice"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    ext = ctx.choose("type", TYPES)
    rows = ctx.choose("rows", [[0], [1], [0, 1], [2, 0, 1]])
    with Dir() as d:
        for names in ("", "z", "v", "kb", "zkvsb"):
            anc = columns(rows, ext, names)
            ens = obs.build(f, rows, anc)
            before = obs.frozen_state(ens)
            path = os.path.join(d, "a%s.%s" % (names, ext))
            ens.write_to(path)
            ctx.step()
            ctx.state(f.name, ext, tuple(rows), names)
            msg = "%s rows %s in .%s, ancillary columns '%s'" % (f.name, rows, ext, names)
            obs.unchanged(ctx, ens, before, msg)
            again = verify(ctx, f, rows, anc, path, msg)
            if names in ("", "zkvsb"):
                second = os.path.join(d, "b%s.%s" % (names, ext))
                again.write_to(second)
                ctx.step()
                verify(ctx, f, rows, anc, second, msg + ", second generation")
                if ext != "fits":
                    again.write_to(path)
                    verify(ctx, f, rows, anc, path, msg + ", written over the file it was read from")


def used(ctx):
    """what was done with the ensemble before does not change the file"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    ext = ctx.choose("type", ["hdf5", "fits", "pq"])
    op = ctx.choose("before", ["pdf", "cdf", "ppf", "gridded", "select", "append", "convert", "float32"])
    if f.cls == "spline" and op == "ppf":
        return
    rows = [0, 1]
    ens = obs.build(f, rows, columns(rows, ext))
    anc = columns(rows, ext)
    with Dir() as d, np.errstate(all="ignore"):
        if op == "select":
            ens = obs.build(f, [2, 1, 0], columns([2, 1, 0], ext))[[2, 1]]
        elif op == "append":
            ens = obs.build(f, [0], columns([0], ext))
            ens.append(obs.build(f, [1], columns([1], ext)))
        elif op == "convert":
            ens = qp.convert(ens, "hist", bins=np.array([-1.0, 0.0, 0.5, 1.0, 3.0]))
        elif op == "float32":
            data = obs.raw(f, rows)
            for k in f.per_row:
                if data[k].dtype.kind == "f" and k != "splx":
                    data[k] = data[k].astype("f4")
            g = fix.Fix(f.name + "/f4", f.cls, data, f.refs, f.xs, f.qs, f.per_row)
            ens = obs.build(g, [0, 1], columns(rows, ext))
        else:
            getattr(ens, op)(np.array([0.25, 0.5, 0.75]))
        path = os.path.join(d, "u.1.%s" % ext)
        pts = np.array([0.25, 0.5, 0.75])
        ens.write_to(path)
        ctx.step(2)
        ctx.state(f.name, ext, op)
        msg = "%s in .%s after %s" % (f.name, ext, op)
        if op in ("convert", "float32"):
            again = qp.read(path)
            same(ctx, again.pdf(pts), ens.pdf(pts), msg, 1e-6, 1e-7)
            same(ctx, again.cdf(pts), ens.cdf(pts), msg, 1e-6, 1e-7)
            for k, v in ens.objdata().items():
                w = again.objdata()[k]
                same(ctx, w, v, "%s: %s" % (msg, k), 1e-6)
                ctx.check(w.dtype.kind == v.dtype.kind and w.dtype.itemsize >= v.dtype.itemsize, "%s: %s is of type %s instead of %s" % (msg, k, w.dtype, v.dtype))
        else:
            verify(ctx, f, rows, anc, path, msg)


SEQ = [("hist_n", [0], "z"), ("hist_n", [2, 0, 1], ""), ("norm", [0, 1], "kb"), ("norm", [1], ""), ("quant_dsa", [0, 1], ""), ("packed_log", [1, 0], "zkvsb"), ("interp_n", [0, 1], "v")]


def overwrite(ctx):
    """a sequence of writes to one name: the last one counts"""
    ext = ctx.choose("type", TYPES)
    n = 2 if not ctx.thorough else 3
    what = [ctx.choose("write %i" % i, SEQ) for i in range(n)]
    with Dir() as d:
        path = os.path.join(d, "same.%s" % ext)
        last = None
        for i, (name, rows, names) in enumerate(what):
            f = fix.make(name, 3)
            anc = columns(rows, ext, names)
            ens = obs.build(f, rows, anc)
            ctx.step()
            ctx.state(ext, repr(what[: i + 1]))
            err = raises(ens.write_to, path)
            if err is not None:
                # astropy refuses to replace fits files: a rejected write leaves the file
                ctx.check(ext == "fits" and i > 0, "write %i of %s to .%s fails: %r" % (i, what, ext, err))
            else:
                last = (f, rows, anc)
            verify(ctx, *last, path, "writes %s to one .%s file" % (what[: i + 1], ext))


NAMES = [("one", "hist_n", [0], "z"), ("two", "norm", [1, 0], ""), ("three", "quant_csd", [0, 1, 2], "zkvsb"), ("four", "packed_lin", [2], ""), ("five", "mixmod", [1, 2], "v")]


def dictionaries(ctx):
    """several ensembles in one file"""
    combos = [c for c in subsets(NAMES) if c]
    first = ctx.choose("first", combos)
    second = ctx.choose("second", [()] + [c for c in combos if len(c) <= (2 if not ctx.thorough else 5)])
    with Dir() as d:
        path = os.path.join(d, "many.hdf5")
        for what in (first, second):
            if not what:
                continue
            built, before = {}, {}
            for key, name, rows, names in what:
                built[key] = obs.build(fix.make(name, 3), rows, columns(rows, "hdf5", names))
                before[key] = obs.frozen_state(built[key])
            qp.write_dict(path, built)
            ctx.step()
            again = qp.read_dict(path)
            ctx.step()
            ctx.state(repr([w[0] for w in what]), what is second)
            ctx.check(set(again) == set(built), "read_dict gives %s instead of %s" % (sorted(again), sorted(built)))
            for key, name, rows, names in what:
                f = fix.make(name, 3)
                kinds = kinds_for(f)
                msg = "%s of the dictionary %s" % (key, [w[0] for w in what])
                obs.compare(ctx, obs.observe(again[key], f, kinds), obs.fresh(f, rows, kinds), msg, ancil_=columns(rows, "hdf5", names))
                obs.unchanged(ctx, built[key], before[key], msg)
            ctx.check(qp.is_qp_file(path) is False, "a dictionary of ensembles is taken as one ensemble")


def every_dictionary(ctx):
    """each representation in a dictionary"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    rows = ctx.choose("rows", [[0], [1, 2], [2, 0, 1]])
    with_ancil = ctx.flag("ancil")
    with Dir() as d:
        path = os.path.join(d, "many.hdf5")
        anc = columns(rows, "hdf5", "zkvsb" if with_ancil else "")
        qp.write_dict(path, dict(a=obs.build(f, rows, anc), b=fix.make("norm", 2).ens()))
        again = qp.read_dict(path)
        ctx.step(2)
        ctx.state(f.name, tuple(rows), with_ancil)
        kinds = kinds_for(f)
        obs.compare(ctx, obs.observe(again["a"], f, kinds), obs.fresh(f, rows, kinds), "%s in a dictionary" % f.name, ancil_=anc)


def tables(ctx):
    """tables in memory"""
    f = fix.make(ctx.choose("representation", fix.ALL), 3)
    rows = ctx.choose("rows", [[0], [1, 2], [2, 0, 1]])
    with_ancil = ctx.flag("ancil")
    anc = obs.ancil(rows) if with_ancil else None
    ens = obs.build(f, rows, anc)
    before = obs.frozen_state(ens)
    again = qp.from_tables(ens.build_tables())
    ctx.step()
    ctx.state(f.name, tuple(rows), with_ancil)
    kinds = kinds_for(f)
    obs.compare(ctx, obs.observe(again, f, kinds), obs.fresh(f, rows, kinds), "%s from its tables" % f.name, ancil_=anc)
    obs.unchanged(ctx, ens, before, "%s, build_tables" % f.name)


def other_files(ctx):
    """files that are not ensemble files"""
    import tables_io

    what = ctx.choose("file", ["missing", "empty", "text", "other tables", "meta without name", "empty name", "no suffix", "directory"])
    ext = ctx.choose("type", TYPES + ["txt"])
    with Dir() as d:
        path = os.path.join(d, "x." + ext)
        base = path[: -len(ext) - 1]
        if what == "empty":
            open(path, "w").close()
            open(base + "meta." + ext, "w").close()
        elif what == "text":
            for p in (path, base + "meta." + ext):
                with open(p, "w") as out:
                    out.write("pdf_name\nhist\n")
        elif what == "directory":
            os.makedirs(path)
        elif what == "no suffix":
            path = base
            fix.make("hist_n", 2).ens().write_to(os.path.join(d, "y.hdf5"))
            os.rename(os.path.join(d, "y.hdf5"), path)
        elif what != "missing":
            tab = dict(data=dict(a=np.arange(3.0)))
            if what == "meta without name":
                tab["meta"] = dict(pdf_version=np.array([0]))
            if what == "empty name":
                tab["meta"] = dict(pdf_name=np.array([], dtype="S4"))
            if ext == "txt" or (what == "empty name" and ext != "hdf5"):
                return
            tables_io.write(tab, path, ext)
        ctx.state(what, ext)
        ctx.step()
        ctx.check(qp.is_qp_file(path) is False, "%s (.%s) is taken as a qp file" % (what, ext))
        ctx.check(raises(qp.read, path) is not None, "%s (.%s) can be read as an ensemble" % (what, ext))


HARNESSES = dict(round_trip=round_trip, used=used, overwrite=overwrite, dictionaries=dictionaries, every_dictionary=every_dictionary, tables=tables, other_files=other_files)
BOUNDS = dict(
    quick="22 representations x 7 file types x 4 row selections x 5 sets of ancillary columns, second generation and in-place rewriting; after 8 earlier operations; all sequences of 2 writes of 7 ensembles to one name per file type; all sets of 5 ensembles in a dictionary file followed by all sets of up to 2; 9 kinds of other files",
    thorough="sequences of 3 writes, all pairs of dictionaries",
)
ASSUMPTIONS = [
    "ancillary columns of unicode strings are not supported by hdf5 (h5py), byte strings are changed by pandas file types; numbers, truth values and (native types) byte strings are claimed",
    "pyarrow file types (hd5, parquet) do not support columns with more than one value per row and are not claimed",
    "fits files are not replaced (astropy refuses), the write is rejected",
]
