"""C07: answers never depend on the history of an ensemble

Model: (rows, ancillary data, name of the reconstruction).  Explored: all sequences of public operations up to the
depth, from a new ensemble; at the end of each, everything a user can see is compared with a fresh ensemble of the
state of the model (looking at it earlier would itself be part of the history).
"""

import numpy as np
import qp
from mc import fix, obs
from mc.util import raises, same

PROPERTY = "C07"
LEVEL = "model_checking"
G1 = [0.25, 0.5, 1.25]
G2 = [0.25, 0.5, 1.0]
G3 = [0.25, 0.5]
KINDS = ["piecewise_linear", "piecewise_constant", "cdf_spline_derivative", "dual_spline_average"]
_CACHE = {}


class State:
    """the model"""

    def __init__(self, f, rows, anc, kind):
        self.f, self.rows, self.ancil, self.kind = f, list(rows), anc, kind

    def fixture(self):
        f = self.f
        if self.kind is None or self.kind == f.data["pdf_constructor_name"]:
            return f
        g = fix.Fix(f.name + "/" + self.kind, f.cls, {**f.data, "pdf_constructor_name": self.kind}, f.refs, f.xs, f.qs, f.per_row)
        return g

    def fresh(self, what, arg=None):
        key = (self.f.name, self.kind, tuple(self.rows), what, repr(arg))
        if key not in _CACHE:
            g = self.fixture()
            ens = obs.build(g, self.rows)
            with np.errstate(all="ignore"):
                if what == "observe":
                    _CACHE[key] = obs.observe(ens, g, eval_kinds(g))
                elif what == "mode":
                    _CACHE[key] = np.asarray(ens.mode(np.array(arg)))
                elif what == "moment":
                    _CACHE[key] = np.asarray(ens.moment_partial(1, arg))
                else:
                    _CACHE[key] = np.asarray(getattr(ens, what)(np.array(arg)))
        return _CACHE[key]


def eval_kinds(f):
    return ("pdf", "cdf") if f.cls == "spline" else ("pdf", "cdf", "ppf")


def data_of(st, rows):
    """objdata of other rows, as a fresh ensemble shows them"""
    key = (st.f.name, "objdata", tuple(rows))
    if key not in _CACHE:
        _CACHE[key] = obs.observe(obs.build(st.f, rows), st.f, ())["data"]
    return {k: v.copy() for k, v in _CACHE[key].items()}


class Run:
    def __init__(self, ctx, f, anc):
        self.ctx, self.f = ctx, f
        self.ens = obs.build(f, [0, 1], obs.ancil([0, 1]) if anc else None)
        self.st = State(f, [0, 1], obs.ancil([0, 1]) if anc else None, f.data.get("pdf_constructor_name"))
        self.grid = np.array(G1)
        self.path = []

    def must_fail(self, fn, *args, **kwargs):
        self.ctx.check(raises(fn, *args, **kwargs) is not None, "%s is not rejected" % self.path)

    def value(self, got, what, arg):
        same(self.ctx, got, self.st.fresh(what, arg), "%s %s" % (self.f.name, self.path), 1e-9, 1e-11)

    # evaluations
    def pdf(self):
        self.value(self.ens.pdf(np.array(G2)), "pdf", G2)

    def cdf(self):
        self.value(self.ens.cdf(np.array(G1)), "cdf", G1)

    def ppf(self):
        self.value(self.ens.ppf(np.array([0.25, 0.5])), "ppf", [0.25, 0.5])

    def gridded(self, grid, pts):
        x, y = self.ens.gridded(grid)
        same(self.ctx, x, pts, "%s %s: grid" % (self.f.name, self.path))
        self.value(y, "pdf", pts)

    def gridded1(self):
        self.gridded(self.grid, self.grid.tolist())

    def gridded2(self):
        self.gridded(np.array(G2), G2)

    def gridded3(self):
        self.gridded(np.array(G3), G3)

    def gridded_list(self):
        self.gridded(list(G1), G1)

    def change_grid(self):
        # the caller changes the array given to gridded before
        self.grid[1] = 0.75 if self.grid[1] == 0.5 else 0.5

    def mode(self):
        self.value(self.ens.mode(np.array(G2)), "mode", G2)

    def moment(self):
        self.value(self.ens.moment_partial(1, (0.0, 1.5), dx=0.01), "moment", (0.0, 1.5))

    def read(self):
        # looking at the tables and changing the returned dictionaries
        for d in (self.ens.metadata(), self.ens.objdata(), self.ens.build_tables()):
            d.clear()

    def select(self):
        sub = self.ens[0]
        with np.errstate(all="ignore"):
            sub.gridded(np.array(G1))
        sub.append(sub)
        sub.add_to_ancil(dict(w=np.array([1, 2])))

    def concatenate(self):
        both = qp.concatenate([self.ens, self.ens])
        both.set_ancil(None)
        both.gridded(np.array(G2))

    # updates
    def update(self):
        self.ens.update(obs.raw(self.f, [2]))
        self.st.rows, self.st.ancil, self.st.kind = [2], None, self.f.data.get("pdf_constructor_name")

    def update_ancil(self):
        self.ens.update(obs.raw(self.f, [2, 0, 1]), ancil=obs.ancil([2, 0, 1]))
        self.st.rows, self.st.ancil, self.st.kind = [2, 0, 1], obs.ancil([2, 0, 1]), self.f.data.get("pdf_constructor_name")

    def update_bad_data(self):
        self.must_fail(self.ens.update, {**obs.raw(self.f, [2, 3]), "nonsense": 1.0})

    def update_bad_ancil(self):
        self.must_fail(self.ens.update, obs.raw(self.f, [2, 3]), dict(z=np.arange(3)))

    def objdata(self):
        self.ens.update_objdata(data_of(self.st, [3, 1]))
        self.st.rows, self.st.ancil = [3, 1], None

    def objdata_ancil(self):
        n = len(self.st.rows)
        rows = [3, 1, 0, 2][:n] if n <= 4 else [3] * n
        self.ens.update_objdata(data_of(self.st, rows), ancil=obs.ancil(rows))
        self.st.rows, self.st.ancil = rows, obs.ancil(rows)

    def objdata_bad(self):
        self.must_fail(self.ens.update_objdata, {"nonsense": 1.0})
        self.must_fail(self.ens.update_objdata, data_of(self.st, [3, 1]), dict(z=np.arange(3)))

    def append(self):
        other = obs.build(self.f, [4], obs.ancil([4]))
        if self.st.kind != self.f.data.get("pdf_constructor_name") or (self.st.ancil is not None and set(self.st.ancil) != set(other.ancil)):
            self.must_fail(self.ens.append, other)
            return
        self.ens.append(other)
        self.st.rows = self.st.rows + [4]
        if self.st.ancil is not None:
            self.st.ancil = {k: np.concatenate([v, obs.ancil([4])[k]]) for k, v in self.st.ancil.items()}

    def append_none(self):
        other = obs.build(self.f, [4, 0])
        if self.st.kind != self.f.data.get("pdf_constructor_name"):
            self.must_fail(self.ens.append, other)
            return
        self.ens.append(other)
        self.st.rows, self.st.ancil = self.st.rows + [4, 0], None

    def append_bad(self):
        other = "uniform" if self.f.name == "norm" else "norm"
        self.must_fail(self.ens.append, fix.make(other, 2).ens())

    # ancillary data
    def set_ancil(self):
        anc = obs.ancil([9 - i for i in range(len(self.st.rows))])
        self.ens.set_ancil({k: v.copy() for k, v in anc.items()})
        self.st.ancil = anc

    def set_other(self):
        # other columns than those before
        n = len(self.st.rows)
        anc = dict(z=np.arange(n) + 0.5, other=np.arange(n) * 2)
        self.ens.set_ancil({k: v.copy() for k, v in anc.items()})
        self.st.ancil = anc

    def update_other(self):
        anc = dict(other=np.arange(3))
        self.ens.update(obs.raw(self.f, [2, 0, 1]), ancil=anc)
        self.st.rows, self.st.ancil, self.st.kind = [2, 0, 1], dict(other=np.arange(3)), self.f.data.get("pdf_constructor_name")

    def set_none(self):
        self.ens.set_ancil(None)
        self.st.ancil = None

    def set_bad(self):
        n = len(self.st.rows)
        self.must_fail(self.ens.set_ancil, dict(z=np.arange(n), y=np.arange(n + 1)))

    def add_ancil(self):
        n = len(self.st.rows)
        self.ens.add_to_ancil(dict(z=np.arange(n) * 0.1))
        anc = dict(self.st.ancil or {})
        anc["z"] = np.arange(n) * 0.1
        self.st.ancil = anc

    def add_bad(self):
        n = len(self.st.rows)
        self.must_fail(self.ens.add_to_ancil, dict(z=np.arange(n), y=np.arange(n + 1)))

    # quantile reconstructions
    def switch(self, kind):
        self.ens.dist.pdf_constructor_name = kind
        self.st.kind = kind

    def switch_bad(self):
        try:
            self.ens.dist.pdf_constructor_name = "drawing_by_hand"
        except ValueError:
            return
        self.ctx.fail("%s: an unknown reconstruction is not rejected" % self.path)

    def apply(self, op):
        self.path.append(op)
        with np.errstate(all="ignore"):
            if op in KINDS:
                self.switch(op)
            else:
                getattr(self, op)()
        self.ctx.step()

    def observe(self):
        """everything a user can see"""
        ctx, st, ens = self.ctx, self.st, self.ens
        g = st.fixture()
        msg = "%s after %s" % (self.f.name, self.path)
        ctx.state(self.f.name, tuple(self.path))
        # the cached grid values first: other evaluations do not change them
        with np.errstate(all="ignore"):
            for pts in (self.grid.tolist(), G2, G1, G3):
                x, y = ens.gridded(np.array(pts))
                same(ctx, x, pts, msg + ": grid")
                same(ctx, y, st.fresh("pdf", pts), msg + ": gridded", 1e-9, 1e-11)
            same(ctx, ens.mode(np.array(G1)), st.fresh("mode", G1), msg + ": mode", 1e-9, 1e-11)
        got = obs.observe(ens, g, eval_kinds(g))
        obs.compare(ctx, got, st.fresh("observe"), msg, ancil_=st.ancil)
        tables = ens.build_tables()
        ctx.check(("ancil" in tables) == (st.ancil is not None), msg + ": ancillary table")
        ctx.check(set(tables["data"]) == set(got["data"]) and set(tables["meta"]) == set(got["meta"]), msg + ": tables")
        if st.kind is not None:
            ctx.check(ens.dist.pdf_constructor_name == st.kind, msg + ": reconstruction is %s" % ens.dist.pdf_constructor_name)


EVAL = ["pdf", "cdf", "ppf", "gridded1", "gridded2", "gridded3", "gridded_list", "change_grid", "mode", "moment", "read", "select", "concatenate"]
CHANGE = ["update", "update_ancil", "update_bad_data", "update_bad_ancil", "objdata", "objdata_ancil", "objdata_bad", "append", "append_none", "append_bad", "set_ancil", "set_other", "update_other", "set_none", "set_bad", "add_ancil", "add_bad"]
# one operation of each kind, for the deeper sequences
SHORT = ["cdf", "ppf", "gridded1", "gridded2", "change_grid", "update_ancil", "update_bad_ancil", "objdata", "append", "append_bad", "add_bad"]


def ops_for(f, names):
    out = [o for o in names if not (f.cls == "spline" and o == "ppf")]
    if f.cls == "quant":
        out = out + KINDS + ["switch_bad"]
    return out


def sequence(ctx, f, anc, depth, names):
    run = Run(ctx, f, anc)
    ops = ops_for(f, names)
    for _ in range(depth):
        op = ctx.choose("op", ["end"] + ops)
        if op == "end":
            break
        run.apply(op)
    run.observe()


def every(ctx):
    """all sequences of all operations"""
    f = fix.make(ctx.choose("representation", fix.ALL), 5)
    anc = ctx.flag("ancil")
    sequence(ctx, f, anc, 2, EVAL + CHANGE)


def deep(ctx):
    """longer sequences"""
    f = fix.make(ctx.choose("representation", fix.CORE if not ctx.thorough else fix.ALL), 5)
    names = SHORT if not ctx.thorough else EVAL + CHANGE
    sequence(ctx, f, True, 3, names)


def deeper(ctx):
    """depth 4 of one operation of each kind"""
    f = fix.make(ctx.choose("representation", fix.CORE), 5)
    sequence(ctx, f, True, 4, SHORT)


def grid_history(ctx):
    """long histories of grid evaluations, caller's changes and updates on one cheap ensemble"""
    f = fix.make(ctx.choose("representation", ["norm", "hist_n", "quant_pl"]), 5)
    run = Run(ctx, f, False)
    ops = ["gridded1", "gridded2", "gridded3", "change_grid", "update", "objdata"]
    if f.cls == "quant":
        ops = ["gridded1", "gridded2", "change_grid", "piecewise_constant", "piecewise_linear", "objdata"]
    for _ in range(4 if not ctx.thorough else 5):
        op = ctx.choose("op", ["end"] + ops)
        if op == "end":
            break
        run.apply(op)
    run.observe()


HARNESSES = dict(every=every, deep=deep, grid_history=grid_history, deeper=deeper)
THOROUGH_ONLY = ("deeper",)
BOUNDS = dict(
    quick="all sequences of up to 2 of 30 operations (35 for quantile ensembles), up to 3 of 11 (16), up to 4 of 6 grid and update operations; every representation, with and without ancillary data",
    thorough="all sequences of up to 3 of all operations for every representation, 4 of 11 (16), 5 of the grid operations",
)
ASSUMPTIONS = [
    "update and update_objdata without ancillary data leave the ensemble without them (as in the code)",
    "arrays returned by the ensemble (grid values, object data) are not written to by the caller",
]
