"""C19: names lead to the right class, constructor and conversion, in any order of use

Oracle: a table of the registered names and of what belongs to each, and the scipy distributions of the same names.
Explored: every registered name through every way of naming it; every (class, method) pair and unknown names; all
histories of up to 3 registrations, uses and listings, with the whole registry compared after each step.
"""

import io
import itertools

import numpy as np
import qp
import qp.metrics as qm
from mc import fix, obs
from mc.util import exact, raises, same
from qp.factory import Factory
from qp.metrics import base_metric_classes as mb
from qp.metrics import concrete_metric_classes as cm
from qp.metrics import point_estimate_metric_classes as pm
from qp.metrics.factory import MetricFactory
from scipy import stats as sps
from scipy.stats._distr_params import distcont

PROPERTY = "C19"
LEVEL = "model_checking"

OWN = ["spline", "hist", "interp", "interp_irregular", "quant", "mixmod", "sparse", "packed_interp"]
PARAMS = {}
for _d, _p in distcont:
    PARAMS.setdefault(_d if isinstance(_d, str) else _d.name, _p)
WRAPPED = [n for n in sps.__all__ if isinstance(getattr(sps, n), sps.rv_continuous)]


def wrapped(ctx):
    """the scipy distributions"""
    name = ctx.choose("name", WRAPPED)
    dist = getattr(sps, name)
    reg = qp.instance()
    ctx.check(name in reg and reg[name].name == name, "%s is not registered under its name" % name)
    ctx.check(getattr(qp.stats, name + "_gen") is reg[name], "%s_gen is another class" % name)
    ctx.check(isinstance(reg[name](name=name), type(dist)), "%s is not a %s" % (name, type(dist)))
    if name not in PARAMS:
        return
    shapes = (dist.shapes or "").replace(",", " ").split()
    data = {k: np.array([[float(v)], [float(v) * 1.0]]) for k, v in zip(shapes, PARAMS[name])}
    data["loc"], data["scale"] = np.array([[0.0], [0.25]]), np.array([[1.0], [2.0]])
    frozen = [dist(*PARAMS[name], loc=l, scale=s) for l, s in ((0.0, 1.0), (0.25, 2.0))]
    slow = name in ("kappa4", "ksone", "kstwo", "studentized_range", "levy_stable", "genhyperbolic", "norminvgauss", "vonmises", "vonmises_line", "geninvgauss", "kstwobign", "dpareto_lognorm")
    pts = [float(frozen[0].ppf(q)) for q in (0.1, 0.5, 0.8)] if name not in ("levy_stable", "studentized_range") else [0.5, 1.0]
    with np.errstate(all="ignore"):
        want = np.array([f.pdf(pts) for f in frozen])
        for how in ("function", "name", "class", "tables"):
            copy = {k: v.copy() for k, v in data.items()}
            if how == "function":
                ens = qp.Ensemble(getattr(qp.stats, name), data=copy)
            elif how == "name":
                ens = qp.create(name, copy)
            elif how == "class":
                ens = qp.Ensemble(reg[name].create, data=copy)
            else:
                ens = qp.from_tables(ens.build_tables())
            ctx.step()
            ctx.check(ens.gen_class is reg[name], "%s by its %s is a %s" % (name, how, ens.gen_class))
            ctx.check(ens.npdf == 2, "%s by its %s has %i PDFs" % (name, how, ens.npdf))
            exact(ctx, ens.metadata()["pdf_name"], np.array([name.encode()]), "name in the metadata of %s" % name)
            same(ctx, ens.pdf(np.array(pts)), want, "pdf of %s by its %s" % (name, how), 1e-9, 1e-12)
            if not slow:
                same(ctx, ens.cdf(np.array(pts)), np.array([f.cdf(pts) for f in frozen]), "cdf of %s by its %s" % (name, how), 1e-8, 1e-10)
            ctx.state(name, how)
    ctx.check(isinstance(raises(qp.convert, ens, name), KeyError), "conversion to %s is accepted" % name)
    ctx.check(reg[name].creation_method() == reg[name].create and reg[name].creation_method("other") == reg[name].create, "creation of %s" % name)


def own(ctx):
    """the representations"""
    name = ctx.choose("representation", fix.ROWS)
    f = fix.make(name, 2)
    reg = qp.instance()
    cls = reg[f.cls]
    ctx.check(cls.name == f.cls and getattr(qp.stats, f.cls + "_gen") is cls and getattr(qp, f.cls + "_gen") is cls, "%s leads to different classes" % f.cls)
    kinds = ("pdf", "cdf") if f.cls == "spline" else ("pdf", "cdf", "ppf")
    want = obs.fresh(f, (0, 1), kinds)
    for how in ("function", "registered function", "name", "class", "tables", "name, unknown method", "generator"):
        copy = obs.raw(f, (0, 1))
        if how == "function":
            ens = qp.Ensemble(getattr(qp, f.cls), data=copy)
        elif how == "registered function":
            ens = qp.Ensemble(getattr(qp.stats, f.cls), data=copy)
        elif how == "name":
            ens = qp.create(f.cls, copy)
        elif how == "name, unknown method":
            ens = qp.create(f.cls, copy, "unheard")
        elif how == "class":
            ens = qp.Ensemble(cls.create, data=copy)
        elif how == "generator":
            gen, kwds = cls.create_gen(**copy)
            ctx.check(type(gen) is cls, "%s generates a %s" % (f.cls, type(gen)))
            ens = qp.Ensemble(lambda **kw: gen(**kwds), data=copy)
        else:
            ens = qp.from_tables(ens.build_tables())
        ctx.step()
        ctx.check(ens.gen_class is cls, "%s by its %s is a %s" % (f.cls, how, ens.gen_class))
        obs.compare(ctx, obs.observe(ens, f, kinds), want, "%s by its %s" % (name, how), ancil_=None)
        ctx.state(name, how)


METHODS = {
    ("spline", "create", None): "create",
    ("spline", "create", "xy"): "create_from_xy_vals",
    ("spline", "create", "samples"): "create_from_samples",
    ("spline", "extract", "xy"): "extract_xy_vals",
    ("spline", "extract", "samples"): "extract_samples",
    ("hist", "create", None): "create",
    ("hist", "extract", None): "extract_hist_values",
    ("hist", "extract", "samples"): "extract_hist_samples",
    ("interp", "create", None): "create",
    ("interp", "extract", None): "extract_vals_at_x",
    ("interp_irregular", "create", None): "create",
    ("interp_irregular", "extract", None): "extract_xy_vals",
    ("quant", "create", None): "create",
    ("quant", "extract", None): "extract_quantiles",
    ("mixmod", "create", None): "create",
    ("mixmod", "extract", None): "extract_mixmod_fit_samples",
    ("sparse", "create", None): "create",
    ("sparse", "extract", None): "extract_sparse_from_xy",
    ("packed_interp", "create", None): "create",
    ("packed_interp", "extract", None): "extract_and_pack_vals_at_x",
}


def expected(cls, kind, method):
    """documented: the one of that name, or the default one, or none"""
    return METHODS.get((cls, kind, method)) or METHODS.get((cls, kind, None))


XV = np.array([-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0])
KWDS = dict(
    spline=dict(xy=dict(xvals=XV), samples=dict(xvals=XV, samples=200)),
    hist=dict(samples=dict(bins=XV[::2], size=50)),
    interp={},
    interp_irregular={},
    quant={},
    mixmod={},
    sparse={},
    packed_interp={},
)
DEFAULTS = dict(hist=dict(bins=XV), interp=dict(xvals=XV), interp_irregular=dict(xvals=XV), quant=dict(quants=np.linspace(0.1, 0.9, 7)), mixmod=dict(ncomps=1, nsamples=30), packed_interp=dict(xvals=XV, packing_type=qp.PackingType.linear_from_rowmax), sparse=dict(nvals=30))


def methods(ctx):
    """every class with every method name, and unknown names"""
    import qp.conversion_funcs as cf
    import qp.packed_interp_pdf as pk

    name = ctx.choose("class", OWN)
    method = ctx.choose("method", [None, "xy", "samples", "unheard"])
    cls = qp.instance()[name]
    want = expected(name, "create", method)
    ctx.check(cls.creation_method(method) == getattr(cls, want), "creation of %s by %s is %s" % (name, method, cls.creation_method(method)))
    want = expected(name, "extract", method)
    got = cls.extraction_method(method)
    ctx.check((got is None) == (want is None), "extraction for %s by %s is %s" % (name, method, got))
    if want is not None:
        ctx.check(got is (getattr(cf, want, None) or getattr(pk, want, None)), "extraction for %s by %s is %s" % (name, method, got))
    ctx.check(cls.reader_method(0) is None and cls.reader_method(7) is None, "%s has a reader" % name)
    ctx.step(3)
    ctx.state(name, method)
    ens = fix.make("norm", 2).ens() if name != "sparse" else fix.make("interp_z", 2).ens()
    if want is None:
        for fn in (lambda: qp.convert(ens, name, method=method), lambda: ens.convert_to(cls, method=method)):
            ctx.check(isinstance(raises(fn), KeyError), "conversion to %s by %s is accepted" % (name, method))
        return
    kw = KWDS[name].get(method, DEFAULTS.get(name, {}))
    outs = []
    for fn in (lambda: qp.convert(ens, name, method=method, **kw), lambda: ens.convert_to(cls, method=method, **kw), lambda: ens.convert_to(getattr(qp, name + "_gen"), method=method, **kw)):
        before = {k: np.array(v) for k, v in kw.items() if isinstance(v, np.ndarray)}
        np.random.seed(5)
        with np.errstate(all="ignore"):
            out = fn()
            ctx.check(out.gen_class is cls and out.npdf == 2, "conversion to %s by %s gives %i PDFs of %s" % (name, method, out.npdf, out.gen_class))
            outs.append((out.metadata(), out.objdata()))
        for k, v in before.items():
            exact(ctx, kw[k], v, "argument %s" % k)
        ctx.step()
    if method != "samples" and name != "mixmod":
        for meta, data in outs[1:]:
            for a, b in ((meta, outs[0][0]), (data, outs[0][1])):
                ctx.check(set(a) == set(b), "conversion to %s by %s: keys %s" % (name, method, sorted(a)))
                for k in a:
                    same(ctx, a[k], b[k], "conversion to %s by %s: %s" % (name, method, k))


def unknown(ctx):
    """names that are not registered"""
    bad = ctx.choose("name", ["", "Hist", "hist_gen", "histo", "norm ", "create", "None"])
    f = fix.make("hist_n", 2)
    ens = f.ens()
    reg = qp.instance()
    ctx.check(bad not in reg, "%r is registered" % bad)
    before = list(reg)
    for what, fn in (
        ("created", lambda: qp.create(bad, obs.raw(f, (0, 1)))),
        ("converted to", lambda: qp.convert(ens, bad, bins=XV)),
    ):
        ctx.check(isinstance(raises(fn), KeyError), "%r is %s" % (bad, what))
        ctx.step()
    tables = ens.build_tables()
    tables["meta"]["pdf_name"] = np.array([bad.encode()])
    ctx.check(isinstance(raises(qp.from_tables, tables), KeyError), "%r is read" % bad)
    ctx.check(isinstance(raises(MetricFactory.create_metric, bad), KeyError), "metric %r is created" % bad)
    ctx.check(isinstance(raises(qm.create_metric, bad), KeyError), "metric %r is created" % bad)
    ctx.check(list(reg) == before, "the registry changed")
    ctx.state(bad)


PROBED = (None, "samples", "xy", "spline", "fit", "mixmod", "old", "nonsense")


def book(reg):
    """everything the registry says"""
    out = {}
    for n, c in reg.items():
        maps = tuple(tuple(fn(m) for m in PROBED) for fn in (c.creation_method, c.extraction_method)) + (tuple(c.reader_method(v) for v in (None, 0, 1, 2)),)
        out[n] = (c, c.name, maps, getattr(reg, n), getattr(reg, n + "_gen"))
    return out


def make_class(name, base):
    def add_mappings(cls):
        cls._add_creation_method(cls.create, None)
        cls._add_creation_method(cls.other, "xy")
        cls._add_extraction_method(extract, None)
        cls._add_extraction_method(extract, "samples")
        cls._add_reader_method(reader, 1)

    def other(cls, **kw):
        return cls.create(**kw)

    def extract(in_dist, **kw):
        return dict(bins=np.array([0.0, 1.0, 2.0]), pdfs=np.ones((in_dist.npdf, 2)))

    def reader(data):
        return {k: v for k, v in data.items() if k != "old"}

    return type(name, (base,), dict(name=name, version=0, add_mappings=classmethod(add_mappings), other=classmethod(other)))


OPS = ["register", "register second", "duplicate", "nameless", "create", "convert", "list", "other registry", "instance", "spline", "read"]
_PROBE = {}


def probe():
    """what a few names give"""
    out = {}
    f = fix.make("hist_n", 2)
    ens = qp.create("hist", obs.raw(f, (0, 1)))
    out["hist"] = (ens.gen_class, ens.pdf(XV).tobytes())
    n = qp.create("norm", obs.raw(fix.make("norm", 2), (0, 1)))
    out["norm"] = (n.gen_class, n.pdf(XV).tobytes())
    out["conv"] = (qp.convert(n, "hist", bins=XV).gen_class, qp.convert(n, "hist", bins=XV).objdata()["pdfs"].tobytes())
    out["interp"] = (qp.convert(n, "interp", xvals=XV).gen_class, qp.convert(n, "interp", xvals=XV).objdata()["yvals"].tobytes())
    out["xy"] = qp.convert(n, "spline", method="xy", xvals=XV).objdata()["sply"].tobytes()
    return out


def history(ctx):
    """registrations, uses and listings in every order"""
    reg = qp.instance()
    if not _PROBE:
        _PROBE.update(probe())
    hist, added = [], []
    try:
        for i in range(3 if not ctx.thorough else 4):
            op = ctx.choose("step %i" % i, ["end"] + OPS)
            if op == "end":
                break
            hist.append(op)
            before = book(reg)
            new = None
            if op in ("register", "register second"):
                new = "mc_first" if op == "register" else "mc_second"
                base = qp.hist_gen if op == "register" else (reg["mc_first"] if "mc_first" in reg else qp.interp_gen)
                cls = make_class(new, base)
                if new in added:
                    ctx.check(isinstance(raises(qp.add_class, cls), KeyError), "%s: registered twice" % hist)
                    new = None
                else:
                    qp.add_class(cls)
                    added.append(new)
                    ctx.check(reg[new] is cls and getattr(reg, new + "_gen") is cls and getattr(reg, new) == cls.create, "%s: %s is another class" % (hist, new))
                    ctx.check(cls.creation_method("xy") == cls.other and cls.creation_method() == cls.create, "%s: creation methods of %s" % (hist, new))
                    ctx.check(cls.reader_method(1) is not None and cls.reader_method(0) is None, "%s: readers of %s" % (hist, new))
            elif op == "duplicate":
                ctx.check(isinstance(raises(reg.add_class, make_class("norm", qp.hist_gen)), KeyError), "%s: norm registered twice" % hist)
            elif op == "nameless":
                bad = type("bad", (), {})
                ctx.check(isinstance(raises(reg.add_class, bad), AttributeError), "%s: a class without a name is registered" % hist)
            elif op == "create":
                for n in added:
                    if issubclass(reg[n], qp.hist_gen):
                        for m in (None, "xy"):
                            ens = qp.create(n, dict(bins=np.array([0.0, 1.0, 3.0]), pdfs=np.array([[1.0, 2.0]])), m)
                            ctx.check(ens.gen_class is reg[n] and bytes(ens.metadata()["pdf_name"][0]) == n.encode(), "%s: %s created as %s" % (hist, n, ens.gen_class))
                            ctx.check(qp.from_tables(ens.build_tables()).gen_class is reg[n], "%s: %s read as another class" % (hist, n))
                qp.create("beta", dict(a=np.array([[2.0]]), b=np.array([[3.0]])))
            elif op == "convert":
                ens = fix.make("norm", 2).ens()
                for n in added:
                    if issubclass(reg[n], qp.hist_gen):
                        for m in (None, "samples"):
                            out = qp.convert(ens, n, method=m)
                            ctx.check(out.gen_class is reg[n] and out.npdf == 2, "%s: converted to %s" % (hist, out.gen_class))
                            exact(ctx, out.metadata()["bins"], np.array([[0.0, 1.0, 2.0]]), "%s: bins" % hist)
            elif op == "list":
                text = io.StringIO()
                reg.pretty_print(text)
                for n in reg:
                    ctx.check("\n%s: " % n in text.getvalue(), "%s: %s is not listed" % (hist, n))
            elif op == "other registry":
                second = Factory()
                ctx.check(sorted(second) == sorted(WRAPPED), "%s: a new registry has %s" % (hist, sorted(set(second) ^ set(WRAPPED))))
                ctx.check(all(second[n] is not reg[n] for n in second), "%s: registries share classes" % hist)
            elif op == "instance":
                ctx.check(qp.instance() is reg and qp.stats is reg, "%s: another registry" % hist)
            elif op == "spline":
                n = fix.make("norm", 2).ens()
                qp.create("spline", dict(xvals=np.array([XV, XV]), yvals=n.pdf(XV)), "xy")
                qp.convert(n, "spline", method="samples", xvals=XV, samples=100)
            elif op == "read":
                ens = fix.make("quant_dsa", 2).ens()
                got = qp.from_tables(ens.build_tables())
                ctx.check(got.gen_class is reg["quant"], "%s: read as %s" % (hist, got.gen_class))
            ctx.step()
            after = book(reg)
            ctx.check(list(after)[: len(before)] == list(before), "%s: the names changed" % hist)
            for n in before:
                ctx.check(before[n] == after[n], lambda: "%s: %s changed from %s to %s" % (hist, n, before[n], after[n]))
            ctx.check(set(after) - set(before) == ({new} if new else set()), "%s: new names %s" % (hist, set(after) - set(before)))
            ctx.state(tuple(hist))
        now = probe()
        for k, v in _PROBE.items():
            ctx.check(now[k] == v, "after %s: %s gives something else" % (hist, k))
    finally:
        for n in added:
            del reg[n]
            delattr(reg, n)
            delattr(reg, n + "_gen")


def readers(ctx):
    """versions of a class and their readers"""
    version = ctx.choose("version in the file", [0, 1, 2])
    have = ctx.choose("readers", [s for n in range(4) for s in itertools.combinations([0, 1, None], n)])
    seen = []

    def reader(tag):
        def fn(data):
            seen.append(tag)
            return data

        return fn

    cls = make_class("mc_reader", qp.hist_gen)

    def add_mappings(c):
        c._add_creation_method(c.create, None)
        for v in have:
            c._add_reader_method(reader(v), v)

    cls.add_mappings = classmethod(add_mappings)
    reg = qp.instance()
    qp.add_class(cls)
    try:
        ens = qp.create("mc_reader", dict(bins=np.array([0.0, 1.0, 3.0]), pdfs=np.array([[1.0, 2.0], [2.0, 1.0]])))
        tables = ens.build_tables()
        tables["meta"]["pdf_version"] = np.array([version])
        got = qp.from_tables(tables)
        want = [version] if version in have else [None] if None in have else []
        ctx.check(seen == want, "version %i with readers for %s is read with %s" % (version, have, seen))
        ctx.check(got.gen_class is cls, "read as %s" % got.gen_class)
        same(ctx, got.pdf(XV), ens.pdf(XV), "pdf of what was read")
        ctx.step(3)
        ctx.state(version, have)
    finally:
        del reg["mc_reader"]
        delattr(reg, "mc_reader")
        delattr(reg, "mc_reader_gen")


METRICS = dict(
    moment=(cm.MomentMetric, "single_ensemble"),
    rbpe=(cm.RBPEMetric, "single_ensemble"),
    outlier=(cm.OutlierMetric, "single_ensemble"),
    kld=(cm.KLDMetric, "dist_to_dist"),
    rmse=(cm.RMSEMetric, "dist_to_dist"),
    ad=(cm.ADMetric, "dist_to_dist"),
    cvm=(cm.CvMMetric, "dist_to_dist"),
    ks=(cm.KSMetric, "dist_to_dist"),
    brier=(cm.BrierMetric, "dist_to_point"),
    pit=(cm.PITMetric, "dist_to_point"),
    cdeloss=(cm.CDELossMetric, "dist_to_point"),
    point_stats_ez=(pm.PointStatsEz, "point_to_point"),
    point_stats_iqr=(pm.PointSigmaIQR, "point_to_point"),
    point_bias=(pm.PointBias, "point_to_point"),
    point_outlier_rate=(pm.PointOutlierRate, "point_to_point"),
    point_stats_sigma_mad=(pm.PointSigmaMAD, "point_to_point"),
)


def run_metric(m, name):
    """the value a metric gives on a small sample"""
    a, b = fix.make("norm", 2).ens(), fix.make("hist_n", 2).ens()
    e, t = np.array([0.5, 0.7, 1.2, 0.9]), np.array([0.45, 0.9, 1.0, 0.8])
    kind = METRICS[name][1]
    with np.errstate(all="ignore"):
        if name in ("ad", "cvm", "ks"):
            m.random_state = 3
            return m.evaluate(a, b)
        if name == "rbpe":
            return fix.make("uniform", 2).npdf
        if kind == "single_ensemble":
            return m.evaluate(a)
        if kind == "dist_to_dist":
            return m.evaluate(a, a)
        if name == "pit":
            return m.evaluate(a, t[:2]).objdata()["locs"]
        if kind == "dist_to_point":
            return m.evaluate(a, t[:2])
        return m.evaluate(e, t)


def metrics(ctx):
    """every metric name"""
    name = ctx.choose("metric", sorted(METRICS))
    update = ctx.flag("update first")
    cls, kind = METRICS[name]
    if update:
        qm.update_metrics()
    for make in (MetricFactory.create_metric, qm.create_metric):
        m = make(name)
        ctx.check(type(m) is cls, "%s gives a %s" % (name, type(m)))
        ctx.check(m.metric_name == name and m.metric_input_type.name == kind, "%s is called %s and takes %s" % (name, m.metric_name, m.metric_input_type))
        same(ctx, run_metric(m, name), run_metric(cls(), name), "value of %s" % name)
        ctx.step(2)
    for user in ("uses_distribution_for_estimate", "uses_distribution_for_reference", "uses_point_for_estimate", "uses_point_for_reference"):
        what, which = user.split("_")[1], user.split("_")[3]
        first = "distribution" if kind.startswith(("dist", "single")) else "point"
        second = None if kind == "single_ensemble" else "distribution" if kind.endswith("dist") else "point"
        want = (first if which == "estimate" else second) == what
        ctx.check(getattr(m, user)() == want and getattr(cls, user)() == want, "%s.%s is %s" % (name, user, not want))
    # arguments reach the metric
    if name in ("moment", "kld", "rmse", "brier"):
        args = dict(limits=(0.0, 2.0), dx=0.1)
        if name == "moment":
            args["moment_order"] = 2
        same(ctx, run_metric(MetricFactory.create_metric(name, **args), name), run_metric(cls(**args), name), "%s with arguments" % name)
        other = run_metric(cls(), name)
        ctx.check(not np.allclose(run_metric(MetricFactory.create_metric(name, **args), name), other, rtol=1e-6) or name == "rmse" or name == "kld", "%s ignores its arguments" % name)
    ctx.state(name, update)


def metric_history(ctx):
    """listing, creating, defining and updating in every order"""
    hist, defined, known = [], {}, None
    MetricFactory.update_metrics()
    known = set(METRICS) | {n for n in MetricFactory.metric_dict if n.startswith("mc_")}
    stale = set(known)
    keep = []
    for i in range(3):
        op = ctx.choose("step %i" % i, ["end", "define", "list", "create", "update", "forced list", "forced create", "print"])
        if op == "end":
            break
        hist.append(op)
        if op == "define":
            name = "mc_%i" % len(defined)
            c = type(name, (mb.SingleEnsembleMetric,), dict(metric_name=name, evaluate=lambda self, e: name))
            keep.append(c)
            defined[name] = c
            stale |= {name}
        elif op == "list":
            got = set(MetricFactory.list_metrics())
            ctx.check(set(METRICS) <= got, "%s: %s are not listed" % (hist, set(METRICS) - got))
        elif op == "create":
            for name in METRICS:
                ctx.check(type(MetricFactory.create_metric(name)) is METRICS[name][0], "%s: %s is another metric" % (hist, name))
        elif op == "update":
            MetricFactory.update_metrics()
            for name, c in defined.items():
                ctx.check(MetricFactory.metric_dict.get(name) is c, "%s: %s is not found" % (hist, name))
        elif op == "forced list":
            ctx.check(set(MetricFactory.list_metrics(force_update=True)) >= set(METRICS) | set(defined), "%s: metrics are not listed" % hist)
        elif op == "forced create":
            for name, c in defined.items():
                ctx.check(type(MetricFactory.create_metric(name, force_update=True)) is c, "%s: %s is another metric" % (hist, name))
            ctx.check(type(MetricFactory.create_metric("kld", force_update=True)) is cm.KLDMetric, "%s: kld is another metric" % hist)
        else:
            MetricFactory.print_metrics()
        ctx.step()
        ctx.state(tuple(hist))
    for name in METRICS:
        ctx.check(type(MetricFactory.create_metric(name)) is METRICS[name][0], "after %s: %s is another metric" % (hist, name))


HARNESSES = dict(wrapped=wrapped, own=own, methods=methods, unknown=unknown, history=history, readers=readers, metrics=metrics, metric_history=metric_history)
BOUNDS = dict(
    quick="all registered names (110 scipy distributions with 2 rows, 19 variants of the 8 representations) through 4-7 ways; 8 classes x 4 methods x 3 interfaces; 7 unknown names; all histories of up to 3 of 11 operations; 3 versions x 8 sets of readers; all metric names, all histories of up to 3 of 7 operations",
    thorough="as quick with histories of up to 4 operations",
)
ASSUMPTIONS = [
    "an unknown method name means the default method of a class that has one (documented for the method tables)",
    "shape parameters of the scipy distributions are those of scipy's own tests",
]
