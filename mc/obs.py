"""What a user can see of an ensemble, and fresh ensembles to compare with"""

import numpy as np


from mc.util import same, same_dict, snapshot

_FRESH = {}


def ancil(rows):
    """Ancillary data of several types, identified by row numbers"""
    rows = list(rows)
    return dict(
        z=np.array([0.25 + 0.5 * i for i in rows]),
        k=np.array([10 + 3 * i for i in rows]),
        v=np.array([[i + 0.125, 7.0 - i] for i in rows]).reshape(len(rows), 2),
        s=np.array([b"id%02d" % i for i in rows]),
        b=np.array([i % 2 == 1 for i in rows]),
    )


def raw(f, rows):
    """constructor data of the given rows of a fixture"""
    data = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in f.data.items()}
    for k in f.per_row:
        data[k] = data[k][list(rows)]
    return data


def build(f, rows, anc=None):
    import qp

    cls = getattr(qp, f.cls) if hasattr(qp, f.cls) else getattr(qp.stats, f.cls)
    return qp.Ensemble(cls, data=raw(f, rows), ancil=anc)


def values(ens, f, kinds=("pdf", "cdf", "ppf")):
    """values on the points of the fixture"""
    out = {}
    with np.errstate(all="ignore"):
        for kind in kinds:
            pts = [q for q in f.qs] if kind == "ppf" else list(f.xs)
            if f.cls == "spline" and kind == "ppf":
                pts = pts[1:2]
            if f.cls == "spline" and kind == "pdf":
                pts = f.inside()
            out[kind] = np.array(getattr(ens, kind)(np.array(pts)))
    return out


def observe(ens, f, kinds=("pdf", "cdf", "ppf")):
    out = dict(npdf=int(ens.npdf), values=values(ens, f, kinds))
    out["meta"] = {k: np.array(v) for k, v in ens.metadata().items()}
    out["data"] = {k: np.array(v) for k, v in ens.objdata().items()}
    out["ancil"] = None if ens.ancil is None else {k: np.array(v) for k, v in ens.ancil.items()}
    out["class"] = ens.gen_class.name
    return out


def fresh(f, rows, kinds=("pdf", "cdf", "ppf")):
    """observation of a new ensemble made of the given rows"""
    key = (f.name, f.npdf, tuple(rows), kinds)
    if key not in _FRESH:
        if len(_FRESH) > 3000:
            _FRESH.clear()
        _FRESH[key] = observe(build(f, rows), f, kinds)
    return _FRESH[key]


def compare(ctx, got, want, msg, ancil_="same", rtol=1e-9, atol=1e-11):
    """Two observations agree; ancil_ gives the expected ancillary data if not those of `want`"""
    if got["class"] != want["class"]:
        ctx.fail("%s: class %s instead of %s" % (msg, got["class"], want["class"]))
    if got["npdf"] != want["npdf"]:
        ctx.fail("%s: npdf %i instead of %i" % (msg, got["npdf"], want["npdf"]))
    for kind in want["values"]:
        same(ctx, got["values"][kind], want["values"][kind], "%s: %s" % (msg, kind), rtol, atol)
    same_dict(ctx, got["meta"], want["meta"], "%s: metadata" % msg, strict=False)
    same_dict(ctx, got["data"], want["data"], "%s: object data" % msg, strict=False)
    if ancil_ is None:
        if got["ancil"] is not None:
            ctx.fail("%s: unexpected ancillary data %s" % (msg, sorted(got["ancil"])))
    else:
        same_dict(ctx, got["ancil"], want["ancil"] if ancil_ == "same" else ancil_, "%s: ancillary data" % msg)


def frozen_state(ens):
    """byte-exact state of an ensemble, to see that it did not change"""
    return snapshot(dict(meta=ens.metadata(), data=ens.objdata(), ancil=ens.ancil, npdf=int(ens.npdf)))


def unchanged(ctx, ens, before, msg):
    after = frozen_state(ens)
    ctx.traced()
    if after != before:
        bad = [k for k in before if before[k] != after.get(k)]
        ctx.fail("%s: the %s of the ensemble changed" % (msg, ", ".join(bad)))


