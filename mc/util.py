"""Helpers shared by the checks"""

import itertools
import math

import numpy as np

from mc import ref


def num(v):
    """short text of a value"""
    return np.array2string(np.asarray(v), precision=8, threshold=24).replace("\n", " ")


def match(ctx, refs, kind, got, rows, pts, what="", rtol=1e-8, atol=1e-11):
    """Compare an array (len(rows), len(pts)) with the references; pts may be one list per row"""
    got = np.asarray(got)
    per_row = len(pts) > 0 and isinstance(pts[0], (list, tuple, np.ndarray))
    want = (len(rows), len(pts[0]) if per_row else len(pts))
    if got.shape != want:
        ctx.fail("%s %s has shape %s instead of %s" % (what, kind, got.shape, want))
    for i, r in enumerate(rows):
        fun = getattr(refs[r], kind)
        for j, p in enumerate(pts[i] if per_row else pts):
            ctx.traced()
            choices = fun(p)
            if ref.accept(got[i, j], choices, rtol, atol):
                continue
            known = refs[r].finding(kind, float(p))
            if known and ref.accept(got[i, j], known[1], rtol, atol):
                ctx.finding(known[0], "%s %s(%r) of row %i is %r, it should be %s" % (what, kind, p, r, float(got[i, j]), choices))
                continue
            ctx.fail("%s %s(%r) of row %i is %r, it should be %s" % (what, kind, p, r, float(got[i, j]), choices))


def same(ctx, a, b, msg, rtol=1e-9, atol=1e-12):
    """Two arrays are equal up to rounding, nan matches nan"""
    a, b = np.asarray(a), np.asarray(b)
    ctx.traced(max(int(a.size), 1))
    if a.shape != b.shape:
        ctx.fail("%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    if a.dtype.kind in "USOVb" or b.dtype.kind in "USOVb":
        if not np.all(a == b):
            ctx.fail("%s: %s instead of %s" % (msg, num(a), num(b)))
        return
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a.astype(float)) & np.isnan(b.astype(float))) | (np.abs(a - b) <= atol + rtol * np.abs(b))
    if not np.all(ok):
        ctx.fail("%s: %s instead of %s" % (msg, num(a), num(b)))


def exact(ctx, a, b, msg):
    """Identical values, shapes and (numeric) types"""
    a, b = np.asarray(a), np.asarray(b)
    ctx.traced(max(int(a.size), 1))
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        ctx.fail("%s: %s%s instead of %s%s" % (msg, a.dtype, a.shape, b.dtype, b.shape))
    eq = (a == b) | ((a != a) & (b != b)) if a.dtype.kind == "f" else (a == b)
    if not np.all(eq):
        ctx.fail("%s: %s instead of %s" % (msg, num(a), num(b)))


def same_dict(ctx, a, b, msg, strict=True):
    if (a is None) != (b is None):
        ctx.fail("%s: %s instead of %s" % (msg, a, b))
    if a is None:
        return
    if set(a) != set(b):
        ctx.fail("%s: keys %s instead of %s" % (msg, sorted(map(str, a)), sorted(map(str, b))))
    for k in a:
        (exact if strict else same)(ctx, a[k], b[k], "%s[%s]" % (msg, k))


def raises(fn, *args, **kwargs):
    """The exception raised by a call, or None"""
    try:
        fn(*args, **kwargs)
    except Exception as err:  # pylint: disable=broad-except
        return err
    return None


def subsets(seq):
    seq = list(seq)
    return [c for n in range(len(seq) + 1) for c in itertools.combinations(seq, n)]


def compositions(n):
    """All ways to cut n into consecutive non-empty pieces"""
    if n == 0:
        return [()]
    return [(k,) + rest for k in range(1, n + 1) for rest in compositions(n - k)]


def finite(seq):
    return [v for v in seq if math.isfinite(v)]


def snapshot(obj):
    """Deep, comparable copy of nested dicts, lists and arrays"""
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [type(obj).__name__] + [snapshot(v) for v in obj]
    if isinstance(obj, np.ndarray):
        return ("array", obj.dtype.str, obj.shape, obj.tobytes())
    return ("value", repr(obj))


def near(edges):
    """edges, points beside and between them"""
    out = []
    edges = list(edges)
    for i, e in enumerate(edges):
        s = max(abs(e), edges[-1] - edges[0])
        out += [e - 1e-9 * s, e, e + 1e-9 * s]
        if i + 1 < len(edges):
            d = edges[i + 1] - e
            out += [e + 0.25 * d, e + 0.5 * d, e + 0.875 * d]
    span = edges[-1] - edges[0]
    return [edges[0] - 0.5 * span] + out + [edges[-1] + 0.5 * span]
