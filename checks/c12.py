"""C12: packed values decode to the original within one packing step

Oracle: the two scales, written down again one value at a time (linear: max*code/255; logarithmic:
max*10**(-floor*(code/255-1)), 0 for code 0).
Explored: all 256 codes; all rows of up to 4 values over an alphabet of fractions of the maximum (on, between and beside
the steps, beside the floor, negative), all magnitudes, pairs of rows, number types; ensembles with all codes.
"""

import itertools
import math

import numpy as np
import qp
from mc.util import exact, same
from qp import packing_utils as pu

PROPERTY = "C12"
LEVEL = "model_checking"

KINDS = [("linear_from_rowmax", None), ("log_from_rowmax", None), ("log_from_rowmax", -2.0), ("log_from_rowmax", -3), ("log_from_rowmax", -4.5), ("log_from_rowmax", -1), ("log_from_rowmax", -0.25)]
MAGS = [1.0, 0.75, 2.0**-20, 3e-12, 1e10]


def decode(kind, code, ymax):
    name, floor = kind
    code, ymax = int(code), float(ymax)
    if name.startswith("linear"):
        return ymax * code / 255.0
    if code == 0:
        return 0.0
    return ymax * 10.0 ** (-(-3.0 if floor is None else floor) * (code / 255.0 - 1.0))


def width(kind):
    """one step of the logarithmic scale"""
    return abs(-3.0 if kind[1] is None else kind[1]) / 255.0


def pack(kind, arr):
    kw = {} if kind[1] is None else dict(log_floor=kind[1])
    return pu.pack_array(pu.PackingType[kind[0]], arr, **kw)


def unpack(kind, codes, ymax):
    kw = {} if kind[1] is None else dict(log_floor=kind[1])
    return pu.unpack_array(pu.PackingType[kind[0]], codes, row_max=ymax, **kw)


def fits(kind, value, code, ymax, slack=1e-9):
    """is the code one of the (at most two) nearest steps for the value"""
    frac = value / ymax
    if kind[0].startswith("linear"):
        return abs(255.0 * min(max(frac, 0.0), 1.0) - code) <= 0.5 + 255 * slack
    floor = -3.0 if kind[1] is None else kind[1]
    if frac <= 0:
        return code == 0
    pos = 255.0 * (math.log10(frac) - floor) / -floor
    # the offset that keeps zeros finite is below a tenth of a step
    pos = min(max(pos, 0.0), 255.0)
    return abs(pos - code) <= 0.6 + 255 * slack


def fractions(kind, thorough):
    out = [0.0, -0.25, 1.0, 0.5, 0.3, 254.4 / 255, 100.45 / 255, 1.0 / 255, 0.4 / 255, 0.6 / 255]
    if kind[0].startswith("log"):
        w = width(kind)
        floor = -3.0 if kind[1] is None else kind[1]
        out += [10.0**floor, 10.0 ** (floor + 0.6 * w), 10.0 ** (floor - 2.0), 10.0 ** (-40.4 * w)]
    if thorough:
        out += [2.0 / 3, 0.01, 1e-5, 1e-12]
    return out


def codes(ctx):
    """each code survives unpacking and packing, with every maximum, alone and next to every other code"""
    kind = ctx.choose("packing", KINDS)
    mag = ctx.choose("maximum", MAGS)
    width_ = ctx.choose("row length", [2, 3, 4])
    if width_ == 2:
        rows = np.array([[255, c] for c in range(256)] + [[c, 255] for c in range(256)])
    elif width_ == 3:
        step = 1 if ctx.thorough else 5
        rows = np.array([[255, a, b] for a in range(256) for b in range(0, 256, step)])
    else:
        rows = np.array([[a, 255 - a, 255, (a * 7 + 3) % 256] for a in range(256)])
    rows = rows.astype(np.uint8)
    ymax = np.full((len(rows), 1), mag)
    for i in range(len(rows)):
        ymax[i] *= 1 + i % 3
    vals = unpack(kind, rows, ymax)
    ctx.step(2)
    want = np.array([[decode(kind, c, m[0]) for c in row] for row, m in zip(rows, ymax)])
    same(ctx, vals, want, "%s: unpacked codes" % (kind,), 1e-12, 0.0)
    back, bmax = pack(kind, vals)
    exact(ctx, back, rows, "%s: codes after unpacking and packing" % (kind,))
    same(ctx, bmax, ymax, "%s: maxima after unpacking and packing" % (kind,), 1e-14, 0.0)
    for r in rows[:512]:
        ctx.state(kind, mag, r.tobytes())


def rows_(ctx):
    """all rows over the alphabet, together and alone"""
    kind = ctx.choose("packing", KINDS)
    mag = ctx.choose("maximum", MAGS)
    n = ctx.choose("row length", [1, 2, 3, 4])
    dtype = ctx.choose("type", [float, np.float32, int]) if n < 4 else float
    alph = fractions(kind, ctx.thorough)
    rows = [r for r in itertools.product(alph, repeat=n) if max(r) > 0]
    if dtype is int:
        vals = np.array([[int(round(1000 * v)) for v in r] for r in rows if max(r) > 0.001], int)
    else:
        vals = (mag * np.array(rows)).astype(dtype)
    keep = vals.copy()
    got, ymax = pack(kind, vals)
    ctx.step(2)
    exact(ctx, vals, keep, "%s: the packed array itself" % (kind,))
    ctx.check(got.dtype == np.uint8 and got.shape == vals.shape, "%s: codes are %s%s" % (kind, got.dtype, got.shape))
    exact(ctx, np.asarray(ymax).reshape(-1), vals.max(axis=1), "%s: row maxima" % (kind,))
    dec = unpack(kind, got, ymax)
    slack = 1e-6 if dtype is np.float32 else 1e-9
    lin = kind[0].startswith("linear")
    for r, (v, c, d) in enumerate(zip(vals, got, dec)):
        m = float(v.max())
        for a, b, e in zip(v, c, d):
            ctx.traced()
            a, e = float(a), float(e)
            if not fits(kind, a, int(b), m, slack):
                ctx.fail("%s: %r in a row with maximum %r is packed as %i" % (kind, a, m, b))
            if a == m and abs(e - m) > 1e-6 * m:
                ctx.fail("%s: the maximum %r is restored as %r" % (kind, m, e))
            if a <= 0 and e != 0:
                ctx.fail("%s: %r is restored as %r" % (kind, a, e))
            if lin and a >= 0 and abs(a - e) > m * (0.5 / 255 + 1e-6):
                ctx.fail("%s: %r is restored as %r, the step is %r" % (kind, a, e, m / 255))
        order = np.argsort(v, kind="stable")
        ctx.check(np.all(np.diff(c[order].astype(int)) >= 0), lambda v=v, c=c: "%s: the order is not kept: %s is packed as %s" % (kind, v.tolist(), c.tolist()))
        ctx.state(kind, mag, c.tobytes())
    # each row alone, in the middle of other rows, in the opposite order
    pick = range(len(vals)) if len(vals) < 3000 or ctx.thorough else range(0, len(vals), 7)
    for r in pick:
        alone, amax = pack(kind, vals[r : r + 1])
        ctx.check(np.array_equal(alone[0], got[r]) and amax[0, 0] == ymax[r, 0], lambda r=r, a=alone: "%s: row %s is packed as %s alone and %s with others" % (kind, vals[r].tolist(), a.tolist(), got[r].tolist()))
    rev, _ = pack(kind, vals[::-1])
    exact(ctx, rev[::-1], got, "%s: rows in opposite order" % (kind,))
    back = unpack(kind, got[::-1], ymax[::-1])
    exact(ctx, back[::-1], dec, "%s: unpacking rows in opposite order" % (kind,))
    # a power of two changes nothing
    if dtype is float:
        scaled, smax = pack(kind, vals * 2.0**-7)
        exact(ctx, scaled, got, "%s: codes of scaled rows" % (kind,))
        exact(ctx, smax, ymax * 2.0**-7, "%s: maxima of scaled rows" % (kind,))


def pairs(ctx):
    """a row with other rows of any magnitude"""
    kind = ctx.choose("packing", KINDS)
    a, b = ctx.choose("magnitudes", list(itertools.product(MAGS + [0.0], repeat=2)))
    base = [[0.0, 1.0, 0.5, 0.01], [1.0, 0.3, 0.002, 0.0], [0.2, 0.2, 0.2, 0.2]]
    for r1, r2 in itertools.product(base, repeat=2):
        v = np.array([[a * x for x in r1], [b * x for x in r2]])
        with np.errstate(all="ignore"):
            got, ymax = pack(kind, v)
            ctx.step()
            for i in range(2):
                m = v[i].max()
                if m == 0:
                    ctx.check(not np.any(unpack(kind, got, ymax)[i]), "%s: a row of zeros is restored as %s" % (kind, unpack(kind, got, ymax)[i]))
                    continue
                for x, c in zip(v[i], got[i]):
                    ctx.check(fits(kind, x, int(c), m), "%s: %r in the row %s next to the row %s is packed as %i" % (kind, x, v[i].tolist(), v[1 - i].tolist(), c))
                ctx.check(ymax[i, 0] == m, "%s: maximum of row %i is %r instead of %r" % (kind, i, ymax[i, 0], m))
        ctx.state(kind, got.tobytes())


def ensemble(ctx):
    """packed ensembles: pdf at the nodes are the decoded values over their integral"""
    kind = ctx.choose("packing", KINDS)
    mag = ctx.choose("maximum", MAGS[:4])
    as_int = ctx.flag("packing type as a number")
    c0 = ctx.choose("first codes", list(range(0, 256, 32)))
    grid = ctx.choose("grid", [[0.0, 1.0, 2.0], [0.0, 0.5, 2.0], [-3.0, -2.0, 100.0]])
    rows = np.array([[c, 255, (c * 11 + 5) % 256] for c in range(c0, c0 + 32)], np.uint8)
    ymax = np.array([mag * (1 + i % 4) for i in range(len(rows))])
    ptype = pu.PackingType[kind[0]]
    kw = {} if kind[1] is None else dict(log_floor=kind[1])
    ens = qp.Ensemble(qp.packed_interp, data=dict(xvals=np.array(grid), ypacked=rows, ymax=ymax[:, None], packing_type=ptype.value if as_int else ptype, **kw))
    got = np.asarray(ens.pdf(np.array(grid)))
    ctx.step(2)
    for i, row in enumerate(rows):
        y = [decode(kind, c, ymax[i]) for c in row]
        area = sum(0.5 * (q - p) * (u + v) for p, q, u, v in zip(grid, grid[1:], y, y[1:]))
        same(ctx, got[i], [v / area for v in y], "%s: pdf of codes %s" % (kind, row.tolist()), 1e-9, 1e-14 * max(y) / area)
        ctx.state(kind, row.tobytes())
    exact(ctx, ens.objdata()["ypacked"], rows, "stored codes")


def conversion(ctx):
    """grids packed by a conversion stay within one step, with the floor that was asked for"""
    kind = ctx.choose("packing", KINDS)
    npdf = ctx.choose("npdf", [1, 2, 3])
    how = ctx.choose("interface", ["function", "method"])
    spec = ctx.choose("rows", list(itertools.permutations([0, 1, 2], npdf)))
    grid = np.array([0.0, 0.5, 1.0, 2.0, 2.5])
    base = np.array([[0.0, 1.0, 0.25, 0.003, 0.0], [0.5, 0.02, 1.0, 0.9, 0.1], [1e-6, 0.05, 0.3, 1.0, 0.2]])
    ens = qp.Ensemble(qp.interp, data=dict(xvals=grid, yvals=base[list(spec)]))
    kw = {} if kind[1] is None else dict(log_floor=kind[1])
    ptype = pu.PackingType[kind[0]]
    if how == "function":
        out = qp.convert(ens, "packed_interp", xvals=grid, packing_type=ptype, **kw)
    else:
        out = ens.convert_to(qp.packed_interp_gen, xvals=grid, packing_type=ptype, **kw)
    ctx.step(2)
    got = np.asarray(out.pdf(grid))
    w = np.diff(grid)
    for i, s in enumerate(spec):
        y = base[s] / np.sum(0.5 * w * (base[s][1:] + base[s][:-1]))
        codes_ = out.objdata()["ypacked"][i]
        for a, c in zip(y, codes_):
            ctx.check(fits(kind, a, int(c), y.max()), "%s: %r in row %i is packed as %i" % (kind, a, i, c))
        d = [decode(kind, c, y.max()) for c in codes_]
        area = sum(0.5 * q * (u + v) for q, u, v in zip(w, d, d[1:]))
        same(ctx, got[i], np.array(d) / area, "%s: pdf of row %i after the conversion" % (kind, i), 1e-8, 1e-300)
        ctx.state(kind, codes_.tobytes())


HARNESSES = dict(codes=codes, rows=rows_, pairs=pairs, ensemble=ensemble, conversion=conversion)
BOUNDS = dict(
    quick="all 256 codes (alone, in rows of 2-4, next to every fifth code), all rows of 1-4 values over 10-14 fractions, 5 magnitudes, 2 packings, floors -0.25, -1, -2, -3, -4.5 and the default, 3 number types, all pairs of magnitudes",
    thorough="as quick with all pairs of codes and 14-18 fractions",
)
ASSUMPTIONS = ["values below the logarithmic floor are stored as zero, as documented"]
