"""Reference semantics of the representations: one object per PDF, one value at a time, plain Python.

Every method returns the list of acceptable answers, each an interval (lo, hi).  There is more than one where the
documentation leaves a choice (the value exactly on an edge between two bins).
"""

import bisect
import math

import numpy as np

NAN = float("nan")
INF = float("inf")
FLAT = 1e-12  # cdf values closer than this are the same: rounding decides


def one(v):
    return [(v, v)]


def accept(got, choices, rtol=1e-8, atol=1e-11):
    """Is the value one of the acceptable ones"""
    got = float(got)
    for lo, hi in choices:
        if math.isnan(lo):
            if math.isnan(got):
                return True
            continue
        if math.isnan(got):
            continue
        if math.isinf(lo) or math.isinf(hi):
            if got == lo or got == hi:
                return True
            continue
        if math.isinf(got):
            continue
        tol = atol + rtol * max(abs(lo), abs(hi))
        if lo - tol <= got <= hi + tol:
            return True
    return False


def lerp(xs, ys, x):
    """Linear interpolation inside [xs[0], xs[-1]]"""
    i = min(max(bisect.bisect_right(xs, x) - 1, 0), len(xs) - 2)
    if xs[i + 1] == xs[i]:
        return ys[i]
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] + t * (ys[i + 1] - ys[i])


def inverse(xs, cum, q):
    """All x with cdf(x) = q for a piecewise linear cdf, 0 < q < 1"""
    lo = hi = None
    for i in range(len(xs) - 1):
        a, b = cum[i], cum[i + 1]
        if a - FLAT <= q <= b + FLAT:
            if b - a > 2 * FLAT:
                l = h = xs[i] + min(max((q - a) / (b - a), 0.0), 1.0) * (xs[i + 1] - xs[i])
            else:
                l, h = xs[i], xs[i + 1]
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
    if lo is None:
        # rounding at the upper end
        return [(xs[-1], xs[-1])] if q > cum[-1] else [(xs[0], xs[0])]
    return [(lo, hi)]


class Row:
    """One PDF. Subclasses set lo, hi (the support) and implement _pdf, _cdf, _ppf for points strictly allowed"""

    ends = None  # values of ppf(0) and ppf(1)
    exact_ppf = True

    def pdf(self, x):
        x = float(x)
        if math.isnan(x):
            return one(NAN)
        return self._pdf(x)

    def cdf(self, x):
        x = float(x)
        if math.isnan(x):
            return one(NAN)
        if x == INF:
            return one(1.0)
        if x == -INF:
            return one(0.0)
        return self._cdf(x)

    def ppf(self, q):
        q = float(q)
        if math.isnan(q) or q < 0 or q > 1:
            return one(NAN)
        if q == 0:
            return one(self.ends[0])
        if q == 1:
            return one(self.ends[1])
        return self._ppf(q)

    def finding(self, kind, x):
        """(id, acceptable values) if a known finding concerns this value"""
        return None


class HistRow(Row):
    def __init__(self, bins, pdfs, normalise=True):
        self.bins = [float(b) for b in bins]
        w = [b - a for a, b in zip(self.bins, self.bins[1:])]
        p = [float(v) for v in pdfs]
        s = math.fsum(a * b for a, b in zip(p, w)) if normalise else 1.0
        self.p = [v / s for v in p]
        self.w = w
        self.cum = [0.0]
        for v, d in zip(self.p, w):
            self.cum.append(self.cum[-1] + v * d)
        self.lo, self.hi = self.bins[0], self.bins[-1]
        self.ends = (self.lo, self.hi)

    def _pdf(self, x):
        b = self.bins
        if x < b[0] or x > b[-1]:
            return one(0.0)
        out = []
        # within rounding of an edge either side is fine
        eps = 1e-12 * (b[-1] - b[0])
        for i in range(len(self.p)):
            if b[i] - eps <= x <= b[i + 1] + eps:
                out.append((self.p[i], self.p[i]))
        if x <= b[0] + eps or x >= b[-1] - eps:
            out.append((0.0, 0.0))
        return out

    def _cdf(self, x):
        if x <= self.lo:
            return one(0.0)
        if x >= self.hi:
            return one(1.0)
        return one(lerp(self.bins, self.cum, x))

    def _ppf(self, q):
        return inverse(self.bins, self.cum, q)

    def moment(self, m):
        return math.fsum((0.5 * (a + b)) ** m * p * w for a, b, p, w in zip(self.bins, self.bins[1:], self.p, self.w))


class InterpRow(Row):
    """first: does the cdf show the listed finding (it starts at half of the first trapezoid's left part)"""

    def __init__(self, xs, ys, first=False, ends=None, normalise=True):
        self.xs = [float(v) for v in xs]
        ys = [float(v) for v in ys]
        d = [b - a for a, b in zip(self.xs, self.xs[1:])]
        area = math.fsum(0.5 * w * (a + b) for w, a, b in zip(d, ys, ys[1:])) if normalise else 1.0
        self.ys = [v / area for v in ys]
        self.cum = [0.0]
        for w, a, b in zip(d, self.ys, self.ys[1:]):
            self.cum.append(self.cum[-1] + 0.5 * w * (a + b))
        self.lo, self.hi = self.xs[0], self.xs[-1]
        self.ends = ends or (self.lo, self.hi)
        self.first = first
        self.alt = [0.5 * self.ys[0] * d[0]] + self.cum[1:]

    def _pdf(self, x):
        if x < self.lo or x > self.hi:
            return one(0.0)
        return one(lerp(self.xs, self.ys, x))

    def _cdf(self, x):
        if x <= self.lo:
            return one(0.0)
        if x >= self.hi:
            return one(1.0)
        return one(lerp(self.xs, self.cum, x))

    def _ppf(self, q):
        return inverse(self.xs, self.cum, q)

    def finding(self, kind, x):
        if not self.first or self.ys[0] == 0:
            return None
        if kind == "cdf" and self.lo < x < self.xs[1]:
            return "first-interval", one(lerp(self.xs, self.alt, x))
        if kind == "ppf" and 0 < x <= self.cum[1] + 1e-7:
            if abs(x - self.alt[0]) < 1e-7 and abs(self.cum[1] - self.alt[0]) < 1e-7:
                return "first-interval", one(NAN) + [(self.lo, self.xs[1])]
            if x <= self.alt[0]:
                return "first-interval", one(self.lo)
            return "first-interval", inverse(self.xs, self.alt, x)
        return None

    def moment(self, m):
        f = [x**m * y for x, y in zip(self.xs, self.ys)]
        return math.fsum(0.5 * (b - a) * (u + v) for a, b, u, v in zip(self.xs, self.xs[1:], f, f[1:]))


class MixRow(Row):
    exact_ppf = False

    def __init__(self, means, stds, weights):
        s = math.fsum(float(w) for w in weights)
        self.parts = [(float(m), float(d), float(w) / s) for m, d, w in zip(means, stds, weights)]
        self.lo = min(m - 6 * d for m, d, _ in self.parts)
        self.hi = max(m + 6 * d for m, d, _ in self.parts)
        self.ends = (-INF, INF)
        self.cell = (self.hi - self.lo) / 200

    def _pdf(self, x):
        if math.isinf(x):
            return one(0.0)
        return one(math.fsum(w * math.exp(-0.5 * ((x - m) / d) ** 2) / (d * math.sqrt(2 * math.pi)) for m, d, w in self.parts))

    def c(self, x):
        return math.fsum(w * 0.5 * math.erfc(-(x - m) / (d * math.sqrt(2))) for m, d, w in self.parts)

    def _cdf(self, x):
        return one(self.c(x))

    def _ppf(self, q):
        # the documented algorithm inverts a tabulated cdf: exact up to one cell of the table
        lo, hi = self.lo, self.hi
        if q <= self.c(lo):
            return [(lo, lo + self.cell)]
        if q >= self.c(hi):
            return [(hi - self.cell, hi)]
        a, b = lo, hi
        for _ in range(200):
            mid = 0.5 * (a + b)
            if self.c(mid) < q:
                a = mid
            else:
                b = mid
        return [(a - 1.01 * self.cell, a + 1.01 * self.cell)]


class QuantRow(Row):
    """The quantiles and locations after padding"""

    def __init__(self, quants, locs, kind, ends=None, pad=True):
        q = [float(v) for v in quants]
        l = [float(v) for v in locs]
        if pad:
            q0, l0 = list(q), list(l)
            if q0[0] > 2.3e-16:
                l.insert(0, l0[0] - q0[0] * (l0[1] - l0[0]) / (q0[1] - q0[0]))
                q.insert(0, 0.0)
            if q0[-1] < 1:
                l.append(l0[-1] + (1 - q0[-1]) * (l0[-1] - l0[-2]) / (q0[-1] - q0[-2]))
                q.append(1.0)
        self.q, self.l, self.kind = q, l, kind
        self.lo, self.hi = l[0], l[-1]
        self.ends = (-INF, INF)
        self.d = [(b - a) / (v - u) for a, b, u, v in zip(q, q[1:], l, l[1:])]
        self.m = [0.5 * (u + v) for u, v in zip(l, l[1:])]
        if kind == "cdf_spline_derivative":
            from scipy.interpolate import make_interp_spline

            self.f = make_interp_spline(l, q, k=3).derivative()
        if kind == "dual_spline_average":
            from scipy.interpolate import make_interp_spline

            p = [0.0]
            for v in self.d:
                p.append(max(0.0, 2 * v - p[-1]))
            self.p = p
            self.f = [(l[s::2][0], l[s::2][-1], make_interp_spline(l[s::2], p[s::2], k=3)) for s in (0, 1)]

    def _pdf(self, x):
        if math.isinf(x):
            return one(0.0)
        if self.kind == "piecewise_linear":
            if x < self.m[0] or x > self.m[-1]:
                return one(0.0)
            return one(lerp(self.m, self.d, x))
        if self.kind == "piecewise_constant":
            if x < self.m[0] or x > self.m[-1]:
                return one(0.0)
            out = []
            for i in range(len(self.m) - 1):
                if self.m[i] <= x <= self.m[i + 1]:
                    v = self.d[i] + (x - self.m[i]) * (self.d[i + 1] - self.d[i])
                    out.append((v, v))
            if x in (self.m[0], self.m[-1]):
                out.append((0.0, 0.0))
                out.append((self.d[-1], self.d[-1]))
            return out
        if self.kind == "cdf_spline_derivative":
            if x < self.lo or x > self.hi:
                return one(0.0)
            v = float(self.f(x))
            return [(v, v), (0.0, 0.0)] if x in (self.lo, self.hi) else one(v)
        tot = 0.0
        for lo, hi, f in self.f:
            if lo <= x <= hi:
                tot += float(f(x))
        return one(tot / 2)

    def _cdf(self, x):
        if x <= self.lo:
            return one(0.0)
        if x >= self.hi:
            return one(1.0)
        for u, a in zip(self.l, self.q):
            if u == x:
                return one(a)
        return [(-INF, -INF), (-1e300, 1e300)]  # between the nodes: any number

    def _ppf(self, q):
        for u, a in zip(self.l, self.q):
            if a == q:
                return one(u)
        return [(-1e300, 1e300)]


class SplineRow(Row):
    exact_ppf = False

    def __init__(self, t, c, k):
        from scipy.interpolate import BSpline

        n = len(t) - int(k) - 1
        self.f = BSpline(np.array(t, float), np.array(c[:n], float), int(k))
        self.lo, self.hi = float(t[0]), float(t[-1])
        self.ends = (-INF, INF)

    def _pdf(self, x):
        if self.lo <= x <= self.hi:
            return one(float(self.f(x)))
        return [(-INF, -INF), (INF, INF), (NAN, NAN), (-1e300, 1e300)]

    def _cdf(self, x):
        if x <= self.lo:
            return one(0.0)
        return one(float(self.f.integrate(self.lo, min(x, self.hi))))

    def c(self, x):
        return self._cdf(x)[0][0]

    def _ppf(self, q):
        a, b = self.lo, self.hi
        for _ in range(200):
            mid = 0.5 * (a + b)
            if self.c(mid) < q:
                a = mid
            else:
                b = mid
        return [(a - 1e-6, a + 1e-6)]


class ScipyRow(Row):
    def __init__(self, dist, kwds):
        self.d = dist(**kwds)
        self.ends = (float(self.d.ppf(0.0)), float(self.d.ppf(1.0)))
        self.lo, self.hi = self.d.support()

    def _pdf(self, x):
        return one(float(self.d.pdf(x)))

    def _cdf(self, x):
        return one(float(self.d.cdf(x)))

    def _ppf(self, q):
        return one(float(self.d.ppf(q)))

    def moment(self, m):
        return float(self.d.moment(m))
