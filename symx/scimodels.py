"""Models of the scipy functions the code under test calls."""

import numpy as np

from . import core, symnp
from .core import Unsupported, is_sym
from .symnp import active, flat, has_sym, obj1d, sym_or, wrap

_DONE = []


class Interp1d:
    """scipy.interpolate.interp1d, kind='linear'."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        self.xv, self.yv = flat(x), flat(y)
        if kind != "linear" or np.ndim(y) != 1:
            raise Unsupported("interp1d kind %s" % kind)
        if not assume_sorted:
            o = symnp.sort_idx(self.xv)
            self.xv = [self.xv[i] for i in o]
            self.yv = [self.yv[i] for i in o]
        self.extrap = isinstance(fill_value, str) and fill_value == "extrapolate"
        if bounds_error is None:
            bounds_error = not self.extrap and not (isinstance(fill_value, tuple) or fill_value == fill_value)
        self.bounds_error = bounds_error and not self.extrap
        self.fill = fill_value

    def __call__(self, x):
        xs = sym_or(x)
        res = np.empty(xs.shape, dtype=object)
        n = len(self.xv)
        for i in np.ndindex(xs.shape):
            v = symnp.base(xs)[i]
            if core._isnan(v):
                res[i] = symnp.NAN
                continue
            lo = bool(v < self.xv[0])
            hi = (not lo) and bool(v > self.xv[-1])
            if (lo or hi) and not self.extrap:
                if self.bounds_error:
                    raise ValueError("A value in x_new is outside the interpolation range.")
                f = self.fill
                if isinstance(f, tuple):
                    f = f[0] if lo else f[1]
                res[i] = f if is_sym(f) else np.float64(f)
                continue
            j = 0
            while j < n - 2 and bool(v > self.xv[j + 1]):
                j += 1
            ap = symnp.apply1
            sl = ap(np.true_divide, ap(np.subtract, self.yv[j + 1], self.yv[j]), ap(np.subtract, self.xv[j + 1], self.xv[j]))
            res[i] = ap(np.add, ap(np.multiply, sl, ap(np.subtract, v, self.xv[j])), self.yv[j])
        return symnp.finish(res, "") if xs.ndim else _zero_d(res.item())


def _zero_d(v):
    return symnp.wrap1(v) if is_sym(v) else np.array(v)


class Interp1dSwitch:
    def __new__(cls, x, y, *a, **k):
        import scipy.interpolate as si

        if active() and (has_sym(x) or has_sym(y)):
            return Interp1d(x, y, *a, **k)
        r = si.interp1d(x, y, *a, **k)
        if active():
            return _Lazy(r, Interp1d, (x, y) + a, k)
        return r


class _Lazy:
    def __init__(self, real, model, a, k):
        self.real, self.model, self.a, self.k = real, model, a, k

    def __call__(self, x):
        if has_sym(x):
            return self.model(*self.a, **self.k)(x)
        return self.real(x)


def binned_statistic(x, values, statistic="mean", bins=10, range=None):
    import scipy.stats as st

    if not (has_sym(x) or has_sym(values) or has_sym(bins)):
        return st.binned_statistic(x, values, statistic=statistic, bins=bins, range=range)
    xv, vv = flat(x), flat(values)
    if np.ndim(bins) == 0:
        raise Unsupported("binned_statistic with a bin count")
    e = flat(bins)
    nb = len(e) - 1
    groups = [[] for _ in builtins_range(nb)]
    num = []
    for xx, v in zip(xv, vv):
        k = symnp.m_searchsorted(obj1d(e), xx, "right")
        if bool(xx == e[-1]):
            k = nb
        num.append(int(k))
        if 1 <= k <= nb:
            groups[int(k) - 1].append(v)
    fn = {"mean": symnp.smean, "sum": symnp.ssum, "count": len, "std": symnp.sstd, "median": symnp.smedian,
          "max": lambda v: symnp._smax(v) if v else symnp.NAN, "min": lambda v: symnp._smin(v) if v else symnp.NAN}
    f = fn.get(statistic) if isinstance(statistic, str) else (lambda v: statistic(obj1d(v)) if v else symnp.NAN)
    if f is None:
        raise Unsupported("statistic %s" % statistic)
    r = obj1d([f(g) for g in groups], "f")
    from scipy.stats._binned_statistic import BinnedStatisticResult

    return BinnedStatisticResult(r, obj1d(e, "f"), np.array(num))


builtins_range = range


def binned_switch(*a, **k):
    import scipy.stats as st

    if active():
        return binned_statistic(*a, **k)
    return st.binned_statistic(*a, **k)


def trapezoid(y, x=None, dx=1.0, axis=-1):
    import scipy.integrate as si

    if active() and (has_sym(y) or has_sym(x)):
        return symnp.m_trapezoid(y, x, dx)
    return si.trapezoid(y, x=x, dx=dx, axis=axis)


class KDTree:
    """scipy.spatial.cKDTree: exact search over all points (Euclidean)."""

    def __init__(self, data, leafsize=16, **kw):
        self.pts = [[v for v in flat(p)] for p in data]
        self.n = len(self.pts)

    def _d2(self, p, q):
        ap = symnp.apply1
        t = 0.0
        for a, b in zip(p, q):
            d = ap(np.subtract, a, b)
            t = ap(np.add, t, ap(np.multiply, d, d))
        return t

    def query_ball_point(self, x, r, *a, **k):
        q = [v for v in flat(x)]
        if len(q) != 3 or is_sym(r):
            raise Unsupported("query_ball_point of several points")
        return [i for i, p in enumerate(self.pts) if r >= 0 and bool(self._d2(p, q) <= r * r)]


class KDSwitch:
    def __new__(cls, data, *a, **k):
        import scipy.spatial as ss

        if active() and has_sym(data):
            return KDTree(data, *a, **k)
        return ss.cKDTree(data, *a, **k)


def install(register):
    if _DONE:
        return
    _DONE.append(1)
    import scipy.integrate
    import scipy.interpolate
    import scipy.spatial
    import scipy.stats

    from .run import ModProxy

    register(scipy.spatial.cKDTree, KDSwitch)
    register(scipy.interpolate.interp1d, Interp1dSwitch)
    register(scipy.interpolate, ModProxy(scipy.interpolate, {"interp1d": Interp1dSwitch}))
    register(scipy.stats.binned_statistic, binned_switch)
    register(scipy.stats, ModProxy(scipy.stats, {"binned_statistic": binned_switch}))
    register(scipy.integrate.trapezoid, trapezoid)
    register(scipy.integrate, ModProxy(scipy.integrate, {"trapezoid": trapezoid}))
