"""Shared oracle helpers: plain Python over lists, valid symbolically and concretely."""

import math

import numpy as np

from symx import core
from symx.core import is_sym, ite, sand, snot, sor, symmax, symmin, symsqrt  # noqa: F401
from symx.run import assumptions, harness  # noqa: F401


def osum(v):
    s = 0.0
    for x in v:
        s = s + x
    return s


def omean(v):
    return osum(v) / len(v)


def ovar(v):
    m = omean(v)
    return osum([(x - m) * (x - m) for x in v]) / len(v)


def osqrt(x):
    return x.sqrt() if is_sym(x) else math.sqrt(x)


def ostd(v):
    return osqrt(ovar(v))


def omax(v):
    r = v[0]
    for x in v[1:]:
        r = symmax(r, x)
    return r


def omin(v):
    r = v[0]
    for x in v[1:]:
        r = symmin(r, x)
    return r


def oabs(x):
    return abs(x)


def osorted(v):
    """Insertion sort (forks when symbolic)."""
    out = []
    for x in v:
        j = len(out)
        while j > 0 and bool(x < out[j - 1]):
            j -= 1
        out.insert(j, x)
    return out


def osort_idx(v):
    out = []
    for i, x in enumerate(v):
        j = len(out)
        while j > 0 and bool(x < v[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


def omedian(v):
    s = osorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def opercentile(v, q):
    from fractions import Fraction

    s = osorted(v)
    pos = Fraction(repr(float(q))) * (len(s) - 1) / 100
    k = int(pos)
    if k + 1 >= len(s):
        return s[-1]
    fr = pos - k
    return s[k] + (s[k + 1] - s[k]) * (fr if is_sym(s[k]) or is_sym(s[k + 1]) else float(fr))


def ocount(v, pred):
    """Number of elements satisfying pred (no fork: sum of indicator terms)."""
    n = 0
    for x in v:
        n = n + ite(pred(x), 1, 0)
    return n


def ounique(v):
    """Distinct values in increasing order (forks)."""
    out = []
    for x in osorted(v):
        if not out or bool(x != out[-1]):
            out.append(x)
    return out


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def ten(x):
    """10**x"""
    return core.sympow(10.0, x) if is_sym(x) else 10.0 ** x


def log10(x):
    return x.log10() if is_sym(x) else (math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan))


def ouf(name, x):
    """A transcendental function (sin, cos, exp, ...)."""
    if is_sym(x):
        return getattr(x, name)()
    return getattr(math, {"arcsin": "asin", "arccos": "acos", "arctan": "atan"}.get(name, name))(x)


def atan2(y, x):
    return core.symatan2(y, x) if is_sym(y) or is_sym(x) else math.atan2(y, x)


def hidden(mv, i):
    """Whether entry i of a masked array (or of one without a mask) is masked."""
    m = getattr(mv, "mask", False)
    return bool(m[i]) if np.ndim(m) or (hasattr(m, "__len__") and len(m)) else bool(m)


def floor(x):
    return math.floor(x)
