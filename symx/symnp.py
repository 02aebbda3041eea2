"""numpy over symbolic numbers: an object-dtype ndarray subclass plus models of
the numpy functions whose C code cannot run on Python objects."""

import builtins
import functools
import math
import types

import numpy as np
import numpy.ma as ma

from . import core
from .core import (SymBool, SymNum, Unsupported, _isintlike, _isnan, is_sym, ite, symmax, symmin, symmod,
                   floordiv, symatan2, sympow, symsqrt, symlog10, symuf)

NAN = np.float64("nan")


def active():
    return core.ENGINE is not None and getattr(core.ENGINE, "sym_active", False)


# ---- casting ---------------------------------------------------------------
def dkind(dt):
    """'f','i','b','O','U','V' for a dtype-like; None when unspecified."""
    if dt is None:
        return None
    if dt is symfloat:
        return "f"
    if dt is symint:
        return "i"
    d = np.dtype(dt)
    k = d.kind
    if k == "u":
        return "i"
    return k


def cast_scalar(x, dt):
    k = dkind(dt)
    if k == "f":
        if isinstance(x, SymNum):
            return x.toreal()
        if isinstance(x, SymBool):
            return x.num().toreal()
        return np.float64(x)
    if k == "i":
        if isinstance(x, SymNum):
            return x.trunc_int()
        if isinstance(x, SymBool):
            return x.num()
        return int(x)
    if k == "b":
        return bool(x)
    if k in ("U", "S"):
        raise Unsupported("symbolic to string")
    return x


class IdxArray(np.ndarray):
    """Concrete integers (positions) that can be indexed by an array of symbolic-capable integers."""
    __module__ = "numpy"

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, conc_index(idx))

    def __setitem__(self, idx, val):
        np.ndarray.__setitem__(self, conc_index(idx), val)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return arr if arr.dtype.kind not in "iu" else arr.view(IdxArray)


def positions(a):
    if isinstance(a, tuple):
        return tuple(positions(x) for x in a)
    return a.view(IdxArray) if type(a) is np.ndarray and a.dtype.kind == "i" and a.ndim else a


# ---- the array class -------------------------------------------------------
class SymArray(np.ndarray):
    __module__ = "numpy"
    _kind = "f"

    def __array_finalize__(self, obj):
        self._kind = getattr(obj, "_kind", "f")

    # indexing
    def __getitem__(self, idx):
        idx = conc_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        idx = conc_index(idx)
        if isinstance(val, np.ndarray) and val.dtype.names is not None and len(val.dtype.names) == 1 \
                and (self.dtype == object or (isinstance(idx, str) and self.dtype.names and self.dtype[idx].names is None)):
            val = val[val.dtype.names[0]]  # numpy assigns a record of one field to a plain one
        if self.dtype == object and self._kind == "i":
            if isinstance(val, SymNum) and not val.isint:
                val = val.trunc_int()
            elif isinstance(val, (float, np.floating)):
                if val != val or val in (math.inf, -math.inf):
                    raise ValueError("cannot convert float NaN to integer")
                val = int(val)
            elif isinstance(val, np.ndarray) and val.dtype.kind in "fO":
                val = sym_array(val, kind="i")
        elif self.dtype == object and self._kind == "f":
            if isinstance(val, (bool, np.bool_, int, np.integer)):
                val = np.float64(val)
            elif isinstance(val, SymNum) and val.isint:
                val = val.toreal()
            elif isinstance(val, SymBool):
                val = val.num().toreal()
            elif isinstance(val, np.ndarray) and val.dtype != object and val.dtype.names is None:
                val = sym_array(val, kind="f")
        np.ndarray.__setitem__(self, idx, val)

    def __mul__(self, o):
        if type(o).__module__.startswith("astropy") and self.dtype == object and not has_sym(base(self)):
            return np.array(base(self), dtype=float) * o
        return np.ndarray.__mul__(self, o)

    # methods that C code would run on raw objects
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        if self.dtype.names is not None or self.dtype != object:
            r = np.ndarray.astype(self, symdtype(dtype) if np.dtype(dtype).names else dtype)
            return r
        k = dkind(dtype)
        if k in ("f", "i"):
            return sym_array(self, kind=k)
        if k == "b":
            out = np.empty(self.shape, bool)
            for i in np.ndindex(self.shape):
                out[i] = bool(np.ndarray.__getitem__(self, i))
            return out
        if k == "O":
            return self.copy()
        if k in ("U", "S"):
            return np.array([str(x) for x in self.ravel()]).reshape(self.shape)
        return np.ndarray.astype(self, dtype)

    def sort(self, axis=-1, kind=None, order=None, **kw):
        r = m_sort(self, axis=axis, order=order)
        np.ndarray.__setitem__(self, Ellipsis, r)

    def argsort(self, axis=-1, kind=None, order=None, **kw):
        return m_argsort(self, axis=axis, order=order)

    def searchsorted(self, v, side="left", sorter=None):
        return m_searchsorted(self, v, side, sorter)

    def clip(self, a_min=None, a_max=None, out=None, **kw):
        a_min = kw.get("min", a_min)
        a_max = kw.get("max", a_max)
        return m_clip(self, a_min, a_max)

    def argmax(self, axis=None, out=None, **kw):
        return m_argmax(self, axis)

    def argmin(self, axis=None, out=None, **kw):
        return m_argmin(self, axis)

    def round(self, decimals=0, out=None):
        return m_round(self, decimals)

    def any(self, axis=None, out=None, **kw):
        if axis is None:
            return np.bool_(any(bool(x) for x in self.ravel()))
        return self.astype(bool).any(axis=axis, **kw)

    def all(self, axis=None, out=None, **kw):
        if axis is None:
            return np.bool_(all(bool(x) for x in self.ravel()))
        return self.astype(bool).all(axis=axis, **kw)

    def nonzero(self):
        return np.nonzero(self.astype(bool))

    def mean(self, axis=None, dtype=None, out=None, **kw):
        return m_mean(self, axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **kw):
        return m_std(self, axis, ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **kw):
        return m_var(self, axis, ddof)

    def tolist(self):
        return np.ndarray.tolist(self)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def dot(self, o):
        return wrap(np.dot(base(self), base(o)))

    def __contains__(self, x):
        return any(bool(y == x) for y in self.ravel())

    # ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return array_function(func, types_, args, kwargs)


def base(x):
    return x.view(np.ndarray) if isinstance(x, SymArray) else x


def wrap(x, kind=None):
    """Object ndarrays become SymArrays; results of C code are re-wrapped."""
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    if isinstance(x, ma.MaskedArray):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray):
        if x.dtype == object:
            if x.ndim == 0:
                return x.item()
            if not any_numeric(x):
                return x
            r = x.view(SymArray)
            r._kind = kind or guess_kind(x)
            return r
        if x.dtype.names is not None and any(x.dtype[n] == object for n in x.dtype.names):
            return x.view(SymArray)
    return x


def any_numeric(x):
    if x.size == 0:
        return True
    for v in x.ravel():
        if not (is_sym(v) or isinstance(v, (int, float, np.number, np.bool_))):
            return False
    return True


def guess_kind(x):
    allint = x.size > 0
    for v in x.ravel():
        if isinstance(v, (bool, np.bool_, SymBool)):
            continue
        if not _isintlike(v):
            allint = False
            break
    return "i" if allint else "f"


def sym_array(x, kind=None):
    """SymArray (object dtype) from anything array-like of numbers."""
    if isinstance(x, np.ndarray):
        src = base(x)
        if isinstance(x, ma.MaskedArray):
            src = np.asarray(x.data)
        if src.dtype != object:
            k = kind or ("i" if src.dtype.kind in "iu" else "f")
        else:
            k = kind or guess_kind(src)
    else:
        src = np.array(x, dtype=object)
        k = kind or guess_kind(src)
    out = np.empty(src.shape, dtype=object)
    for i in np.ndindex(src.shape):
        v = src[i]
        if k == "f":
            if isinstance(v, SymNum):
                v = v.toreal()
            elif isinstance(v, SymBool):
                v = v.num().toreal()
            elif v is None:
                v = NAN
            else:
                v = np.float64(v)
        else:
            if isinstance(v, SymNum):
                v = v.trunc_int()
            elif isinstance(v, SymBool):
                v = v.num()
            else:
                v = int(v)
        out[i] = v
    r = out.view(SymArray)
    r._kind = k
    return r


def symdtype(dt):
    """Structured dtype with numeric fields replaced by object fields."""
    d = np.dtype(dt)
    if d.names is None:
        return np.dtype(object) if d.kind in "fiu" else d
    out = []
    for n in d.names:
        fd = d[n]
        if fd.kind in "fiu":
            out.append((n, object))
        elif fd.subdtype is not None:
            out.append((n, object, fd.subdtype[1]))
        else:
            out.append((n, fd))
    return np.dtype(out)


def conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(conc_index(i) for i in idx)
    if isinstance(idx, SymNum):
        if not idx.isint:
            raise IndexError("only integers are valid indices")
        return core.ENGINE.concretize_int(idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, slice):
        return slice(*(conc_index(i) if is_sym(i) else i for i in (idx.start, idx.stop, idx.step)))
    if isinstance(idx, list) and any(is_sym(i) for i in idx):
        idx = sym_array(idx)
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        vals = [v for v in base(idx).ravel()]
        if vals and all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
            return np.array([bool(v) for v in vals]).reshape(idx.shape)
        out = []
        for v in vals:
            if isinstance(v, SymNum):
                if not v.isint:
                    raise IndexError("arrays used as indices must be of integer type")
                out.append(core.ENGINE.concretize_int(v))
            elif isinstance(v, (int, np.integer)):
                out.append(int(v))
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return np.array(out, dtype=int).reshape(idx.shape)
    return idx


# ---- ufuncs ----------------------------------------------------------------
def _cmp(op):
    def f(a, b):
        import operator

        return bool(getattr(operator, op)(a, b))

    return f


def _arctan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return np.arctan2(y, x)
    return symatan2(y, x)


def _hypot(a, b):
    return symsqrt(a * a + b * b)


def _unary(name):
    def f(x):
        if isinstance(x, SymBool):
            x = x.num()
        m = getattr(x, name, None)
        if m is None:
            raise Unsupported(name)
        return m()

    return f


def _lt_nan(fn):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return fn(a, b)
        return fn(a, b)

    return f


def _fmax(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return symmax(a, b)


def _fmin(a, b):
    if _isnan(a):
        return b
    if _isnan(b):
        return a
    return symmin(a, b)


def _fmod(a, b):
    q = a / b
    if isinstance(q, SymNum):
        return a - b * q.trunc()
    return np.fmod(a, b)


SCALAR = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b,
    "true_divide": lambda a, b: a / b,
    "floor_divide": floordiv,
    "remainder": symmod,
    "mod": symmod,
    "fmod": _fmod,
    "divmod": lambda a, b: (floordiv(a, b), symmod(a, b)),
    "power": sympow,
    "float_power": sympow,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "sqrt": symsqrt,
    "square": lambda a: a * a,
    "reciprocal": lambda a: 1.0 / a,
    "log10": symlog10,
    "log": lambda a: symuf("log", a),
    "log2": lambda a: symlog10(a) * (1 / math.log10(2)),
    "exp": lambda a: symuf("exp", a),
    "sin": lambda a: symuf("sin", a),
    "cos": lambda a: symuf("cos", a),
    "tan": lambda a: symuf("tan", a),
    "arcsin": lambda a: symuf("arcsin", a),
    "arccos": lambda a: symuf("arccos", a),
    "arctan": lambda a: symuf("arctan", a),
    "arctan2": _arctan2,
    "hypot": _hypot,
    "radians": _unary("radians"),
    "deg2rad": _unary("radians"),
    "degrees": _unary("degrees"),
    "rad2deg": _unary("degrees"),
    "floor": _unary("floor"),
    "ceil": _unary("ceil"),
    "rint": _unary("rint"),
    "trunc": _unary("trunc"),
    "sign": _unary("sign"),
    "conjugate": lambda a: a,
    "isnan": lambda a: False,
    "isfinite": lambda a: True,
    "isinf": lambda a: False,
    "maximum": symmax,
    "minimum": symmin,
    "fmax": _fmax,
    "fmin": _fmin,
    "less": _cmp("lt"),
    "less_equal": _cmp("le"),
    "greater": _cmp("gt"),
    "greater_equal": _cmp("ge"),
    "equal": _cmp("eq"),
    "not_equal": _cmp("ne"),
    "logical_and": lambda a, b: bool(a) and bool(b),
    "logical_or": lambda a, b: bool(a) or bool(b),
    "logical_xor": lambda a, b: bool(a) != bool(b),
    "logical_not": lambda a: not bool(a),
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "invert": lambda a: ~a if isinstance(a, SymBool) else (not a if isinstance(a, (bool, np.bool_)) else ~a),
}
BOOLRES = {"isnan", "isfinite", "isinf", "less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
           "logical_and", "logical_or", "logical_xor", "logical_not"}


def apply1(ufunc, *vals):
    """One scalar application, numpy semantics for concrete operands."""
    if not any(is_sym(v) for v in vals):
        with np.errstate(all="ignore"):
            vs = []
            for v in vals:
                if isinstance(v, core.Fraction):
                    v = np.float64(v)
                vs.append(v)
            return ufunc(*vs)
    fn = SCALAR.get(ufunc.__name__)
    if fn is None:
        raise Unsupported("ufunc " + ufunc.__name__)
    # Python numbers defer to the symbolic operand; numpy scalars would recurse
    vals = [float(v) if isinstance(v, np.floating) else (int(v) if isinstance(v, np.integer) else v) for v in vals]
    r = fn(*vals)
    if r is NotImplemented:
        raise TypeError("unsupported operands for %s" % ufunc.__name__)
    return r


def to_obj(x):
    """ndarray (any dtype) of an operand, symbolic scalars as 0-d object."""
    if isinstance(x, np.ndarray):
        return base(x)
    if is_sym(x) or isinstance(x, core.Fraction):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
        return base(sym_array(x))
    return np.asarray(x)


def finish(out, name):
    """Turn an object array of results into the right container."""
    if out.dtype == object:
        flat = out.ravel()
        if name in BOOLRES or (flat.size and all(isinstance(v, (bool, np.bool_)) for v in flat)):
            r = np.empty(out.shape, bool)
            rf = r.reshape(-1)
            for i, v in enumerate(flat):
                rf[i] = bool(v)
            return r if r.ndim else r[()]
        if out.ndim == 0:
            return out.item()
        if not any_numeric(out):
            return out
        r = out.view(SymArray)
        r._kind = guess_kind(out) if out.size else "f"
        return r
    return out


def do_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    dtype = kw.pop("dtype", None)
    if any(isinstance(x, ma.MaskedArray) for x in inputs):
        return NotImplemented
    if any(hasattr(x, "unit") and hasattr(x, "value") for x in inputs):
        raise Unsupported("astropy quantity")
    if method == "__call__":
        if name == "matmul":
            r = wrap(np.dot(base(inputs[0]), base(inputs[1])))
            return r
        arrs = [to_obj(x) for x in inputs]
        if any(a.dtype.kind in "US" for a in arrs):
            arrs = [base(a) for a in arrs]
            return ufunc(*[a.astype(str) if a.dtype == object else a for a in arrs])
        b = np.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
        shape = b.shape
        nout = ufunc.nout
        arrs_b = [np.broadcast_to(a, shape) for a in arrs]
        res = [np.empty(shape, dtype=object) for _ in range(nout)]
        wh = None if where is True else np.broadcast_to(np.asarray(where, dtype=bool), shape)
        for i in np.ndindex(shape):
            if wh is not None and not wh[i]:
                if out is not None:
                    res[0][i] = base(out[0])[i]
                continue
            v = apply1(ufunc, *[a[i] for a in arrs_b])
            if nout == 1:
                res[0][i] = v
            else:
                for j in range(nout):
                    res[j][i] = v[j]
        if nout == 1:
            r = finish(res[0], name)
            if out is not None and out[0] is not None:
                o = out[0]
                if isinstance(o, SymArray) or o.dtype == bool or o.dtype == object:
                    o[...] = r
                    return o
                if isinstance(r, SymArray) and any(is_sym(v) for v in base(r).ravel()):
                    raise Unsupported("out= into a concrete array")
                o[...] = r
                return o
            if dtype is not None and isinstance(r, SymArray):
                r = r.astype(dtype)
            return r
        return tuple(finish(x, name) for x in res)
    if method in ("reduce", "accumulate"):
        (arr,) = inputs
        if isinstance(arr, SymArray) and arr.dtype.names is not None:
            raise TypeError("cannot reduce a structured array")
        a = to_obj(arr)
        axis = kw.get("axis", 0)
        keepdims = kw.get("keepdims", False)
        initial = kw.get("initial", np._NoValue)
        if where is not True:
            raise Unsupported("reduce with where")
        if isinstance(axis, tuple) and len(axis) == 1:
            axis = axis[0]
        if axis is None or (isinstance(axis, tuple) and len(axis) == a.ndim):
            nd = a.ndim
            a2 = a.reshape(-1)
            r = fold(ufunc, a2, initial, method)
            if keepdims:
                z = np.empty((1,) * nd, dtype=object)
                z[...] = r
                return finish(z, name)
            return r
        a2 = np.moveaxis(a, axis, 0)
        rest = a2.shape[1:]
        if method == "reduce":
            res = np.empty(rest, dtype=object)
            for i in np.ndindex(rest):
                res[i] = fold(ufunc, a2[(slice(None),) + i], initial, method)
            if not rest:
                r = res.item()
                if keepdims:
                    z = np.empty((1,), dtype=object)
                    z[0] = r
                    return finish(z, name)
                return r
            if keepdims:
                res = np.expand_dims(res, axis)
            return finish(res, name)
        res = np.empty(a2.shape, dtype=object)
        for i in np.ndindex(rest):
            res[(slice(None),) + i] = fold(ufunc, a2[(slice(None),) + i], initial, method)
        return finish(np.moveaxis(res, 0, axis), name)
    if method == "outer":
        a, b = (to_obj(x) for x in inputs)
        return do_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == "at":
        a, idx, *vals = inputs
        idx = conc_index(idx)
        idx = np.atleast_1d(idx)
        vals = np.broadcast_to(to_obj(vals[0]), idx.shape) if vals else None
        for j, i in enumerate(idx):
            a[i] = apply1(ufunc, a[i], vals[j])
        return None
    if method == "reduceat":
        arr, ind = inputs
        ind = list(conc_index(ind))
        a = to_obj(arr)
        res = np.empty(len(ind), dtype=object)
        for j, s in enumerate(ind):
            e = ind[j + 1] if j + 1 < len(ind) else len(a)
            res[j] = fold(ufunc, a[s:e], np._NoValue, "reduce") if e > s else a[s]
        return finish(res, name)
    raise Unsupported("ufunc method " + method)


def fold(ufunc, a, initial, method):
    vals = list(a)
    name = ufunc.__name__
    if method == "reduce" and name in ("logical_or", "logical_and"):
        if name == "logical_or":
            return np.bool_(any(bool(v) for v in vals))
        return np.bool_(all(bool(v) for v in vals))
    out = []
    if initial is not np._NoValue and initial is not None:
        acc = initial
        start = 0
    elif not vals:
        if method == "accumulate":
            return np.empty(0, dtype=object)
        if name == "add":
            return np.float64(0.0)
        if name == "multiply":
            return np.float64(1.0)
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    else:
        acc = vals[0]
        if isinstance(acc, (bool, np.bool_, SymBool)) and name in ("add", "multiply"):
            acc = acc.num() if isinstance(acc, SymBool) else int(acc)
        start = 1
        out.append(acc)
    for v in vals[start:]:
        acc = apply1(ufunc, acc, v)
        out.append(acc)
    if method == "accumulate":
        r = np.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            r[i] = v
        return r
    return acc


def scalar_ufunc(ufunc, method, inputs, kw):
    if any(isinstance(x, ma.MaskedArray) for x in inputs):
        # let the masked array lead
        if method == "__call__":
            fn = getattr(ma, ufunc.__name__, None)
            if fn is not None:
                ins = [x if isinstance(x, ma.MaskedArray) else to_obj(x) for x in inputs]
                return fn(*ins)
        return NotImplemented
    r = do_ufunc(ufunc, method, inputs, dict(kw))
    return r


# ---- function models --------------------------------------------------------
MODELS = {}


def model(*fns):
    def deco(f):
        for fn in fns:
            MODELS[fn] = f
        return f

    return deco


def flat(x):
    return list(base(sym_or(x)).ravel())


def sym_or(x):
    """As an array, symbolic if it holds symbols."""
    if isinstance(x, np.ndarray):
        return x
    if is_sym(x):
        return wrap1(x)
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            return sym_array(x)
    return np.asarray(x)


def wrap1(x):
    o = np.empty((), dtype=object)
    o[()] = x
    return o.view(SymArray)


def has_sym(x, depth=4):
    if is_sym(x):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        if isinstance(x, ma.MaskedArray):
            return False
        return x.dtype == object and x.size > 0 and any(is_sym(v) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth:
        return any(has_sym(v, depth - 1) for v in x)
    return False


def obj1d(vals, kind=None):
    r = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        r[i] = v
    r = r.view(SymArray)
    r._kind = kind or guess_kind(r)
    return r


def lt(a, b):
    """Strict order with NaN last (numpy's sort order)."""
    an, bn = _isnan(a), _isnan(b)
    if an:
        return False
    if bn:
        return True
    return bool(a < b)


def sort_idx(vals, less=lt):
    """Stable insertion sort; returns indices."""
    out = []
    for i, v in enumerate(vals):
        j = len(out)
        while j > 0 and less(v, vals[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


def _rec_less(order):
    def less(a, b):
        for n in order:
            x, y = a[n], b[n]
            if lt(x, y):
                return True
            if lt(y, x):
                return False
        return False

    return less


@model(np.argsort)
def m_argsort(a, axis=-1, kind=None, order=None, **kw):
    a = sym_or(a)
    if a.dtype.names is not None:
        if order is None:
            order = list(a.dtype.names)
        elif isinstance(order, str):
            order = [order] + [n for n in a.dtype.names if n != order]
        else:
            order = list(order) + [n for n in a.dtype.names if n not in order]
        return np.array(sort_idx(list(base(a)), _rec_less(order)), dtype=int)
    if a.dtype != object:
        return np.argsort(base(a), axis=axis, kind=kind)
    if axis is None or a.ndim == 1:
        return positions(np.array(sort_idx(list(base(a).ravel())), dtype=int))
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape, dtype=int)
    for i in np.ndindex(b.shape[:-1]):
        out[i] = sort_idx(list(b[i]))
    return np.moveaxis(out, -1, axis)


@model(np.sort)
def m_sort(a, axis=-1, kind=None, order=None, **kw):
    a = sym_or(a)
    if a.dtype.names is not None:
        idx = m_argsort(a, order=order)
        return a[idx].copy()
    if a.dtype != object:
        return np.sort(base(a), axis=axis)
    if a.ndim == 1 or axis is None:
        v = list(base(a).ravel())
        return obj1d([v[i] for i in sort_idx(v)], getattr(a, "_kind", None))
    b = np.moveaxis(base(a), axis, -1).copy()
    for i in np.ndindex(b.shape[:-1]):
        v = list(b[i])
        s = sort_idx(v)
        for j, k in enumerate(s):
            b[i + (j,)] = v[k]
    return wrap(np.moveaxis(b, -1, axis))


@model(np.lexsort)
def m_lexsort(keys, axis=-1):
    ks = [list(base(sym_or(k)).ravel()) for k in keys]
    n = len(ks[0])
    idx = list(range(n))
    for k in ks:
        idx = [idx[i] for i in sort_idx([k[j] for j in idx])]
    return np.array(idx, dtype=int)


@model(np.searchsorted)
def m_searchsorted(a, v, side="left", sorter=None):
    av = flat(a)
    if sorter is not None:
        av = [av[i] for i in conc_index(np.asarray(sorter))]
    va = sym_or(v)
    res = np.empty(va.shape, dtype=int)
    for i in np.ndindex(va.shape):
        x = base(va)[i]
        # binary search, as numpy does
        lo, hi = 0, len(av)
        while lo < hi:
            mid = (lo + hi) // 2
            if side == "left":
                go = lt(av[mid], x)
            else:
                go = not lt(x, av[mid])
            if go:
                lo = mid + 1
            else:
                hi = mid
        res[i] = lo
    return positions(res) if res.ndim else np.intp(res[()])


@model(np.digitize)
def m_digitize(x, bins, right=False):
    b = flat(bins)
    inc = all(not bool(b[i] > b[i + 1]) for i in range(len(b) - 1))
    dec = (not inc) and all(not bool(b[i] < b[i + 1]) for i in range(len(b) - 1))
    if not inc and not dec:
        raise ValueError("bins must be monotonically increasing or decreasing")
    side = "left" if right else "right"
    if dec:
        r = m_searchsorted(obj1d(b[::-1]), x, "right" if right else "left")
        return len(b) - r
    return m_searchsorted(obj1d(b), x, side)


@model(np.unique)
def m_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = sym_or(ar)
    if a.dtype.names is not None:
        less = _rec_less(list(a.dtype.names))
        v = list(base(a))
    elif a.dtype != object or axis is not None:
        if axis is not None:
            if a.dtype == object:
                raise Unsupported("unique with axis")
            return np.unique(base(a), return_index, return_inverse, return_counts, axis)
        return np.unique(base(a), return_index, return_inverse, return_counts)
    else:
        less = lt
        v = list(base(a).ravel())
    idx = sort_idx(v, less)
    groups = []
    for i in idx:
        if groups and not less(v[groups[-1][0]], v[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    first = np.array([min(g) for g in groups], dtype=int)
    if a.dtype.names is not None:
        u = a[first] if len(first) else a[:0]
    else:
        u = obj1d([v[g[0]] for g in groups], getattr(a, "_kind", None))
    out = [u]
    if return_index:
        out.append(first)
    if return_inverse:
        inv = np.empty(len(v), dtype=int)
        for k, g in enumerate(groups):
            for i in g:
                inv[i] = k
        out.append(inv.reshape(a.shape))
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=int))
    return out[0] if len(out) == 1 else tuple(out)


@model(np.isin)
def m_isin(element, test_elements, assume_unique=False, invert=False, **kw):
    e = sym_or(element)
    t = flat(test_elements)
    r = np.empty(e.shape, bool)
    for i in np.ndindex(e.shape):
        x = base(e)[i]
        r[i] = any(bool(x == y) for y in t) != invert
    return r


if hasattr(np, "in1d"):
    MODELS[np.in1d] = lambda a, b, **kw: m_isin(np.ravel(a), b, **kw)


@model(np.intersect1d)
def m_intersect1d(a, b, assume_unique=False, return_indices=False):
    av, ai = m_unique(a, return_index=True)
    bv, bi = m_unique(b, return_index=True)
    res, ia, ib = [], [], []
    for x, i in zip(av, ai):
        for y, j in zip(bv, bi):
            if bool(x == y):
                res.append(x)
                ia.append(i)
                ib.append(j)
                break
    r = obj1d(res)
    if return_indices:
        return r, np.array(ia, int), np.array(ib, int)
    return r


@model(np.where)
def m_where(cond, *xy):
    c = sym_or(cond)
    if c.dtype == object:
        c = c.view(SymArray).astype(bool) if not isinstance(c, SymArray) else c.astype(bool)
    if not xy:
        return positions(np.nonzero(c))
    x, y = (to_obj(v) for v in xy)
    shape = np.broadcast_shapes(c.shape, x.shape, y.shape)
    cb, xb, yb = (np.broadcast_to(v, shape) for v in (c, x, y))
    res = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        res[i] = xb[i] if cb[i] else yb[i]
    return finish(res, "where")


@model(np.nonzero, np.flatnonzero)
def m_nonzero(a):
    return positions(np.nonzero(sym_or(a).astype(bool)))


MODELS[np.flatnonzero] = lambda a: positions(np.flatnonzero(sym_or(a).astype(bool)))


@model(np.argwhere)
def m_argwhere(a):
    return np.argwhere(sym_or(a).astype(bool))


@model(np.count_nonzero)
def m_count_nonzero(a, axis=None, **kw):
    return np.count_nonzero(sym_or(a).astype(bool), axis=axis)


@model(np.clip)
def m_clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)
    r = sym_or(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


def _argbest(vals, better):
    if not vals:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    if _isnan(vals[0]):
        return 0
    for i in range(1, len(vals)):
        if _isnan(vals[i]):
            return i
        if bool(better(vals[i], vals[best])):
            best = i
    return best


def _arg_axis(a, axis, better):
    a = sym_or(a)
    if axis is None or a.ndim == 1:
        return np.intp(_argbest(list(base(a).ravel()), better))
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(b.shape[:-1]):
        out[i] = _argbest(list(b[i]), better)
    return out


@model(np.argmax)
def m_argmax(a, axis=None, out=None, **kw):
    return _arg_axis(a, axis, lambda x, y: x > y)


@model(np.argmin)
def m_argmin(a, axis=None, out=None, **kw):
    return _arg_axis(a, axis, lambda x, y: x < y)


def _nanargs(a, axis, better):
    a = sym_or(a)
    if axis is not None and a.ndim > 1:
        raise Unsupported("nanarg with axis")
    v = list(base(a).ravel())
    k = [i for i in range(len(v)) if not _isnan(v[i])]
    if not k:
        raise ValueError("All-NaN slice encountered")
    return np.intp(k[_argbest([v[i] for i in k], better)])


MODELS[np.nanargmax] = lambda a, axis=None, **kw: _nanargs(a, axis, lambda x, y: x > y)
MODELS[np.nanargmin] = lambda a, axis=None, **kw: _nanargs(a, axis, lambda x, y: x < y)


def along(a, axis, fn, keepdims=False):
    """Apply fn(list)->scalar along axis."""
    a = sym_or(a)
    if axis is None or a.ndim <= 1:
        r = fn(list(base(a).ravel()))
        if keepdims:
            z = np.empty((1,) * a.ndim, dtype=object)
            z[...] = r
            return finish(z, "")
        return r
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(b.shape[:-1]):
        out[i] = fn(list(b[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return finish(out, "")


def ssum(v):
    acc = None
    for x in v:
        acc = (x if acc is None else apply1(np.add, acc, x))
    return np.float64(0.0) if acc is None else acc


def smean(v):
    if not v:
        return NAN
    return apply1(np.true_divide, ssum(v), len(v))


def svar(v, ddof=0):
    if len(v) - ddof <= 0:
        return NAN
    m = smean(v)
    d = [apply1(np.subtract, x, m) for x in v]
    return apply1(np.true_divide, ssum([apply1(np.multiply, x, x) for x in d]), len(v) - ddof)


def sstd(v, ddof=0):
    r = svar(v, ddof)
    return apply1(np.sqrt, r)


@model(np.mean)
def m_mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return along(a, axis, smean, keepdims)


@model(np.var)
def m_var(a, axis=None, ddof=0, dtype=None, out=None, **kw):
    return along(a, axis, lambda v: svar(v, ddof))


@model(np.std)
def m_std(a, axis=None, ddof=0, dtype=None, out=None, **kw):
    return along(a, axis, lambda v: sstd(v, ddof))


def nn(v):
    return [x for x in v if not _isnan(x)]


def _smax(v):
    if not v:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    return functools.reduce(symmax, v)


def _smin(v):
    if not v:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    return functools.reduce(symmin, v)


MODELS[np.nansum] = lambda a, axis=None, **kw: along(a, axis, lambda v: ssum(nn(v)))
MODELS[np.nanmean] = lambda a, axis=None, **kw: along(a, axis, lambda v: smean(nn(v)))
MODELS[np.nanstd] = lambda a, axis=None, ddof=0, **kw: along(a, axis, lambda v: sstd(nn(v), ddof))
MODELS[np.nanvar] = lambda a, axis=None, ddof=0, **kw: along(a, axis, lambda v: svar(nn(v), ddof))
MODELS[np.nanmax] = lambda a, axis=None, **kw: along(a, axis, lambda v: _smax(nn(v)) if nn(v) else NAN)
MODELS[np.nanmin] = lambda a, axis=None, **kw: along(a, axis, lambda v: _smin(nn(v)) if nn(v) else NAN)


def smedian(v):
    if not v or any(_isnan(x) for x in v):
        return NAN
    s = [v[i] for i in sort_idx(v)]
    n = len(s)
    if n % 2:
        return s[n // 2]
    return apply1(np.true_divide, apply1(np.add, s[n // 2 - 1], s[n // 2]), 2)


MODELS[np.median] = lambda a, axis=None, **kw: along(a, axis, smedian)
MODELS[np.nanmedian] = lambda a, axis=None, **kw: along(a, axis, lambda v: smedian(nn(v)))


def spercentile(v, q):
    """Linear interpolation between order statistics; q in [0,100]."""
    if not v:
        return NAN
    if any(_isnan(x) for x in v):
        return NAN
    s = [v[i] for i in sort_idx(v)]
    n = len(s)
    pos = q * (n - 1) / 100 if not isinstance(q, (float, np.floating)) else core.to_frac(q) * (n - 1) / 100
    if is_sym(pos):
        lo = int(np.floor(pos))
        fr = pos - lo
    else:
        pos = core.to_frac(pos)
        lo = int(pos)
        fr = pos - lo
    if lo + 1 >= n:
        return s[n - 1]
    d = apply1(np.subtract, s[lo + 1], s[lo])
    return apply1(np.add, s[lo], apply1(np.multiply, d, fr))


def _percentile(a, q, scale, axis=None, skipnan=False):
    def one(qq):
        return along(a, axis, lambda v: spercentile(nn(v) if skipnan else v, qq))

    if np.ndim(q) == 0:
        return one((core.to_frac(q) if not is_sym(q) else q) * scale)
    return sym_array([one((core.to_frac(x) if not is_sym(x) else x) * scale) for x in q])


def _pk(kw):
    m = kw.get("method", "linear") or "linear"
    if m != "linear" or kw.get("interpolation") not in (None, "linear") or kw.get("weights") is not None:
        raise Unsupported("percentile method")


@model(np.percentile)
def m_percentile(a, q, axis=None, **kw):
    _pk(kw)
    return _percentile(a, q, 1, axis)


@model(np.nanpercentile)
def m_nanpercentile(a, q, axis=None, **kw):
    _pk(kw)
    return _percentile(a, q, 1, axis, True)


@model(np.quantile)
def m_quantile(a, q, axis=None, **kw):
    _pk(kw)
    return _percentile(a, q, 100, axis)


@model(np.histogram)
def m_histogram(a, bins=10, range=None, density=None, weights=None):
    v = flat(a)
    w = flat(weights) if weights is not None else None
    if np.ndim(bins) == 0:
        nb = int(bins)
        if range is not None:
            lo, hi = range
        elif v:
            lo, hi = _smin(v), _smax(v)
        else:
            lo, hi = 0.0, 1.0
        if bool(lo == hi):
            lo, hi = lo - 0.5, hi + 0.5
        step = apply1(np.true_divide, apply1(np.subtract, hi, lo), nb)
        edges = [apply1(np.add, lo, apply1(np.multiply, step, i)) for i in builtins.range(nb)] + [hi]
    else:
        edges = flat(bins)
        for i in builtins.range(len(edges) - 1):
            if bool(edges[i] > edges[i + 1]):
                raise ValueError("`bins` must increase monotonically, when an array")
    nb = len(edges) - 1
    cnt = [0 if w is None else np.float64(0.0) for _ in builtins.range(nb)]
    for j, x in enumerate(v):
        if _isnan(x):
            continue
        for k in builtins.range(nb):
            last = k == nb - 1
            if bool(x >= edges[k]) and (bool(x < edges[k + 1]) or (last and bool(x <= edges[k + 1]))):
                cnt[k] = cnt[k] + (1 if w is None else w[j])
                break
    if density:
        tot = ssum(cnt)
        cnt = [c / (tot * (edges[i + 1] - edges[i])) for i, c in enumerate(cnt)]
    if w is None and not density:
        return np.array(cnt, dtype=int), obj1d(edges, "f")
    return obj1d(cnt, "f"), obj1d(edges, "f")


@model(np.bincount)
def m_bincount(x, weights=None, minlength=0):
    xi = np.asarray(conc_index(sym_or(x)), dtype=int)
    n = max(int(xi.max()) + 1 if xi.size else 0, minlength)
    if weights is None:
        return np.bincount(xi, minlength=minlength)
    w = flat(weights)
    r = [np.float64(0.0)] * n
    for i, k in enumerate(xi):
        r[k] = r[k] + w[i]
    return obj1d(r, "f")


@model(np.interp)
def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xs, xpv, fpv = sym_or(x), flat(xp), flat(fp)
    n = len(xpv)
    left = fpv[0] if left is None else left
    right = fpv[-1] if right is None else right
    res = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(xs.shape):
        v = base(xs)[i]
        if _isnan(v):
            res[i] = NAN
        elif bool(v < xpv[0]):
            res[i] = left
        elif bool(v > xpv[-1]):
            res[i] = right
        else:
            j = 0
            while j < n - 1 and bool(v >= xpv[j + 1]):
                j += 1
            if j == n - 1 or bool(v == xpv[j]):
                res[i] = fpv[j]
            else:
                sl = apply1(np.true_divide, apply1(np.subtract, fpv[j + 1], fpv[j]),
                            apply1(np.subtract, xpv[j + 1], xpv[j]))
                res[i] = apply1(np.add, apply1(np.multiply, sl, apply1(np.subtract, v, xpv[j])), fpv[j])
    return finish(res, "")


@model(np.isclose)
def m_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = sym_or(a), sym_or(b)
    return abs(a - b) <= atol + rtol * abs(b)


@model(np.allclose)
def m_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(np.all(m_isclose(a, b, rtol, atol)))


@model(np.array_equal)
def m_array_equal(a, b, **kw):
    a, b = sym_or(a), sym_or(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(base(a).ravel(), base(b).ravel()))


@model(np.round)
def m_round(a, decimals=0, out=None):
    a = sym_or(a)
    res = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = base(a)[i]
        res[i] = v.rint(decimals) if isinstance(v, SymNum) else np.round(v, decimals)
    return finish(res, "")


if hasattr(np, "around"):
    MODELS[np.around] = m_round


@model(np.fix)
def m_fix(x, out=None):
    return np.trunc(x)


@model(np.trapezoid)
def m_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = sym_or(y)
    if y.ndim > 1:
        raise Unsupported("trapezoid nd")
    yv = flat(y)
    xv = flat(x) if x is not None else None
    acc = np.float64(0.0)
    for i in range(len(yv) - 1):
        d = dx if xv is None else xv[i + 1] - xv[i]
        acc = acc + d * (yv[i] + yv[i + 1]) / 2.0
    return acc


if hasattr(np, "trapz"):
    MODELS[np.trapz] = m_trapezoid


@model(np.iscomplexobj)
def m_iscomplexobj(x):
    return False


@model(np.nan_to_num)
def m_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    a = sym_or(x)
    res = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        v = base(a)[i]
        res[i] = v if is_sym(v) else np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
    return finish(res, "")


@model(np.ptp)
def m_ptp(a, axis=None, **kw):
    return np.max(a, axis=axis) - np.min(a, axis=axis)


@model(np.gradient)
def m_gradient(*a, **k):
    raise Unsupported("gradient")


@model(np.copy)
def m_copy(a, **kw):
    return a.copy() if isinstance(a, np.ndarray) else a


@model(np.full_like)
def m_full_like(a, v, dtype=None, **kw):
    return NP.full(np.shape(a), v, dtype=dtype)


def _like(name):
    def f(a, dtype=None, **kw):
        a = a if isinstance(a, np.ndarray) else sym_or(a)
        if dtype is None:
            if a.dtype == object:
                dtype = int if getattr(a, "_kind", "f") == "i" else float
            else:
                dtype = a.dtype
        return getattr(NP, name)(kw.get("shape") or a.shape, dtype=dtype)

    return f


MODELS[np.zeros_like] = _like("zeros")
MODELS[np.ones_like] = _like("ones")
MODELS[np.empty_like] = _like("empty")


@model(np.linspace)
def m_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    div = num - 1 if endpoint else num
    step = apply1(np.true_divide, apply1(np.subtract, stop, start), div) if div > 0 else NAN
    vals = [apply1(np.add, start, apply1(np.multiply, step, i)) if i else apply1(np.add, start, 0.0) for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = apply1(np.add, stop, 0.0)
    r = obj1d(vals, "f")
    return (r, step) if retstep else r


def m_arange(*args, dtype=None, **kw):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args[:3]
    n = np.ceil(apply1(np.true_divide, apply1(np.subtract, stop, start), step))
    n = int(n) if not is_sym(n) else core.ENGINE.concretize_int(n.trunc_int())
    n = max(n, 0)
    vals = [start if i == 0 else apply1(np.add, start, apply1(np.multiply, step, i)) for i in range(n)]
    k = "i" if all(_isintlike(v) for v in (start, stop, step)) else "f"
    if dtype is not None:
        k = dkind(dtype)
    return sym_array(obj1d(vals), kind=k) if n else obj1d([], k)


def concrete_floats(a):
    if not isinstance(a, np.ndarray) or a.dtype != object:
        return a
    flat = [x.item() if isinstance(x, np.generic) else x for x in base(a).ravel()]
    if any(is_sym(x) for x in flat):
        raise Unsupported("linear algebra on symbolic matrices")
    return np.array([float(x) for x in flat]).reshape(a.shape)


def array_function(func, types_, args, kwargs):
    m = MODELS.get(func)
    if m is not None:
        return m(*args, **kwargs)
    if any(isinstance(a, ma.MaskedArray) for a in args):
        return np.ndarray.__array_function__(args[0], func, types_, args, kwargs)
    impl = getattr(func, "_implementation", None)
    if impl is not None and "linalg" in (getattr(func, "__module__", None) or "") and getattr(func, "__name__", "") != "norm":
        # matrices of concrete numbers go to the real routine
        return impl(*[concrete_floats(a) for a in args], **kwargs)
    if impl is not None:
        args = tuple(wrap1(a) if is_sym(a) else a for a in args)
        r = impl(*args, **kwargs)
        return wrap(r)
    raise Unsupported("numpy function %s" % getattr(func, "__name__", func))


# ---- the numpy proxy --------------------------------------------------------
def fill(shape, v, dtype):
    k = dkind(dtype)
    if k in (None, "f", "i"):
        if is_sym(shape):
            shape = core.ENGINE.concretize_int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(core.ENGINE.concretize_int(s) if is_sym(s) else int(s) for s in shape)
        out = np.empty(shape, dtype=object)
        if k == "i":
            v = v if is_sym(v) else (int(v) if v is not None else 0)
        else:
            v = v if is_sym(v) else (np.float64(v) if v is not None else np.float64(0.0))
        out.fill(v)
        r = out.view(SymArray)
        r._kind = k or "f"
        return r
    return None


class NpProxy(types.ModuleType):
    """Stands for the numpy module inside the code under test."""

    def __init__(self, real):
        super().__init__("numpy")
        self.__dict__["_real"] = real
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self.__dict__["_cache"]
        v = raw = getattr(self.__dict__["_real"], name)
        if name in c and c[name][0] is raw:
            return c[name][1]
        if isinstance(v, types.ModuleType):
            if name == "ma":
                v = MaProxy(v)
            elif name in ("linalg", "random", "polynomial", "fft"):
                v = NpProxy(v)
        elif isinstance(v, np.ufunc):
            v = UfuncProxy(v)
        elif callable(v) and not isinstance(v, type):
            v = func_proxy(v)
        c[name] = (raw, v)
        return v


class UfuncProxy:
    def __init__(self, u):
        self._u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kw):
        if active() and any(isinstance(a, (list, tuple, np.ndarray)) and not isinstance(a, SymArray) and has_sym(a) for a in args):
            args = [sym_array(a) if has_sym(a) and not is_sym(a) and not isinstance(a, SymArray) else a for a in args]
        if active() and any(isinstance(a, ma.MaskedArray) and has_sym(np.asarray(a.data)) for a in args):
            fn = getattr(ma, self._u.__name__, None)
            if fn is not None:
                return fn(*args)
        if active() and len(args) == 1 and type(args[0]).__name__ == "Series" and args[0].dtype == object and has_sym(args[0].to_numpy()):
            r = self._u(sym_array(list(args[0])))
            return type(args[0])([x for x in r.tolist()], index=args[0].index)
        return self._u(*args, **kw)

    def __getattr__(self, n):
        v = getattr(self._u, n)
        if callable(v):
            def f(a, *r, **k):
                if active() and isinstance(a, (list, tuple)) and has_sym(a):
                    a = sym_array(a)
                return v(a, *r, **k)

            return f
        return v


_STRUCTURAL = {"concatenate", "vstack", "hstack", "stack", "column_stack", "lexsort", "append", "meshgrid", "broadcast_arrays", "dstack"}


def lift(a, structural=False):
    if isinstance(a, (list, tuple)) and has_sym(a):
        if structural and any(isinstance(v, (np.ndarray, list, tuple)) for v in a):
            return type(a)([lift(v) for v in a]) if isinstance(a, (list, tuple)) else a
        try:
            return sym_array(a)
        except (TypeError, ValueError):
            return a
    if isinstance(a, np.ndarray) and not isinstance(a, (SymArray, ma.MaskedArray)) and has_sym(a):
        return wrap(a)
    return a


def func_proxy(f):
    name = getattr(f, "__name__", "")
    if name in CREATORS:
        return CREATORS[name](f)

    def w(*args, **kw):
        if not active():
            return f(*args, **kw)
        st = name in _STRUCTURAL
        args = tuple(lift(a, st) for a in args)
        kw = {k: fixdt(k, v) for k, v in kw.items()}
        return f(*args, **kw)

    w.__name__ = name
    w._real = f
    return w


def fixdt(k, v):
    if k == "dtype":
        if v is symfloat:
            return float
        if v is symint:
            return int
    return lift(v)


def _c_fill(v0):
    def mk(f):
        def w(shape, dtype=None, *a, **kw):
            if dtype is symfloat:
                dtype = float
            elif dtype is symint:
                dtype = int
            if active():
                try:
                    if dtype is not None and np.dtype(dtype).names is not None:
                        r = f(conc_shape(shape), symdtype(dtype)).view(SymArray)
                        for n in r.dtype.names:
                            if r.dtype[n] == object:
                                base(r)[n] = np.float64(v0) if np.dtype(dtype)[n].kind == "f" else int(v0)
                        return r
                except TypeError:
                    pass
                r = fill(shape, v0, dtype)
                if r is not None:
                    return r
            return f(shape, dtype if dtype is not None else float, *a, **kw)

        return w

    return mk


def conc_shape(s):
    if is_sym(s):
        return core.ENGINE.concretize_int(s)
    return s


def _c_full(f):
    def w(shape, v, dtype=None, **kw):
        if dtype is symfloat:
            dtype = float
        elif dtype is symint:
            dtype = int
        if active() and not isinstance(v, (str, np.ndarray, list, type(None))):
            if dtype is None:
                dtype = int if _isintlike(v) and not isinstance(v, (bool, np.bool_)) else (bool if isinstance(v, (bool, np.bool_)) else float)
            r = fill(shape, v, dtype)
            if r is not None:
                return r
        return f(shape, v, dtype=dtype, **kw)

    return w


def _c_array(f):
    def w(x, dtype=None, *a, **kw):
        if dtype is symfloat:
            dtype = float
        elif dtype is symint:
            dtype = int
        if active():
            if isinstance(x, SymArray) and x.dtype.names is not None:
                if kw.get("copy", True) is False:
                    return x
                return x.copy()
            if is_sym(x):
                r = wrap1(cast_scalar(x, dtype) if dtype is not None else x)
                r._kind = "i" if _isintlike(r.item()) else "f"
                if kw.get("ndmin", 0) == 1:
                    r = r.reshape(1)
                return r
            if has_sym(x):
                k = dkind(dtype)
                if isinstance(x, ma.MaskedArray):
                    x = x.data
                if k in (None, "f", "i"):
                    if k is None and isinstance(x, np.ndarray):
                        if f.__name__ in ("asarray", "asanyarray"):
                            return x
                        r = x.copy()
                        return wrap(r)
                    if not isinstance(x, np.ndarray) and dtype is None and any(
                            isinstance(v, (bool, np.bool_, SymBool)) for v in x) and all(
                            isinstance(v, (bool, np.bool_, SymBool)) for v in x):
                        return np.array([bool(v) for v in x])
                    if f.__name__ in ("asarray", "asanyarray") and isinstance(x, SymArray) and x._kind == k:
                        return x
                    return sym_array(x, kind=k)
                if k == "b":
                    return sym_array(x).astype(bool)
                if k == "V":
                    return struct_array(x, dtype)
                return f(x, dtype, *a, **kw)
            k = dkind(dtype)
            if k == "V" and not isinstance(x, np.ndarray):
                return struct_array(x, dtype)
            if not isinstance(x, np.ndarray):
                r = f(x, dtype, *a, **kw)
                if f.__name__ in ("array",) and r.dtype.kind in "fiu" and r.ndim >= 1 and r.dtype.names is None:
                    return sym_array(r)
                return r
            if x.dtype.kind in "fiu" and f.__name__ == "array" and x.dtype.names is None and k in (None, "f", "i"):
                return sym_array(x, kind=k)
        return f(x, dtype, *a, **kw) if dtype is not None else f(x, *a, **kw)

    w.__name__ = f.__name__
    return w


def struct_array(x, dtype):
    """np.array(list of tuples, structured dtype) with object fields."""
    d = symdtype(dtype)
    rows = list(x)
    if rows and all(isinstance(r, np.ndarray) and r.dtype.names for r in rows):
        out = np.empty((len(rows),) + rows[0].shape, dtype=d)
        for i, r in enumerate(rows):
            for c in d.names:
                out[c][i] = r[c]
        return out.view(SymArray)
    out = np.empty(len(rows), dtype=d)
    for i, r in enumerate(rows):
        out[i] = tuple(r)
    return out.view(SymArray)


def _c_arange(f):
    def w(*args, **kw):
        if kw.get("dtype") is symfloat:
            kw["dtype"] = float
        if kw.get("dtype") is symint:
            kw["dtype"] = int
        if active():
            if any(is_sym(a) for a in args):
                return m_arange(*args, **kw)
            r = f(*args, **kw)
            if r.dtype.kind == "f":
                return sym_array(r)
            return r
        return f(*args, **kw)

    return w


def _c_linspace(f):
    def w(*args, **kw):
        if active():
            if any(is_sym(a) for a in args[:2]):
                return m_linspace(*args, **kw)
            r = f(*args, **kw)
            if isinstance(r, np.ndarray):
                return sym_array(r)
            return r
        return f(*args, **kw)

    return w


def _c_copy(f):
    def w(a, *r, **kw):
        if active() and isinstance(a, np.ndarray) and not isinstance(a, ma.MaskedArray):
            if a.dtype.kind in "f" and a.dtype.names is None:
                return sym_array(a)
            return a.copy()
        return f(a, *r, **kw)

    return w


def _c_like(name):
    def mk(f):
        def w(a, *r, **kw):
            if active() and (isinstance(a, np.ndarray) and a.dtype.kind in "fiO" or has_sym(a)):
                dt = kw.pop("dtype", None) or (r[-1] if r and name != "full_like" else None)
                if name == "full_like":
                    v = r[0] if r else kw.pop("fill_value")
                    return NP.full(np.shape(a), v, dtype=dt or (int if getattr(a, "_kind", None) == "i" or getattr(a, "dtype", np.dtype(float)).kind in "iu" else float))
                if not isinstance(a, np.ndarray):
                    a = sym_array(a)
                return _like(name.split("_")[0])(a, dtype=dt)
            return f(a, *r, **kw)

        return w

    return mk


CREATORS = {
    "zeros": _c_fill(0), "ones": _c_fill(1), "empty": _c_fill(0), "full": _c_full,
    "array": _c_array, "asarray": _c_array, "asanyarray": _c_array, "arange": _c_arange,
    "linspace": _c_linspace, "copy": _c_copy,
    "zeros_like": _c_like("zeros_like"), "ones_like": _c_like("ones_like"),
    "empty_like": _c_like("empty_like"), "full_like": _c_like("full_like"),
}


class SymMasked:
    """Model of a masked array whose data are symbolic; the mask is concrete (set by forking)."""

    def __init__(self, data, mask=False, fill_value=None):
        self.data = data
        self._mask = np.zeros(data.shape, bool)
        self.mask = mask
        self.fill_value = fill_value
        self.dtype = np.dtype({"f": float, "i": int}[data._kind])

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, m):
        if isinstance(m, np.ndarray):
            if m.dtype == object:
                m = np.array([bool(x) for x in base(m).ravel()], bool).reshape(m.shape)
            self._mask = np.broadcast_to(np.asarray(m, bool), self.data.shape).copy()
        else:
            self._mask = np.full(self.data.shape, bool(m))

    shape = property(lambda self: self.data.shape)
    size = property(lambda self: self.data.size)
    ndim = property(lambda self: self.data.ndim)

    def __len__(self):
        return len(self.data)

    def compressed(self):
        return self.data[~self._mask]

    def filled(self, v=None):
        out = self.data.copy()
        out[self._mask] = self.fill_value if v is None else v
        return out

    def reshape(self, *shape, **kw):
        return SymMasked(self.data.reshape(*shape), self._mask.reshape(*shape), self.fill_value)

    def swapaxes(self, a, b):
        return SymMasked(self.data.swapaxes(a, b), self._mask.swapaxes(a, b), self.fill_value)

    def __getitem__(self, i):
        i = conc_index(i)
        m = self._mask[i]
        if not isinstance(m, np.ndarray):
            return ma.masked if m else self.data[i]
        return SymMasked(self.data[i], m, self.fill_value)

    def __iter__(self):
        return (self[i] for i in range(len(self)))


def _masked_array(real):
    class MaskedArrayProxy(real):
        def __new__(cls, data=None, mask=ma.nomask, fill_value=None, **kw):
            if active() and isinstance(data, SymArray) and data.dtype == object and not kw:
                return SymMasked(data, False if mask is ma.nomask else mask, fill_value)
            return real(data, mask=mask, fill_value=fill_value, **kw)
    return MaskedArrayProxy


class MaProxy(types.ModuleType):
    def __init__(self, real):
        super().__init__("numpy.ma")
        self.__dict__["_real"] = real
        self.__dict__["MaskedArray"] = _masked_array(real.MaskedArray)

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


NP = NpProxy(np)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class symfloat(float, metaclass=_NumMeta):
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, SymNum):
            return x.toreal()
        if isinstance(x, SymBool):
            return x.num().toreal()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return symfloat(x.reshape(-1)[0])
        return float(x)


class symint(int, metaclass=_NumMeta):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SymNum):
            return x.trunc_int()
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return symint(x.reshape(-1)[0])
        return int(x, *a)


class SymMath(types.ModuleType):
    """Stands for the math module."""

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real):
            return real

        def f(*args):
            if any(is_sym(a) for a in args):
                m = {"pow": lambda a, b: sympow(a, b), "fabs": abs, "floor": lambda a: a.__floor__(),
                     "ceil": lambda a: a.__ceil__(), "trunc": lambda a: a.trunc_int(),
                     "isnan": lambda a: False, "isinf": lambda a: False, "isfinite": lambda a: True,
                     "acos": lambda a: symuf("arccos", a), "asin": lambda a: symuf("arcsin", a),
                     "atan": lambda a: symuf("arctan", a), "atan2": _arctan2,
                     "isclose": lambda a, b: abs(a - b) <= 1e-9 * symmax(abs(a), abs(b)),
                     "hypot": _hypot, "fmod": _fmod}.get(name)
                if m is not None:
                    return m(*args)
                return getattr(args[0], name)()
            return real(*args)

        return f


MATH = SymMath()
