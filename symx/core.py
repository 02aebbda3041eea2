"""Dynamic symbolic execution of real Python/numpy code with z3.

Symbolic numbers (SymNum) flow through the unmodified implementation; every
branch on a symbolic condition is decided by the solver and explored on both
sides (depth first, by re-execution); assertions of a harness become solver
queries over the path condition.
"""

import dis
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import math  # noqa: E402

import numpy as np  # noqa: E402
import z3  # noqa: E402

from . import ratfun  # noqa: E402

__all__ = [
    "Engine", "SymNum", "SymBool", "PathEnd", "Budget", "ENGINE", "is_sym",
    "to_frac", "frac_to_float", "Unsupported", "ite", "symmax", "symmin", "sand", "sor", "snot",
]


class PathEnd(BaseException):
    """The current path is infeasible or deliberately cut."""


class Budget(BaseException):
    """The time budget of the exploration ran out."""


class Unsupported(Exception):
    """An operation with no symbolic model was reached."""


ENGINE = None  # the active engine (one per process at a time)


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


def to_frac(x):
    """Exact rational standing for a concrete number (shortest decimal)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, np.float32):
        x = float(x)
    return Fraction(repr(float(x)))


def frac_to_float(f):
    return float(f)


def _rv(x):
    f = to_frac(x)
    return z3.RealVal(f)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


_CONC = (bool, int, float, np.bool_, np.integer, np.floating)


class Entry:
    __slots__ = ("kind", "val", "alt", "pushed", "key")

    def __init__(self, kind, val=None, alt=False, pushed=False, key=None):
        self.kind = kind
        self.val = val
        self.alt = alt
        self.pushed = pushed
        self.key = key


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.assert_queries = 0
        self.assert_unsat = 0
        self.assert_trivial = 0
        self.assert_unknown = 0
        self.normal = 0
        self.branches = 0
        self.forced = 0
        self.paths = 0
        self.infeasible = 0


class Engine:
    def __init__(self, branch_timeout_ms=4000, assert_timeout_ms=10000, deadline=None, seed=1):
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_timeout_ms)
        self.branch_timeout = branch_timeout_ms
        self.assert_timeout = assert_timeout_ms
        self.trace = []
        self.pos = 0
        self.level_exprs = []  # asserted formulas, with scopes
        self.scopes = []
        self.inputs = {}       # name -> (z3 var, kind, meta)
        self.stats = Stats()
        self.deadline = deadline
        self.model = None
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.memo = {}
        self.apps = {}         # transcendental applications per function
        self.nonexhaustive = []
        self.seed = seed
        self.concretised = 0
        self.ivmemo = {}
        self.sqrt_args = {}
        self.axiom_ids = set()

    # ---- path management -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.known = {}
        self.keep = []
        self.fresh = 0
        self.memo = {}
        self.apps = {}
        self.inputs = {}
        self.ivmemo = {}
        self.sqrt_args = {}
        self.path_degraded = False

    def _assert(self, f):
        self.solver.add(f)
        self.level_exprs.append(f)

    def _push(self):
        self.solver.push()
        self.scopes.append(len(self.level_exprs))

    def _pop(self):
        self.solver.pop()
        n = self.scopes.pop()
        del self.level_exprs[n:]

    def next_path(self):
        """Backtrack to the deepest unexplored alternative; False when done."""
        while self.trace:
            e = self.trace.pop()
            if e.kind == "b" and e.pushed:
                self._pop()
                if e.alt:
                    cond = e.key
                    e.val = not e.val
                    e.alt = False
                    self._push()
                    self._assert(cond if e.val else z3.Not(cond))
                    self.trace.append(e)
                    self.model = None
                    return True
        return False

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()

    # ---- solver ----------------------------------------------------------
    def _check(self, *extra, timeout=None):
        self.stats.queries += 1
        self.check_deadline()
        t0 = time.time()
        try:
            if timeout is not None:
                self.solver.set("timeout", timeout)
            r = self.solver.check(*extra)
            m = self.solver.model() if r == z3.sat else None
        except z3.Z3Exception:
            r, m = z3.unknown, None
        finally:
            if timeout is not None:
                self.solver.set("timeout", self.branch_timeout)
        if r == z3.unknown:
            r, m = self._retry(extra, timeout or self.branch_timeout)
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def _retry(self, extra, timeout):
        """Fresh solvers with nonlinear strategies."""
        for mk in (
            lambda: z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver(),
            lambda: z3.SolverFor("QF_NRA"),
            lambda: z3.SimpleSolver(),
        ):
            self.check_deadline()
            s = mk()
            try:
                s.set("timeout", timeout)
                for f in self.level_exprs:
                    s.add(f)
                for f in extra:
                    s.add(f)
                r = s.check()
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    def axiom(self, f):
        """A fact about an abstract function or root (not about the inputs)."""
        n = len(self.level_exprs)
        self.assume(f)
        if len(self.level_exprs) > n:
            self.axiom_ids.add(self.level_exprs[-1].get_id())

    def witness(self):
        """A model of the constraints on the inputs, leaving out the axioms (only
        used to pick inputs that are then run on the real code)."""
        if self.model is not None:
            return self.model
        s = z3.Solver()
        s.set("timeout", 1500)
        for f in self.level_exprs:
            if f.get_id() not in self.axiom_ids:
                s.add(f)
        t0 = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        return s.model() if r == z3.sat else None

    def assume(self, f):
        """Add a constraint to the current path (axioms, preconditions)."""
        if isinstance(f, SymBool):
            f = f.e
        if isinstance(f, (bool, np.bool_)):
            if not f:
                raise PathEnd()
            return
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "a", "replay divergence (assume)"
            self.pos += 1
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            self.trace.append(Entry("a"))
            self.pos += 1
            return
        self._assert(f)
        self.trace.append(Entry("a"))
        self.pos += 1
        if self.model is not None:
            v = self.model.eval(f, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def branch(self, c):
        if isinstance(c, SymBool):
            c = c.e
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k]
        r = ratfun.decide(self, c)
        if r is not None:
            return r
        self.keep.append(c)
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            if e.kind != "b" or (e.key is not None and not e.key.eq(c)):
                raise RuntimeError("replay divergence: %s vs %s" % (e.key, c))
            self.pos += 1
            self.known[k] = e.val
            return e.val
        self.check_deadline()
        nc = z3.Not(c)
        st = sf = None
        mt = mf = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                st, mt = z3.sat, self.model
            elif z3.is_false(v):
                sf, mf = z3.sat, self.model
        if st is None:
            st, mt = self._check(c)
        if sf is None:
            sf, mf = self._check(nc)
        if st == z3.unsat and sf == z3.unsat:
            # the path itself is infeasible (an unknown earlier)
            raise PathEnd()
        if st == z3.unsat or sf == z3.unsat:
            val = st != z3.unsat
            self.stats.forced += 1
            self.trace.append(Entry("b", val, False, False, c))
            self.pos += 1
            self.known[k] = val
            self.model = mt if val else mf
            return val
        self.stats.branches += 1
        # explore first the side whose model is known
        val = st == z3.sat
        self._push()
        self._assert(c if val else nc)
        self.trace.append(Entry("b", val, True, True, c))
        self.pos += 1
        self.known[k] = val
        self.model = mt if val else mf
        return val

    def get_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd()
            self.model = m
        return self.model

    def note_value(self, fn):
        """A value computed by fn(), recorded so that re-execution repeats it."""
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            assert e.kind == "v", "replay divergence (value)"
            self.pos += 1
            return e.val
        v = fn()
        self.trace.append(Entry("v", v))
        self.pos += 1
        return v

    def concretize_int(self, x, limit=4096):
        """Fork over every feasible value of an integer term."""
        e = x.e
        for _ in range(limit):
            s = z3.simplify(e)
            if z3.is_int_value(s):
                return s.as_long()

            def pick():
                m = self.get_model()
                if m is None:
                    raise PathEnd()
                v = m.eval(e, model_completion=True)
                return v.as_long()

            v = self.note_value(pick)
            if self.branch(e == v):
                return v
        raise Budget()

    def concretize_real(self, x):
        """Last resort: pin a real term to one model value (degrades)."""
        self.path_degraded = True
        self.nonexhaustive.append("value concretised")

        def pick():
            m = self.get_model()
            if m is None:
                raise PathEnd()
            return model_frac(m, x.e)

        v = self.note_value(pick)
        c = x.e == (z3.IntVal(int(v)) if x.isint else z3.RealVal(v))
        self.assume(c)
        return float(v)

    # ---- variables -------------------------------------------------------
    def input_real(self, name, lo=None, hi=None, grid=64):
        v = z3.Real(name)
        self.inputs[name] = (v, "real", lo, hi, grid)
        if lo is not None:
            self.assume(v >= _rv(lo))
        if hi is not None:
            self.assume(v <= _rv(hi))
        return SymNum(v)

    def input_int(self, name, lo, hi):
        v = z3.Int(name)
        self.inputs[name] = (v, "int", lo, hi, 1)
        self.assume(z3.And(v >= lo, v <= hi))
        return SymNum(v, True)

    def fresh_real(self, tag="t"):
        self.fresh += 1
        return z3.Real("%s!%d" % (tag, self.fresh))

    # ---- assertions ------------------------------------------------------
    def prove(self, cond):
        """('holds', None) | ('cex', inputs) | ('unknown', None)."""
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, (bool, np.bool_)):
            if cond:
                self.stats.assert_trivial += 1
                return "holds", None
            neg = z3.BoolVal(True)
        else:
            s = z3.simplify(cond)
            if z3.is_true(s):
                self.stats.assert_trivial += 1
                return "holds", None
            if ratfun.decide(self, s) is True:
                self.stats.assert_trivial += 1
                return "holds", None
            neg = z3.Not(s)
        self.stats.assert_queries += 1
        r, m = self._check(neg, timeout=self.assert_timeout)
        if r == z3.unsat:
            self.stats.assert_unsat += 1
            return "holds", None
        if r == z3.unknown:
            self.stats.assert_unknown += 1
            return "unknown", None
        return "cex", (neg, m)

    def nice_witness(self):
        """Inputs on the grid satisfying the input constraints of this path."""
        s = z3.Solver()
        s.set("timeout", 1500)
        for f in self.level_exprs:
            if f.get_id() not in self.axiom_ids:
                s.add(f)
        for name, (v, kind, lo, hi, g) in self.inputs.items():
            if kind == "real" and g:
                s.add(v * g == z3.ToReal(z3.Int("grid!" + name)))
        t0 = time.time()
        try:
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception:
            m = None
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if m is None:
            m = self.witness()
        if m is None:
            return None
        return {name: model_frac(m, t[0]) for name, t in self.inputs.items()}

    def nice_inputs(self, m, neg=None, tries=True):
        """Input assignment of a model; on the dyadic grid when possible."""
        if tries:
            grid = []
            for name, (v, kind, lo, hi, g) in self.inputs.items():
                if kind == "real" and g:
                    k = z3.Int("grid!" + name)
                    grid.append(v * g == z3.ToReal(k))
            if grid:
                extra = list(grid)
                if neg is not None:
                    extra.append(neg)
                dl = self.deadline
                self.deadline = None
                try:
                    r, gm = self._check(*extra, timeout=3000)
                finally:
                    self.deadline = dl
                if r == z3.sat:
                    m = gm
        out = {}
        for name, (v, kind, lo, hi, g) in self.inputs.items():
            f = model_frac(m, v)
            out[name] = f
        return out


_FMT = {}


def _formatted(frame):
    """Is the value asked for only to be written into text ("... %f" % x)?"""
    key = (frame.f_code, frame.f_lasti)
    if key not in _FMT:
        code = frame.f_code
        ins = [i for i in dis.get_instructions(code)]
        here = [i for i in ins if i.offset == frame.f_lasti]
        ok = False
        if here and here[0].opname == "BINARY_OP" and here[0].argrepr == "%":
            q = here[0].positions
            lo, hi = (q.lineno, q.col_offset), (q.end_lineno, q.end_col_offset)
            ok = any(i.opname == "LOAD_CONST" and isinstance(i.argval, str) and "%" in i.argval and i.positions.lineno is not None
                     and (i.positions.lineno, i.positions.col_offset) == lo and (i.positions.end_lineno, i.positions.end_col_offset) <= hi for i in ins)
        _FMT[key] = ok
    return _FMT[key]


def model_frac(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported("model value %s" % v)


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __and__(self, o):
        o = _b(o)
        if o is True:
            return self
        if o is False:
            return False
        return SymBool(z3.And(self.e, o.e))

    __rand__ = __and__

    def __or__(self, o):
        o = _b(o)
        if o is True:
            return True
        if o is False:
            return self
        return SymBool(z3.Or(self.e, o.e))

    __ror__ = __or__

    def __xor__(self, o):
        o = _b(o)
        if o is True:
            return SymBool(z3.Not(self.e))
        if o is False:
            return self
        return SymBool(z3.Xor(self.e, o.e))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def num(self):
        return SymNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), True)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e != o.e)
        return self.num() != o

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.e


def _b(o):
    if isinstance(o, SymBool):
        return o
    if isinstance(o, SymNum):
        return o != 0
    return bool(o)


def sand(*cs):
    r = True
    for c in cs:
        c = _b(c)
        if c is False:
            return False
        if c is True:
            continue
        r = c if r is True else (r & c)
    return r


def sor(*cs):
    r = False
    for c in cs:
        c = _b(c)
        if c is True:
            return True
        if c is False:
            continue
        r = c if r is False else (r | c)
    return r


def snot(c):
    c = _b(c)
    if isinstance(c, SymBool):
        return SymBool(z3.Not(c.e))
    return not c


def _isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def _isinf(x):
    return isinstance(x, (float, np.floating)) and (x == math.inf or x == -math.inf)


def _num(o):
    """Operand: SymNum, or a concrete number, or NotImplemented."""
    if isinstance(o, SymNum):
        return o
    if isinstance(o, SymBool):
        return o.num()
    if isinstance(o, _CONC):
        return o
    if isinstance(o, Fraction):
        return o
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return _num(o.item())
    if o is None or isinstance(o, (str, bytes)):
        return NotImplemented
    if hasattr(o, "value") and hasattr(o, "unit"):
        raise Unsupported("astropy quantity in symbolic arithmetic")
    return NotImplemented


def _isintlike(x):
    return isinstance(x, (bool, int, np.bool_, np.integer)) or (isinstance(x, SymNum) and x.isint)


def _ze(x, real):
    """z3 term of an operand, as Real if real else Int."""
    if isinstance(x, SymNum):
        if x.isint and real:
            return z3.ToReal(x.e)
        return x.e
    if real:
        return _rv(x)
    return z3.IntVal(int(x))


def _const(e):
    """Concrete value of a z3 numeral, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


class SymNum:
    """A symbolic real (or integer) number; never NaN or infinite."""

    __slots__ = ("e", "isint", "lg", "la")
    __array_priority__ = 1000

    def __init__(self, e, isint=False, lg=None, la=None):
        self.e = e
        self.isint = isint
        self.lg = lg    # (coef Fraction>0, exponent z3) : value = coef*10**exponent
        self.la = la    # (c Fraction, arg SymNum>0, d z3) : value = c*log10(arg)+d

    # numpy hooks (set in symnp)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp

        return symnp.scalar_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp

        return symnp.array_function(func, types, args, kwargs)

    # -- arithmetic
    def _mk(self, e, isint):
        return SymNum(z3.simplify(e, som=False), isint)

    def __add__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        if _isnan(o) or _isinf(o):
            return np.float64(o)
        i = self.isint and _isintlike(o)
        if not isinstance(o, SymNum) and o == 0 and (i or not self.isint):
            return self
        r = SymNum(z3.simplify(_ze(self, not i) + _ze(o, not i)), i)
        if self.la is not None and not isinstance(o, SymNum):
            c, a, d = self.la
            r.la = (c, a, z3.simplify(d + _rv(o)))
        elif self.la is not None and o.la is None:
            c, a, d = self.la
            r.la = (c, a, z3.simplify(d + _ze(o, True)))
        elif isinstance(o, SymNum) and o.la is not None and self.la is None:
            c, a, d = o.la
            r.la = (c, a, z3.simplify(d + _ze(self, True)))
        elif isinstance(o, SymNum) and o.la is not None and self.la is not None:
            c, a, d = self.la
            c2, a2, d2 = o.la
            if c == c2:
                r.la = (c, a * a2, z3.simplify(d + d2))
            elif c == -c2:
                r.la = (c, a / a2, z3.simplify(d + d2))
        return r

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        r = SymNum(z3.simplify(-self.e), self.isint)
        if self.la is not None:
            c, a, d = self.la
            r.la = (-c, a, z3.simplify(-d))
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if _isnan(o) or _isinf(o):
            return np.float64(-o)
        return self.__add__(-o)

    def __rsub__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        return (-self).__add__(o)

    def _sign_branch(self):
        if ENGINE.branch(self.e == 0):
            return 0
        return 1 if ENGINE.branch(self.e > 0) else -1

    def __mul__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        if _isnan(o):
            return np.float64("nan")
        if _isinf(o):
            s = self._sign_branch()
            return np.float64("nan") if s == 0 else np.float64(s * o)
        i = self.isint and _isintlike(o)
        if isinstance(o, SymNum):
            if self.lg is not None and o.lg is not None:
                return mk_pow10(self.lg[0] * o.lg[0], self.lg[1] + o.lg[1])
            return SymNum(z3.simplify(_ze(self, not i) * _ze(o, not i)), i)
        if o == 0:
            return 0 if i else np.float64(0.0)
        if self.lg is not None and o > 0:
            return mk_pow10(self.lg[0] * to_frac(o), self.lg[1])
        r = SymNum(z3.simplify(_ze(self, not i) * _ze(o, not i)), i)
        if self.la is not None:
            c, a, d = self.la
            r.la = (c * to_frac(o), a, z3.simplify(d * _rv(o)))
        return r

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        if _isnan(o):
            return np.float64("nan")
        if _isinf(o):
            return np.float64(0.0)
        if isinstance(o, SymNum):
            if self.lg is not None and o.lg is not None:
                return mk_pow10(self.lg[0] / o.lg[0], self.lg[1] - o.lg[1])
            if self is o or self.e.eq(o.e):
                if ENGINE.branch(o.e == 0):
                    return np.float64("nan")
                return np.float64(1.0)
            if o.lg is None and ENGINE.branch(o.e == 0):
                s = self._sign_branch()
                return np.float64("nan") if s == 0 else np.float64(s * math.inf)
            if o.lg is not None:
                inv = mk_pow10(1 / o.lg[0], -o.lg[1])
                return self * inv
            return SymNum(_div(_ze(self, True), _ze(o, True)))
        if o == 0:
            s = self._sign_branch()
            return np.float64("nan") if s == 0 else np.float64(s * math.inf)
        return (self.toreal() if self.isint else self) * (1 / to_frac(o))

    def __rtruediv__(self, o):
        o = _num(o)
        if o is NotImplemented:
            return o
        if isinstance(o, SymNum):
            return o.__truediv__(self)
        if _isnan(o):
            return np.float64("nan")
        if self.lg is not None and not _isinf(o):
            return mk_pow10(1 / self.lg[0], -self.lg[1]) * o
        if ENGINE.branch(self.e == 0):
            with np.errstate(all="ignore"):
                return np.float64(o) / np.float64(0.0)
        if _isinf(o):
            return np.float64(o) if ENGINE.branch(self.e > 0) else np.float64(-o)
        if o == 0:
            return np.float64(0.0)
        return SymNum(_div(_rv(o), _ze(self, True)))

    def toreal(self):
        return SymNum(z3.ToReal(self.e)) if self.isint else self

    def _floor_e(self):
        return self.e if self.isint else z3.ToInt(self.e)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return symmod(self, o)

    def __rmod__(self, o):
        return symmod(o, self)

    def __divmod__(self, o):
        return floordiv(self, o), symmod(self, o)

    def __rdivmod__(self, o):
        return floordiv(o, self), symmod(o, self)

    def __pow__(self, o):
        return sympow(self, o)

    def __rpow__(self, o):
        return sympow(o, self)

    def __abs__(self):
        if self.lg is not None:
            return self
        return SymNum(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)), self.isint)

    fabs = absolute = __abs__

    # -- comparison
    def _cmp(self, o, op):
        o = _num(o)
        if o is NotImplemented:
            return o
        if _isnan(o):
            return op == "!="
        if _isinf(o):
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        i = self.isint and _isintlike(o)
        a, b = _ze(self, not i), _ze(o, not i)
        e = {
            "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
            ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b,
        }[op]()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(e)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def __hash__(self):
        if self.isint:
            return hash(ENGINE.concretize_int(self))
        return 7919

    # -- conversions
    def __index__(self):
        if self.isint:
            return ENGINE.concretize_int(self)
        raise TypeError("symbolic real used as an index")

    def __int__(self):
        if _formatted(sys._getframe(1)):
            return 0
        return ENGINE.concretize_int(self.trunc_int())

    def __float__(self):
        if _formatted(sys._getframe(1)):
            return 0.0
        if self.isint:
            return float(ENGINE.concretize_int(self))
        return ENGINE.concretize_real(self)

    def trunc_int(self):
        if self.isint:
            return self
        f = z3.ToInt(self.e)
        t = z3.If(self.e >= 0, f, -z3.ToInt(-self.e))
        return mknum(z3.simplify(t), True)

    def __trunc__(self):
        return self.trunc_int()

    def floor(self):
        if self.isint:
            return self
        return mknum(z3.ToReal(z3.ToInt(self.e)))

    def ceil(self):
        if self.isint:
            return self
        return mknum(-z3.ToReal(z3.ToInt(-self.e)))

    def __floor__(self):
        return mknum(self._floor_e(), True)

    def __ceil__(self):
        return self if self.isint else mknum(-z3.ToInt(-self.e), True)

    def trunc(self):
        return self.trunc_int().toreal()

    def rint(self, nd=0):
        if self.isint:
            return self
        if nd:
            s = Fraction(10) ** int(nd)
            return (self * s).rint() / s
        r = z3.ToInt(self.e + z3.Q(1, 2))
        tie = z3.ToReal(r) == self.e + z3.Q(1, 2)
        r2 = z3.If(z3.And(tie, r % 2 != 0), r - 1, r)
        return mknum(z3.ToReal(r2))

    def __round__(self, nd=None):
        if nd is None:
            r = self.rint()
            return r if r is self else mknum(z3.simplify(z3.ToInt(r.e)), True)
        return self.rint(nd)

    def round(self, decimals=0, out=None):
        return self.rint(decimals)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        return SymBool(z3.IsInt(self.e))

    # -- elementary functions (used by numpy's object loops too)
    def sqrt(self):
        return symsqrt(self)

    def square(self):
        return self * self

    def log10(self):
        return symlog10(self)

    def log(self):
        return symuf("log", self)

    def exp(self):
        return symuf("exp", self)

    def sin(self):
        return symuf("sin", self)

    def cos(self):
        return symuf("cos", self)

    def tan(self):
        return symuf("tan", self)

    def arcsin(self):
        return symuf("arcsin", self)

    def arccos(self):
        return symuf("arccos", self)

    def arctan(self):
        return symuf("arctan", self)

    def radians(self):
        return self * to_frac(math.pi / 180.0)

    deg2rad = radians

    def degrees(self):
        return self * (1 / to_frac(math.pi / 180.0))

    rad2deg = degrees

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def sign(self):
        return SymNum(z3.If(self.e > 0, _ze(1, not self.isint), z3.If(self.e < 0, _ze(-1, not self.isint), _ze(0, not self.isint))), self.isint)

    def logical_not(self):
        return self == 0

    def copy(self):
        return self

    def astype(self, dt, **kw):
        from . import symnp

        return symnp.cast_scalar(self, dt)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sym(%s)" % self.e

    __str__ = __format__ = lambda self, spec="": "<sym>"

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return np.dtype(int if self.isint else float)

    def min(self):
        return self

    max = sum = mean = min

    def tolist(self):
        return self


def mknum(e, isint=False):
    e = z3.simplify(e)
    return SymNum(e, isint)


def _div(a, b):
    """Exact quotient; b is known nonzero on this path."""
    c = _const(z3.simplify(b))
    if c is not None:
        return z3.simplify(a * z3.RealVal(1 / Fraction(c)))
    return z3.simplify(a / b)


def ite(c, a, b):
    """If-then-else without forking."""
    c = _b(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, (bool, np.bool_)):
        ae = a.e if isinstance(a, SymBool) else z3.BoolVal(bool(a))
        be = b.e if isinstance(b, SymBool) else z3.BoolVal(bool(b))
        return SymBool(z3.simplify(z3.If(c.e, ae, be)))
    if _isnan(a) or _isnan(b) or _isinf(a) or _isinf(b):
        return a if c else b
    i = _isintlike(a) and _isintlike(b)
    return mknum(z3.If(c.e, _ze(a, not i), _ze(b, not i)), i)


def symmax(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    if _isnan(a) or _isnan(b):
        return np.float64("nan")
    return ite(a >= b, a, b)


def symmin(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    if _isnan(a) or _isnan(b):
        return np.float64("nan")
    return ite(a <= b, a, b)


def floordiv(a, b):
    a, b = _num(a), _num(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if _isnan(a) or _isnan(b) or _isinf(a):
        return np.float64("nan")
    if _isinf(b):
        return symfloor(a / b)
    if isinstance(b, SymNum):
        if ENGINE.branch(b.e == 0):
            return np.float64("nan")
        if _isintlike(a) and b.isint:
            if not ENGINE.branch(b.e > 0):
                a, b = -a, -b
            return mknum(_ze(a, False) / b.e, True)
        return symfloor(a / b)
    if b == 0:
        return np.float64("nan")
    if _isintlike(a) and _isintlike(b):
        if b < 0:
            a, b = -a, -b
        return mknum(_ze(a, False) / z3.IntVal(int(b)), True)
    return symfloor(a / b)


def symfloor(x):
    if isinstance(x, SymNum):
        return x.floor()
    return np.floor(x)


def symmod(a, b):
    q = floordiv(a, b)
    if q is NotImplemented:
        return q
    if _isnan(q):
        return q
    return a - b * q


# ---- powers, roots, logarithms -------------------------------------------
_UFS = {}


def _uf(name):
    if name not in _UFS:
        _UFS[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return _UFS[name]


def canon(e):
    return z3.simplify(e, som=True)


def _memo(kind, e):
    """Memo key by structural identity of a canonical term."""
    for k, v in ENGINE.memo.get(kind, []):
        if k.eq(e):
            return v
    return None


def _memo_put(kind, e, v):
    ENGINE.memo.setdefault(kind, []).append((e, v))


def symsqrt(x):
    x = _num(x)
    if not isinstance(x, SymNum):
        return np.sqrt(x)
    if x.lg is not None:
        c, ex = x.lg
        # sqrt(c*10^e) = 10^(e/2 + log10(c)/2)
        r = math.sqrt(c)
        return mk_pow10(to_frac(r), ex / 2)
    xe = _ze(x, True)
    if not ENGINE.branch(xe >= 0):
        return np.float64("nan")
    ce = canon(xe)
    v = _memo("sqrt", ce)
    if v is None:
        y = ENGINE.fresh_real("sqrt")
        ENGINE.sqrt_args[y.decl().name()] = ce
        ENGINE.axiom(z3.And(y >= 0, y * y == xe))
        v = SymNum(y)
        _memo_put("sqrt", ce, v)
        # monotonicity against the other roots on this path
        for k, w in ENGINE.memo.get("sqrt", [])[:-1]:
            ENGINE.axiom(z3.And(z3.Implies(k <= ce, w.e <= y), z3.Implies(ce <= k, y <= w.e)))
    return v


def mk_pow10(coef, ex):
    """coef * 10**ex as a symbolic positive number."""
    ex = canon(ex)
    c = _const(ex)
    if c is not None:
        try:
            return np.float64(float(coef) * 10.0 ** float(c))
        except OverflowError:
            return np.float64("inf")
    f = _uf("pow10")
    app = f(ex)
    if _memo("pow10", ex) is None:
        _memo_put("pow10", ex, True)
        ENGINE.axiom(app > 0)
        ENGINE.axiom(z3.And(z3.Implies(ex >= 0, app >= 1), z3.Implies(ex <= 0, app <= 1)))
        for k, _ in ENGINE.memo["pow10"][:-1]:
            ENGINE.axiom(z3.And(z3.Implies(k < ex, f(k) < app), z3.Implies(ex < k, app < f(k)),
                                 z3.Implies(k == ex, f(k) == app)))
        for k, w in ENGINE.memo.get("log10", []):
            ENGINE.axiom(_exp_log_link(ex, app, k, w.e))
    e = app if coef == 1 else z3.RealVal(coef) * app
    return SymNum(e, False, lg=(Fraction(coef), ex))


def _exp_log_link(x, px, y, ly):
    """px = 10**x, ly = log10(y): order on one side is order on the other."""
    return z3.And(z3.Implies(px < y, x < ly), z3.Implies(y < px, ly < x), z3.Implies(px == y, x == ly))


def pow10(x):
    """10**x for symbolic x."""
    if x.la is not None:
        c, a, d = x.la
        dc = _const(canon(d))
        if dc is not None and abs(c.limit_denominator(64) - c) < Fraction(1, 10**9) and c.limit_denominator(64).denominator == 1:
            n = int(c.limit_denominator(64))
            p = sympow(a, n)
            return p * to_frac(10.0 ** float(dc)) if dc != 0 else p
        cc = c.limit_denominator(64)
        if abs(cc - c) < Fraction(1, 10**9) and cc.denominator == 1:
            return sympow(a, int(cc)) * mk_pow10(Fraction(1), d)
        if abs(cc - c) < Fraction(1, 10**9) and cc.denominator == 2:
            p = sympow(symsqrt(a), int(cc * 2))
            return p * (to_frac(10.0 ** float(dc)) if dc is not None else mk_pow10(Fraction(1), d))
    return mk_pow10(Fraction(1), _ze(x, True))


def symlog10(x):
    x = _num(x)
    if not isinstance(x, SymNum):
        with np.errstate(all="ignore"):
            return np.log10(x)
    if x.lg is not None:
        c, ex = x.lg
        return mknum(ex + _rv(to_frac(math.log10(c)) if c != 1 else 0))
    xe = _ze(x, True)
    if not ENGINE.branch(xe > 0):
        if ENGINE.branch(xe == 0):
            return np.float64("-inf")
        return np.float64("nan")
    ce = canon(xe)
    v = _memo("log10", ce)
    if v is None:
        f = _uf("log10")
        app = f(ce)
        ENGINE.axiom(z3.And(z3.Implies(ce >= 1, app >= 0), z3.Implies(ce <= 1, app <= 0),
                             z3.Implies(app == 0, ce == 1)))
        for k, w in ENGINE.memo.get("log10", []):
            ENGINE.axiom(z3.And(z3.Implies(k < ce, w.e < app), z3.Implies(ce < k, app < w.e),
                                 z3.Implies(k == ce, app == w.e)))
        for k, _ in ENGINE.memo.get("pow10", []):
            ENGINE.axiom(_exp_log_link(k, _uf("pow10")(k), ce, app))
        v = SymNum(app, False, la=(Fraction(1), x.toreal(), z3.RealVal(0)))
        _memo_put("log10", ce, v)
    return v


def sympow(a, b):
    a, b = _num(a), _num(b)
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if _isnan(a) or _isnan(b):
        return np.float64("nan")
    if isinstance(b, SymNum):
        cb = _const(z3.simplify(b.e))
        if cb is not None:
            b = cb if b.isint else float(cb)
    if isinstance(b, SymNum):
        if not isinstance(a, SymNum):
            if a == 10:
                return pow10(b)
            if a == 1:
                return np.float64(1.0)
            if b.isint and isinstance(a, (int, np.integer)):
                return a ** ENGINE.concretize_int(b)
            if a > 0:
                return pow10(b * to_frac(math.log10(a)))
        if b.isint:
            return sympow(a, ENGINE.concretize_int(b))
        raise Unsupported("symbolic ** symbolic")
    # concrete exponent
    if not isinstance(a, SymNum):
        return np.float64(a) ** b
    fb = to_frac(b)
    if a.lg is not None:
        c, ex = a.lg
        nc = Fraction(1) if c == 1 else to_frac(float(c) ** float(fb))
        return mk_pow10(nc, ex * z3.RealVal(fb))
    if fb.denominator == 1:
        n = int(fb)
        if n == 0:
            return 1 if (a.isint and _isintlike(b)) else np.float64(1.0)
        if n < 0:
            return 1.0 / sympow(a, -n)
        r = a
        for _ in range(n - 1):
            r = r * a
        if a.isint and not _isintlike(b):
            r = r.toreal()
        return r
    if fb.denominator == 2:
        s = symsqrt(a)
        if not isinstance(s, SymNum):
            return np.float64(s) ** (2 * float(fb))
        return sympow(s, int(fb * 2))
    # general real power of a nonnegative base: monotone uninterpreted
    ae = _ze(a, True)
    if not ENGINE.branch(ae >= 0):
        return np.float64("nan")
    if ENGINE.branch(ae == 0):
        return np.float64(0.0) if fb > 0 else np.float64("inf")
    kind = "pow_%s" % fb
    ce = canon(ae)
    v = _memo(kind, ce)
    if v is None:
        f = _uf("pow_%d_%d" % (fb.numerator, fb.denominator))
        app = f(ce)
        ENGINE.axiom(app > 0)
        up = fb > 0
        one = z3.And(z3.Implies(ce > 1, app > 1 if up else app < 1),
                     z3.Implies(ce < 1, app < 1 if up else app > 1),
                     z3.Implies(ce == 1, app == 1))
        ENGINE.axiom(one)
        for k, w in ENGINE.memo.get(kind, []):
            ENGINE.axiom(z3.And(z3.Implies(k < ce, (w.e < app) if up else (w.e > app)),
                                 z3.Implies(ce < k, (app < w.e) if up else (app > w.e)),
                                 z3.Implies(k == ce, app == w.e)))
        v = SymNum(app)
        _memo_put(kind, ce, v)
    return v


def _trig_rules(name, ce):
    """sin or cos of a term: whole quarter turns taken out, sign, and inverse functions."""
    c, rest = Fraction(0), []
    for t in (ce.children() if z3.is_add(ce) else [ce]):
        q = _const(t)
        if q is None:
            rest.append(t)
        else:
            c += Fraction(q)
    h = math.pi / 2
    k = round(float(c) / h)
    if k and rest and abs(float(c) - k * h) < 1e-11 * max(1.0, abs(float(c))):
        r = SymNum(canon(z3.Sum(rest) if len(rest) > 1 else rest[0]))
        m = k % 4
        if name == "cos":
            w = symuf("cos" if m % 2 == 0 else "sin", r)
            return w if m in (0, 3) else -w
        w = symuf("sin" if m % 2 == 0 else "cos", r)
        return w if m in (0, 1) else -w
    ne = canon(-ce)
    for k, w in ENGINE.memo.get(name, []):
        if k.eq(ne) or ratfun.same(ENGINE, k, ne, 1e-12):
            return w if name == "cos" else -w
    for e, sg in ((ce, 1), (ne, -1)):
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name() in ("arcsin", "arccos"):
            a = SymNum(e.arg(0))
            if e.decl().name() == "arc" + name:
                return a if (name == "cos" or sg == 1) else -a
            w = symsqrt(1 - a * a)
            return w if (name == "cos" or sg == 1) else -w
    return None


_RANGE = {"sin": (-1, 1), "cos": (-1, 1)}


def symuf(name, x):
    """Uninterpreted elementary function with sound axioms."""
    x = _num(x)
    if not isinstance(x, SymNum):
        return getattr(np, name)(x)
    xe = _ze(x, True)
    if name == "log":
        if not ENGINE.branch(xe > 0):
            return np.float64("-inf") if ENGINE.branch(xe == 0) else np.float64("nan")
    if name in ("arcsin", "arccos"):
        if not ENGINE.branch(z3.And(xe >= -1, xe <= 1)):
            return np.float64("nan")
    ce = canon(xe)
    c = _const(ce)
    if c is not None:
        return np.float64(getattr(np, name)(float(c)))
    v = _memo(name, ce)
    if v is not None:
        return v
    if name == "tan":
        s, cc = symuf("sin", x), symuf("cos", x)
        return s / cc
    # the same argument up to float rounding of its coefficients is the same application
    for k, w in ENGINE.memo.get(name, []):
        if ratfun.same(ENGINE, k, ce, 1e-12):
            return w
    if name in ("sin", "cos"):
        v = _trig_rules(name, ce)
        if v is not None:
            return v
    f = _uf(name)
    app = f(ce)
    v = SymNum(app)
    _memo_put(name, ce, v)
    A = ENGINE.axiom
    if name in ("sin", "cos"):
        A(z3.And(app >= -1, app <= 1))
        so = _uf("sin")(ce)
        co = _uf("cos")(ce)
        A(so * so + co * co == 1)
        h, pi = _rv(math.pi / 2 - 1e-12), _rv(math.pi - 1e-12)
        if name == "cos":
            A(z3.Implies(z3.And(ce > -h, ce < h), app > 0))
        else:
            A(z3.And(z3.Implies(z3.And(ce > 0, ce < pi), app > 0), z3.Implies(z3.And(ce > -pi, ce < 0), app < 0)))
    elif name == "exp":
        A(z3.And(app > 0, z3.Implies(ce >= 0, app >= 1 + ce), z3.Implies(ce <= 0, app <= 1),
                 app >= 1 + ce))
        for k, w in ENGINE.memo["exp"][:-1]:
            A(z3.And(z3.Implies(k < ce, w.e < app), z3.Implies(ce < k, app < w.e), z3.Implies(k == ce, w.e == app)))
    elif name == "log":
        A(z3.And(z3.Implies(ce >= 1, app >= 0), z3.Implies(ce <= 1, app <= 0), app <= ce - 1))
        for k, w in ENGINE.memo["log"][:-1]:
            A(z3.And(z3.Implies(k < ce, w.e < app), z3.Implies(ce < k, app < w.e), z3.Implies(k == ce, w.e == app)))
    elif name == "arccos":
        pi = _rv(math.pi)
        A(z3.And(app >= 0, app <= pi))
        A(_uf("cos")(app) == ce)
        for k, w in ENGINE.memo[name][:-1]:
            A(z3.And(z3.Implies(k < ce, w.e > app), z3.Implies(ce < k, app > w.e), z3.Implies(k == ce, w.e == app)))
    elif name == "arcsin":
        pi2 = _rv(math.pi / 2)
        A(z3.And(app >= -pi2, app <= pi2))
        A(_uf("sin")(app) == ce)
        for k, w in ENGINE.memo[name][:-1]:
            A(z3.And(z3.Implies(k < ce, w.e < app), z3.Implies(ce < k, app < w.e), z3.Implies(k == ce, w.e == app)))
    elif name == "arctan":
        pi2 = _rv(math.pi / 2)
        A(z3.And(app > -pi2, app < pi2))
        for k, w in ENGINE.memo[name][:-1]:
            A(z3.And(z3.Implies(k < ce, w.e < app), z3.Implies(ce < k, app < w.e), z3.Implies(k == ce, w.e == app)))
    return v


def symatan2(y, x):
    """Abstract two-argument arctangent: range, quadrant and sign facts, and r*(cos, sin) = (x, y)."""
    ye, xe = canon(_ze(_num(y), True)), canon(_ze(_num(x), True))
    key = (ye, xe)
    for (a, b), w in ENGINE.memo.get("arctan2", []):
        if a.eq(ye) and b.eq(xe):
            return w
    f = z3.Function("uf_arctan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
    app = f(ye, xe)
    v = SymNum(app)
    ENGINE.memo.setdefault("arctan2", []).append((key, v))
    pi, h = _rv(math.pi), _rv(math.pi / 2)
    A = ENGINE.axiom
    A(z3.And(app >= -pi, app <= pi,
             z3.Implies(ye > 0, app > 0), z3.Implies(ye < 0, app < 0),
             z3.Implies(z3.And(ye == 0, xe >= 0), app == 0), z3.Implies(z3.And(ye == 0, xe < 0), app == pi),
             z3.Implies(xe > 0, z3.And(app < h, app > -h)),
             z3.Implies(z3.And(xe < 0, ye > 0), app > h), z3.Implies(z3.And(xe < 0, ye < 0), app < -h)))
    return v
