"""Drives the harnesses of one property: symbolic exploration, replay of
counterexamples on the unpatched code, evidence."""

import argparse
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

import numpy as np  # noqa: E402

from symx import core, ratfun, symnp  # noqa: E402
from symx.core import Budget, Engine, PathEnd, SymBool, SymNum, Unsupported, is_sym  # noqa: E402

STRICT = os.environ.get("VERIF_STRICT") == "1"
REPLAYS = os.path.join(VERIF, "replays")


class Violation(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


# ---- patching ---------------------------------------------------------------
class ModProxy:
    """A module with some attributes replaced."""

    def __init__(self, real, over):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        return getattr(self.__dict__["_real"], n)


FUNC_MODELS = {}     # id(real object) -> (real object, model)
_PATCHED = []
PATCH_PREFIX = ["rubin_sim"]
EXTRA_MODULES = []   # further module names to patch


def register_model(real, mod):
    FUNC_MODELS[id(real)] = (real, mod)


def patch():
    import numpy

    if _PATCHED:
        return
    from symx import scimodels

    scimodels.install(register_model)
    mods = [m for n, m in list(sys.modules.items()) if m is not None and (
        n.split(".")[0] in PATCH_PREFIX or n in EXTRA_MODULES)]
    for m in mods:
        d = getattr(m, "__dict__", None)
        if d is None:
            continue
        for k, v in list(d.items()):
            new = None
            if v is numpy:
                new = symnp.NP
            elif v is np.ma:
                new = symnp.NP.ma
            elif v is math:
                new = symnp.MATH
            elif id(v) in FUNC_MODELS and FUNC_MODELS[id(v)][0] is v:
                new = FUNC_MODELS[id(v)][1]
            elif isinstance(v, np.ufunc):
                new = symnp.UfuncProxy(v)
            elif callable(v) and not isinstance(v, type) and getattr(v, "__module__", None) in ("numpy", "math") and k != "__builtins__":
                nm = getattr(v, "__name__", "")
                if getattr(np, nm, None) is v:
                    new = getattr(symnp.NP, nm)
                elif getattr(math, nm, None) is v:
                    new = getattr(symnp.MATH, nm)
            if new is not None:
                _PATCHED.append((d, k, v, True))
                d[k] = new
        for k, new in (("float", symnp.symfloat), ("int", symnp.symint)):
            if k not in d:
                _PATCHED.append((d, k, None, False))
                d[k] = new


def unpatch():
    for d, k, v, had in reversed(_PATCHED):
        if had:
            d[k] = v
        else:
            d.pop(k, None)
    _PATCHED.clear()


# ---- contexts ---------------------------------------------------------------
class Ctx:
    """What a harness sees; the same harness code runs symbolically and concretely."""

    symbolic = False

    def reals(self, name, n, lo, hi, grid=64):
        return [self.real("%s%d" % (name, i), lo, hi, grid) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int("%s%d" % (name, i), lo, hi) for i in range(n)]

    def close(self, a, b, label, tol=1e-7, rel=True):
        """a equals b up to tol (relative to |b| and absolutely)."""
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if a is np.ma.masked or b is np.ma.masked:
            self.check(a is b, label, "%r vs %r" % (a, b))
            return
        sa, sb = is_sym(a), is_sym(b)
        if not sa and not sb:
            self.check(conc_close(a, b, tol), label, "got %r, expected %r" % (a, b))
            return
        for x in (a, b):
            if not is_sym(x):
                try:
                    fx = float(x)
                except (TypeError, ValueError):
                    self.check(False, label, "got %r, expected %r" % (a, b))
                    return
                if fx != fx or fx in (math.inf, -math.inf):
                    self.check(False, label, "got %r, expected %r" % (a, b))
                    return
        d = a - b
        if not is_sym(d):
            self.check(abs(d) <= tol, label, "got %r, expected %r" % (a, b))
            return
        import z3

        s = z3.simplify(d.e, som=True)
        v = core._const(s)
        if v is not None and abs(v) <= Fraction(1, 10**12):
            self.check(True, label)
            return
        if ratfun.same(self.eng, core._ze(a, True), core._ze(b, True)):
            self.nchecks += 1
            return
        bb = core.symmax(abs(b), 1.0) if rel else 1.0
        t = bb * tol
        self.check(core.sand(d <= t, -d <= t), label, "values differ")

    def closes(self, a, b, label, tol=1e-7):
        a, b = list(a), list(b)
        self.check(len(a) == len(b), label + " (length)", "%d vs %d" % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            self.close(x, y, "%s[%d]" % (label, i), tol)

    def eq(self, a, b, label):
        r = a == b
        if isinstance(r, np.ndarray):
            r = bool(np.all(r))
        self.check(r, label, "%r vs %r" % (a, b) if not (is_sym(a) or is_sym(b)) else "")

    def call(self, fn, *a, **k):
        """(result, None) or (None, exception) of the code under test."""
        try:
            return fn(*a, **k), None
        except Unsupported:
            raise
        except Exception as e:  # noqa: BLE001
            return None, e

    def must_not_raise(self, fn, *a, **k):
        return fn(*a, **k)


def conc_close(a, b, tol):
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= tol * max(1.0, abs(fb))


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, eng, runner):
        self.eng = eng
        self.runner = runner
        self.nchecks = 0

    def real(self, name, lo, hi, grid=64):
        return self.eng.input_real(name, lo, hi, grid)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.eng.input_int(name, lo, hi)

    def cint(self, name, lo, hi):
        """Integer input enumerated by forking (a concrete int on each path)."""
        x = self.int(name, lo, hi)
        return self.eng.concretize_int(x) if is_sym(x) else x

    def choice(self, name, options):
        return options[self.cint(name, 0, len(options) - 1)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def arr(self, vals, kind="f"):
        if kind in ("U", "O", "b"):
            return np.array(list(vals))
        return symnp.sym_array(list(vals), kind=kind) if len(vals) else symnp.obj1d([], kind)

    def rec(self, cols, kinds=None):
        """Structured array from a dict of columns."""
        kinds = kinds or {}
        n = len(next(iter(cols.values())))
        dt = []
        for c, v in cols.items():
            k = kinds.get(c, "f")
            if k == "U":
                dt.append((c, "<U20"))
            elif k == "b":
                dt.append((c, bool))
            elif k in ("F", "I"):  # concrete values, kept as machine numbers
                dt.append((c, float if k == "F" else int))
            else:
                dt.append((c, object))
        out = np.empty(n, dtype=dt)
        for c, v in cols.items():
            k = kinds.get(c, "f")
            if k in ("U", "b", "F", "I"):
                out[c] = v
            else:
                out[c] = symnp.base(self.arr(v, k))
        return out.view(symnp.SymArray)

    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c)
        elif not c:
            raise PathEnd()

    def check(self, cond, label, detail=""):
        self.nchecks += 1
        if isinstance(cond, SymNum):
            cond = cond != 0
        r, info = self.eng.prove(cond)
        if r == "holds":
            return
        if r == "unknown":
            self.runner.inconclusive(label)
            return
        neg, m = info
        self.runner.counterexample(self.eng, neg, m, label, detail)

    def skip(self):
        raise PathEnd()


class ConcCtx(Ctx):
    def __init__(self, values):
        self.values = values
        self.nchecks = 0

    def _v(self, name, lo, hi):
        v = self.values.get(name)
        if v is None or v < lo or v > hi:
            return lo
        return v

    def real(self, name, lo, hi, grid=64):
        if isinstance(self.values, Draw):
            return np.float64(float(self.values.draw(name, lo, hi, False)))
        return np.float64(float(self._v(name, lo, hi)))

    def int(self, name, lo, hi):
        if isinstance(self.values, Draw):
            return self.values.draw(name, lo, hi, True)
        return int(self._v(name, lo, hi))

    cint = int

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        return self.choice(name, [False, True])

    def arr(self, vals, kind="f"):
        if kind == "f":
            return np.array([float(v) for v in vals], dtype=float)
        if kind == "i":
            return np.array([int(v) for v in vals], dtype=int)
        return np.array(list(vals))

    def rec(self, cols, kinds=None):
        kinds = kinds or {}
        n = len(next(iter(cols.values())))
        tp = {"U": "<U20", "f": float, "i": int, "b": bool, "F": float, "I": int}
        out = np.empty(n, dtype=[(c, tp[kinds.get(c, "f")]) for c in cols])
        for c, v in cols.items():
            out[c] = v
        return out

    def assume(self, c):
        if not c:
            raise PathEnd()

    def check(self, cond, label, detail=""):
        self.nchecks += 1
        if not bool(cond):
            raise Violation(label, detail)

    def skip(self):
        raise PathEnd()


# ---- harness registry -------------------------------------------------------
class Harness:
    def __init__(self, prop, name, fn, quick, thorough, functions, bounds, budget, validate):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.functions = functions
        self.bounds = bounds
        self.budget = budget
        self.validate = validate


REG = {}
ASSUMPTIONS = {}


def harness(prop, functions, bounds, quick=None, thorough=None, budget=60, name=None, validate=40):
    """Register fn(ctx, **params); one task per params dict."""

    def deco(fn):
        nm = name or fn.__name__
        REG.setdefault(prop, {})[nm] = Harness(
            prop, nm, fn, quick or [{}], (thorough if thorough is not None else quick) or [{}], functions, bounds,
            budget, validate)
        return fn

    return deco


def assumptions(prop, *texts):
    ASSUMPTIONS.setdefault(prop, []).extend(texts)


def load(prop):
    importlib.import_module("harness." + prop.lower())
    return REG.get(prop, {})


# ---- running one task -------------------------------------------------------
class Alarm(BaseException):
    pass


def _alarm(sig, frm):
    raise Alarm()


def unreadable(e, tb):
    """Whether a harness failed reading a result (a missing entry, or nothing where a value is due)."""
    if not tb or os.path.basename(os.path.dirname(tb[-1].filename)) != "harness":
        return False
    if isinstance(e, (KeyError, IndexError)):
        return True
    return isinstance(e, (TypeError, AttributeError)) and "'NoneType' object" in str(e) or isinstance(e, ValueError) and "no field of name" in str(e)


def run_concrete(fn, values, params, limit=60):
    """Outcome of a harness on the unpatched code: ('ok'|'skip'|'violation'|'timeout', label, detail)."""
    saved = core.ENGINE
    core.set_engine(None)
    patched = bool(_PATCHED)
    unpatch()
    old = signal.getitimer(signal.ITIMER_REAL)
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            c = ConcCtx(values)
            try:
                fn(c, **params)
                return "ok", "", ""
            except PathEnd:
                return "skip", "", ""
            except Violation as v:
                return "violation", v.label, v.detail
            except Alarm:
                return "timeout", "does not terminate", ""
            except Exception as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                # attribute to the code under test only
                where = [f for f in tb if "/rubin_sim/" in f.filename]
                if not where and unreadable(e, tb):
                    return "violation", "the result lacks what the property asks of it", "%s: %s at %s:%d" % (
                        type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
                if not where:
                    return "harness-error", repr(e), traceback.format_exc()[-1500:]
                return "violation", "unexpected %s" % type(e).__name__, "%s at %s:%d" % (e, where[-1].filename, where[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(old[0] - (time.time() - t0), 1) if old[0] else 0)
        core.set_engine(saved)
        if patched:
            patch()


class Draw(dict):
    """Inputs drawn as a harness asks for them."""

    def __init__(self, rnd):
        super().__init__()
        self.rnd = rnd

    def draw(self, name, lo, hi, whole):
        if name not in self:
            if whole:
                self[name] = self.rnd.randint(int(lo), int(hi))
            else:
                self[name] = Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(self.rnd.randrange(1, 1 << 20), 1 << 20)
        return self[name]


class Runner:
    def __init__(self, h, params, budget, seed, nvalidate):
        self.h = h
        self.params = params
        self.violations = []
        self.inconc = []
        self.spurious = []
        self.unsupported = []
        self.samples = []
        self.validated = 0
        self.harness_errors = []
        self.exhaustive = True
        self.checks_reached = 0
        self.nvalidate = nvalidate
        self.completed = 0
        self.eng = Engine(deadline=time.time() + budget, seed=seed)
        self.budget = budget
        self.searched = 0
        self.rnd = random.Random(seed)

    def inconclusive(self, label):
        self.inconc.append(label)
        self.exhaustive = False
        self.confirm(None, label)

    def confirm(self, vals, label, runs=8, limit=64):
        """The solver gave no usable input for an assertion it could not discharge: look for one that fails on
        the real code near this path (never used to conclude that the assertion holds)."""
        if vals is None:
            try:
                vals = self._vals()
            except (PathEnd, Budget, Unsupported):
                vals = None
        if vals is None:
            return
        for k in range(runs):
            if self.searched >= limit:
                return
            self.searched += 1
            v2 = {}
            for name, (_, kind, lo, hi, g) in self.eng.inputs.items():
                if kind == "real" and lo is not None and hi is not None and (k % 2 == 0 or self.rnd.random() < 0.5):
                    lo_, hi_ = Fraction(lo), Fraction(hi)
                    v2[name] = lo_ + (hi_ - lo_) * Fraction(self.rnd.randrange(1, 4096), 4096)
                elif name in vals:
                    v2[name] = vals[name]
            out = run_concrete(self.h.fn, v2, self.params, limit=10)
            if out[0] == "violation":
                self.violations.append({"label": out[1], "detail": out[2], "sym_label": label, "inputs": enc(v2)})
                raise StopTask()

    def sweep(self, runs=80, seconds=15.0):
        """The paths were not all decided: look for an input that fails on the real code (reported only when two do;
        never used to conclude that a property holds)."""
        t0, found = time.time(), None
        for _ in range(runs):
            if time.time() - t0 > seconds:
                return
            vals = Draw(self.rnd)
            out = run_concrete(self.h.fn, vals, self.params, limit=10)
            if out[0] == "violation":
                if found:
                    out, vals = found
                    self.violations.append({"label": out[1], "detail": out[2], "sym_label": "undecided paths", "inputs": enc(dict(vals))})
                    return
                found = (out, vals)

    def counterexample(self, eng, neg, m, label, detail):
        vals = eng.nice_inputs(m, neg)
        tried = []
        for k in range(3):
            out = run_concrete(self.h.fn, vals, self.params)
            tried.append(out)
            if out[0] == "violation":
                self.violations.append({"label": out[1], "detail": out[2], "sym_label": label,
                                        "inputs": enc(vals)})
                raise StopTask()
            # another model
            vals2 = perturb(eng, neg, vals)
            if vals2 is None:
                break
            vals = vals2
        self.spurious.append({"label": label, "detail": str(detail)[:300], "outcomes": [list(t) for t in tried], "inputs": enc(vals)})
        self.exhaustive = False
        self.confirm(vals, label)

    def run(self):
        import z3

        eng = self.eng
        core.set_engine(eng)
        eng.sym_active = True
        patch()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.budget + 30)
        t0 = time.time()
        stop = False
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                while True:
                    eng.start_path()
                    ctx = SymCtx(eng, self)
                    done = False
                    try:
                        self.h.fn(ctx, **self.params)
                        done = True
                    except PathEnd:
                        eng.stats.infeasible += 1
                    except StopTask:
                        stop = True
                    except Budget:
                        self.exhaustive = False
                        stop = True
                    except Exception as e:  # noqa: BLE001
                        if isinstance(e, AssertionError) and "replay divergence" in str(e) or "replay divergence" in str(e):
                            self.exhaustive = False
                            self.unsupported.append("replay divergence: " + str(e)[:300])
                            stop = True
                        try:
                            self.on_exception(e)
                        except StopTask:
                            stop = True
                    if done:
                        self.completed += 1
                        self.checks_reached += ctx.nchecks
                        try:
                            self.validate_path(ctx)
                        except StopTask:
                            stop = True
                        except (Budget, PathEnd):
                            pass
                    eng.stats.paths += 1
                    if stop or not eng.next_path():
                        break
        except Alarm:
            self.exhaustive = False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            unpatch()
            core.set_engine(None)
        if eng.nonexhaustive:
            self.exhaustive = False
        if not self.exhaustive and not self.violations:
            signal.signal(signal.SIGALRM, _alarm)
            self.sweep()
        s = eng.stats
        return {
            "harness": self.h.name, "params": self.params, "paths": s.paths, "completed": self.completed,
            "branches": s.branches, "forced": s.forced, "queries": s.queries, "solver_s": round(s.solver_s, 3),
            "assert_queries": s.assert_queries, "assert_unsat": s.assert_unsat, "assert_trivial": s.assert_trivial,
            "unknown": s.unknown, "infeasible": s.infeasible, "validated": self.validated,
            "exhaustive": self.exhaustive, "violations": self.violations, "inconclusive": self.inconc[:10],
            "n_inconclusive": len(self.inconc), "spurious": self.spurious[:5], "n_spurious": len(self.spurious),
            "unsupported": self.unsupported[:5], "n_unsupported": len(self.unsupported),
            "concretised": len(eng.nonexhaustive), "samples": self.samples[:2],
            "harness_errors": self.harness_errors[:3], "checks": self.checks_reached,
            "wall_s": round(time.time() - t0, 2),
        }

    def _vals(self, nice=True):
        eng = self.eng
        m = eng.get_model()
        if m is None:
            return None
        return eng.nice_inputs(m, None, tries=nice)

    def on_exception(self, e):
        """The code (or a missing model) raised: decide on the real code."""
        self.exhaustive_before = self.exhaustive
        try:
            vals = self._vals()
        except (PathEnd, Budget):
            return
        except Unsupported:
            vals = None
        if vals is None:
            return
        out = run_concrete(self.h.fn, vals, self.params)
        if out[0] == "violation":
            self.violations.append({"label": out[1], "detail": out[2], "sym_label": "exception %r" % e, "inputs": enc(vals)})
            raise StopTask()
        if out[0] == "harness-error":
            self.harness_errors.append(out[2])
        self.exhaustive = False
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
        self.unsupported.append("%s: %s @ %s" % (type(e).__name__, str(e)[:200], " < ".join(reversed(where))))
        # sample a few more inputs of this path on the real code
        for k in range(6):
            v2 = perturb(self.eng, None, vals, k)
            if v2 is None:
                break
            out = run_concrete(self.h.fn, v2, self.params)
            vals = v2
            if out[0] == "violation":
                self.violations.append({"label": out[1], "detail": out[2], "sym_label": "exception %r" % e, "inputs": enc(v2)})
                raise StopTask()
        self.confirm(vals, "exception %r" % e)

    def validate_path(self, ctx):
        """Replay one model of a completed path on the unpatched code."""
        n = self.completed
        if self.validated >= self.nvalidate and (n & (n - 1)) != 0:
            return
        if ctx.nchecks == 0:
            return
        try:
            vals = self.eng.nice_witness()
        except Unsupported:
            vals = None
        if vals is None:
            return
        out = run_concrete(self.h.fn, vals, self.params)
        if out[0] == "ok":
            self.validated += 1
            if len(self.samples) < 2:
                self.samples.append(enc(vals))
        elif out[0] == "violation":
            self.violations.append({"label": out[1], "detail": out[2], "sym_label": "path witness", "inputs": enc(vals)})
            raise StopTask()
        elif out[0] == "harness-error":
            self.harness_errors.append(out[2])


class StopTask(BaseException):
    pass


def perturb(eng, neg, vals, k=0):
    """A different model of the path (and negated assertion)."""
    import z3

    diffs = []
    for name, (v, kind, lo, hi, g) in eng.inputs.items():
        if name not in vals:
            continue
        val = z3.RealVal(vals[name]) if kind == "real" else z3.IntVal(int(vals[name]))
        diffs.append(v != val)
    if not diffs:
        return None
    extra = [z3.Or(*diffs)]
    if neg is not None:
        extra.append(neg)
    dl = eng.deadline
    eng.deadline = None
    try:
        r, m = eng._check(*extra, timeout=3000)
        if r != z3.sat:
            return None
        return eng.nice_inputs(m, z3.And(*extra))
    except Exception:  # noqa: BLE001
        return None
    finally:
        eng.deadline = dl


def enc(vals):
    return {k: (str(v) if isinstance(v, Fraction) else v) for k, v in vals.items()}


def dec(vals):
    return {k: Fraction(v) for k, v in vals.items()}


def _task(args):
    prop, name, params, budget, seed = args
    h = load(prop)[name]
    try:
        return Runner(h, params, budget, seed, h.validate).run()
    except BaseException as e:  # noqa: BLE001
        unpatch()
        return {"harness": name, "params": params, "crash": traceback.format_exc()[-3000:]}


# ---- known findings ---------------------------------------------------------
def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status") == "open"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = a.property
    try:
        hs = load(prop)
    except Exception:  # noqa: BLE001
        # the code under test does not import: nothing can be decided
        traceback.print_exc()
        write_evidence(prop, tier, seed, [], time.time() - t0, 0, {}, note="import failed")
        print("ERROR property=%s could not load the code under test" % prop)
        sys.exit(2)
    tasks = []
    for h in hs.values():
        if a.only and a.only not in h.name:
            continue
        for p in (h.quick if tier == "quick" else h.thorough):
            b = h.budget if tier == "quick" else h.budget * 8
            tasks.append((prop, h.name, p, b, seed))
    total = 400 if tier == "quick" else 3000
    results = []
    deadline = t0 + total
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(a.jobs, max(1, len(tasks))), maxtasksperchild=8) as pool:
        its = [(t, pool.apply_async(_task, (t,))) for t in tasks]
        for t, r in its:
            try:
                results.append(r.get(timeout=max(5, deadline - time.time())))
            except mp.TimeoutError:
                results.append({"harness": t[1], "params": t[2], "crash": "task timed out"})
            if a.v:
                rr = results[-1]
                print("%s %s: paths %s/%s q %s solver %s unsat %s triv %s val %s exh %s wall %s %s" % (
                    rr["harness"], rr["params"], rr.get("completed"), rr.get("paths"), rr.get("queries"), rr.get("solver_s"),
                    rr.get("assert_unsat"), rr.get("assert_trivial"), rr.get("validated"), rr.get("exhaustive"), rr.get("wall_s"),
                    rr.get("violations") or ""), flush=True)
        pool.terminate()
    # violations
    os.makedirs(REPLAYS, exist_ok=True)
    kf = known_findings(prop)
    nviol = 0
    for r in results:
        for v in r.get("violations", []):
            k = match_known(kf, r, v)
            if k is not None:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                v["known"] = k["what"]
                continue
            body = {"property": prop, "harness": r["harness"], "params": r["params"], "inputs": v["inputs"],
                    "label": v["label"], "detail": v["detail"]}
            name = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(REPLAYS, "%s-%s.json" % (prop, name))
            with open(path, "w") as f:
                json.dump(body, f, indent=1, default=str)
            rp = subprocess.run([sys.executable, os.path.join(VERIF, "symx", "replay.py"), path], capture_output=True,
                                text=True, timeout=300)
            if rp.returncode == 1:
                nviol += 1
                print("  harness %s %s: %s: %s" % (r["harness"], r["params"], v["label"], str(v["detail"])[:300]))
                print("  inputs %s" % (v["inputs"],))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            else:
                v["unreproduced"] = rp.stdout[-500:] + rp.stderr[-500:]
                r.setdefault("spurious", []).append({"label": v["label"], "inputs": v["inputs"], "fresh": v["unreproduced"]})
                r["n_spurious"] = r.get("n_spurious", 0) + 1
                r["exhaustive"] = False
    bad = []
    for r in results:
        if r.get("crash"):
            bad.append("%s %s: %s" % (r["harness"], r["params"], r["crash"]))
        if not r.get("exhaustive", False) and not r.get("violations"):
            bad.append("%s %s not exhaustive: %s" % (r["harness"], r["params"], {k: r.get(k) for k in (
                "n_inconclusive", "inconclusive", "n_spurious", "spurious", "unsupported", "concretised", "harness_errors", "wall_s", "paths")}))
        if r.get("completed", 0) == 0 and not r.get("violations"):
            bad.append("%s %s: no completed path (vacuous)" % (r["harness"], r["params"]))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, results, wall, nviol, hs)
    for b in bad:
        print("INCOMPLETE " + b[:3000])
    tot = lambda k: sum(r.get(k, 0) for r in results)  # noqa: E731
    print("%s %s: %d tasks, %d paths, %d branch decisions, %d queries (%.1f s solver), %d assertions discharged by the "
          "solver + %d by simplification, %d path witnesses replayed, %d violations, %.1f s" % (
              prop, tier, len(results), tot("paths"), tot("branches"), tot("queries"), tot("solver_s"),
              tot("assert_unsat"), tot("assert_trivial"), tot("validated"), nviol, wall))
    if nviol:
        sys.exit(1)
    if STRICT and bad:
        sys.exit(2)
    sys.exit(0)


def match_known(kf, r, v):
    for k in kf:
        if k["harness"] == r["harness"] and k.get("label", v["label"]) == v["label"]:
            return k
    return None


def write_evidence(prop, tier, seed, results, wall, nviol, hs, note=None):
    tot = lambda k: sum(r.get(k, 0) for r in results)  # noqa: E731
    samples = []
    for r in results:
        for s in r.get("samples", [])[:1]:
            samples.append({"harness": r["harness"], "params": str(r["params"]), "path_witness": s})
    fns = sorted({f for h in hs.values() for f in h.functions})
    cov = {
        "states": tot("completed"),
        "transitions": tot("branches") + tot("forced"),
        "traces_validated_against_impl": tot("validated"),
        "samples": samples[:12],
        "states_meaning": "symbolic paths of the real code driven to the end of their harness; each stands for every input satisfying its path condition",
        "transitions_meaning": "branch decisions of the real code settled by the solver (both sides explored when feasible)",
        "functions_encoded": fns,
        "bounds": {h.name: h.bounds for h in hs.values()},
        "tasks": [{k: r.get(k) for k in ("harness", "params", "paths", "completed", "infeasible", "queries", "solver_s",
                                         "assert_unsat", "assert_trivial", "n_inconclusive", "n_spurious", "n_unsupported", "unsupported",
                                         "concretised", "exhaustive", "wall_s", "crash")} for r in results],
        "queries_discharged": tot("queries"),
        "solver_seconds": round(tot("solver_s"), 2),
        "assertions_unsat": tot("assert_unsat"),
        "assertions_by_simplification": tot("assert_trivial"),
        "unknown_verdicts": tot("unknown"),
        "exhaustive": bool(results) and all(r.get("exhaustive", False) for r in results),
        "known_findings": [v["known"] for r in results for v in r.get("violations", []) if "known" in v],
    }
    if note:
        cov["note"] = note
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": ASSUMPTIONS.get("*", []) + ASSUMPTIONS.get(prop, []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


assumptions(
    "*",
    "Floating point numbers are modelled as exact reals (Python constants by their shortest decimal); rounding, overflow and underflow are outside the claim.",
    "NaN and infinities occur where a harness injects them or where a modelled operation produces them; symbolic inputs themselves are finite.",
    "Elementary functions (log, exp, sin, cos, fractional powers) are uninterpreted functions with monotonicity, range and inverse axioms.",
    "numpy/scipy C kernels are replaced by models in symx/symnp.py and symx/scimodels.py; ties in sorts keep input order; path witnesses are replayed on the unpatched code to validate the models.",
)

if __name__ == "__main__":
    # the registry lives in the importable module, not in __main__
    from symx import run as _run

    _run.main()
