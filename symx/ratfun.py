"""Interval bounds of terms from the input ranges, and normal forms of rational
functions (with square roots): cheap, exact decisions before the solver is asked."""

import math
from fractions import Fraction

import z3

INF = float("inf")
EPS = 1e-12


def _wid(lo, hi):
    lo = lo - abs(lo) * EPS
    hi = hi + abs(hi) * EPS
    return lo, hi


def _mul(a, b):
    v = []
    for x in a:
        for y in b:
            v.append(0.0 if x == 0 or y == 0 else x * y)
    return _wid(min(v), max(v))


def _pow(a, n):
    if n % 2 == 0:
        m = max(abs(a[0]), abs(a[1]))
        l = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
        try:
            return _wid(l ** n, m ** n)
        except OverflowError:
            return l, INF
    try:
        return _wid(a[0] ** n, a[1] ** n)
    except OverflowError:
        return -INF, INF


def _num(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def interval(eng, e):
    memo = eng.ivmemo
    k = e.get_id()
    r = memo.get(k)
    if r is not None:
        return r[1]
    iv = _interval(eng, e)
    memo[k] = (e, iv)
    return iv


def _interval(eng, e):
    v = _num(e)
    if v is not None:
        f = float(v)
        return (f, f) if Fraction(f) == v else _wid(f, f)
    if not z3.is_app(e):
        return -INF, INF
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        if e.num_args() == 0:
            nm = d.name()
            i = eng.inputs.get(nm)
            if i is not None:
                lo = -INF if i[2] is None else float(i[2])
                hi = INF if i[3] is None else float(i[3])
                return lo, hi
            a = eng.sqrt_args.get(nm)
            if a is not None:
                l, h = interval(eng, a)
                l, h = max(l, 0.0), max(h, 0.0)
                return _wid(l ** 0.5, INF if h == INF else h ** 0.5)
            return -INF, INF
        nm = d.name()
        if nm in ("sin", "cos"):
            return -1.0, 1.0
        if nm == "pow10":
            l, h = interval(eng, e.arg(0))
            try:
                return _wid(10.0 ** l if l > -300 else 0.0, 10.0 ** h if h < 300 else INF)
            except OverflowError:
                return 0.0, INF
        if nm == "exp":
            import math

            l, h = interval(eng, e.arg(0))
            return _wid(math.exp(l) if l > -600 else 0.0, math.exp(h) if h < 600 else INF)
        return -INF, INF
    if k == z3.Z3_OP_ADD:
        lo = hi = 0.0
        for c in e.children():
            l, h = interval(eng, c)
            lo, hi = lo + l, hi + h
        return _wid(lo, hi) if lo == lo and hi == hi else (-INF, INF)
    if k == z3.Z3_OP_SUB:
        cs = e.children()
        lo, hi = interval(eng, cs[0])
        for c in cs[1:]:
            l, h = interval(eng, c)
            lo, hi = lo - h, hi - l
        return _wid(lo, hi) if lo == lo and hi == hi else (-INF, INF)
    if k == z3.Z3_OP_UMINUS:
        l, h = interval(eng, e.arg(0))
        return -h, -l
    if k == z3.Z3_OP_MUL:
        cnt = {}
        for c in e.children():
            cnt.setdefault(c.get_id(), [c, 0])[1] += 1
        iv = (1.0, 1.0)
        for c, n in cnt.values():
            iv = _mul(iv, _pow(interval(eng, c), n) if n > 1 else interval(eng, c))
        return iv
    if k == z3.Z3_OP_POWER:
        n = _num(e.arg(1))
        if n is not None and n.denominator == 1 and 0 < n < 20:
            return _pow(interval(eng, e.arg(0)), int(n))
        return -INF, INF
    if k == z3.Z3_OP_DIV:
        a, b = interval(eng, e.arg(0)), interval(eng, e.arg(1))
        if b[0] > 0 or b[1] < 0:
            return _mul(a, (1 / b[1] if abs(b[1]) != INF else 0.0, 1 / b[0] if abs(b[0]) != INF else 0.0))
        return -INF, INF
    if k == z3.Z3_OP_TO_REAL:
        return interval(eng, e.arg(0))
    if k == z3.Z3_OP_ITE:
        a, b = interval(eng, e.arg(1)), interval(eng, e.arg(2))
        return min(a[0], b[0]), max(a[1], b[1])
    return -INF, INF


def decide(eng, c):
    """True, False or None for a comparison, from the input ranges alone."""
    if z3.is_not(c):
        r = decide(eng, c.arg(0))
        return None if r is None else not r
    if z3.is_and(c) or z3.is_or(c):
        rs = [decide(eng, x) for x in c.children()]
        stop = z3.is_or(c)
        if stop in rs:
            return stop
        return None if None in rs else (not stop)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    x, y = c.arg(0), c.arg(1)
    if not z3.is_arith(x):
        return None
    a, b = interval(eng, x), interval(eng, y)
    if a[0] != a[0] or b[0] != b[0] or a[1] != a[1] or b[1] != b[1]:
        return None
    if k == z3.Z3_OP_EQ:
        return False if a[0] > b[1] or a[1] < b[0] else None
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = b, a
        k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
    if k == z3.Z3_OP_LE:
        return True if a[1] <= b[0] else False if a[0] > b[1] else None
    return True if a[1] < b[0] else False if a[0] >= b[1] else None


# ---- rational normal form -----------------------------------------------------
def _round(c):
    r = c.limit_denominator(10**6)
    return r if abs(r - c) <= abs(c) * Fraction(1, 10**11) else c


def _fgcd(a, b):
    return Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


class TooBig(Exception):
    pass


LIMIT = 4000


class Rat:
    """Normal forms of terms as quotients of polynomials over atoms."""

    def __init__(self, eng):
        self.eng = eng
        self.atoms = {}
        self.memo = {}
        self.busy = 0
        self.units = {}
        self.bases = {}
        self.keep = []

    def padd(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) * len(q) > 40 * LIMIT:
            raise TooBig()
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = self.mmul(m, n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    @staticmethod
    def mmul(m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for a, k in n:
            d[a] = d.get(a, 0) + k
        return tuple(sorted(d.items()))

    def ppow(self, p, n):
        r = {(): Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def atom(self, e):
        self.atoms[e.get_id()] = e
        return {((e.get_id(), 1),): Fraction(1)}, {(): Fraction(1)}

    def rat(self, e):
        k = (e.get_id(), self.busy > 0)
        if k in self.memo:
            return self.memo[k][1]
        r = self._rat(e)
        self.memo[k] = (e, r)
        return r

    def _rat(self, e):
        one = {(): Fraction(1)}
        v = _num(e)
        if v is not None:
            return ({(): v} if v else {}), one
        if not z3.is_app(e):
            return self.atom(e)
        k = e.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = None, None
            for i, c in enumerate(e.children()):
                a, b = self.rat(c)
                if n is None:
                    n, d = a, b
                    continue
                s = -1 if k == z3.Z3_OP_SUB else 1
                if d == b:
                    n = self.padd(n, a, s)
                else:
                    n = self.padd(self.pmul(n, b), self.pmul(a, d), s)
                    d = self.pmul(d, b)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            a, b = self.rat(e.arg(0))
            return {m: -c for m, c in a.items()}, b
        if k == z3.Z3_OP_MUL:
            n, d = one, one
            for c in e.children():
                a, b = self.rat(c)
                n, d = self.pmul(n, a), self.pmul(d, b)
            return n, d
        if k == z3.Z3_OP_DIV:
            a, b = self.rat(e.arg(0))
            c, d = self.rat(e.arg(1))
            if not c:
                raise TooBig()
            return self.pmul(a, d), self.pmul(b, c)
        if k == z3.Z3_OP_POWER:
            n = _num(e.arg(1))
            if n is not None and n.denominator == 1 and 0 < n < 12:
                a, b = self.rat(e.arg(0))
                return self.ppow(a, int(n)), self.ppow(b, int(n))
        if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and e.decl().name() in ("pow10", "exp") and not self.busy:
            r = self.power(e)
            if r is not None:
                return r
        if k == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            return self._rat_int(e.arg(0))
        return self.atom(e)

    def exponents(self, e):
        """The exponent of a power as (constant, {monomial: coefficient}), or None."""
        self.busy += 1
        try:
            n, d = self.rat(e.arg(0))
        finally:
            self.busy -= 1
        if list(d) != [()]:
            return None
        q = d[()]
        return n.get((), Fraction(0)) / q, {m: c / q for m, c in n.items() if m}

    def scan(self, es):
        """Units of the exponents, so that powers of one base share atoms."""
        seen, todo = set(), list(es)
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            self.keep.append(e)
            if z3.is_const(e) and e.decl().name() in self.eng.sqrt_args:
                todo.append(self.eng.sqrt_args[e.decl().name()])
            if z3.is_app(e):
                todo.extend(e.children())
                if e.num_args() == 1 and e.decl().name() in ("pow10", "exp"):
                    r = self.exponents(e)
                    for m, c in (r[1] if r else {}).items():
                        key = (e.decl().name(), m)
                        c = abs(_round(c))
                        u = self.units.get(key)
                        self.units[key] = c if u is None else _fgcd(u, c)
        self.memo = {}

    def power(self, e):
        r = self.exponents(e)
        if r is None:
            return None
        c0, lin = r
        name = e.decl().name()
        n, d = {(): Fraction(1)}, {(): Fraction(1)}
        if c0:
            if abs(c0) > 200:
                return None
            n = {(): Fraction(10.0 ** float(c0) if name == "pow10" else math.exp(float(c0)))}
        for m, c in sorted(lin.items(), key=repr):
            u = self.units.get((name, m))
            if u is None:
                return None
            k = _round(c) / u
            if k.denominator != 1 or abs(k) > 16:
                return None
            t = z3.RealVal(u)
            for a, j in m:
                for _ in range(j):
                    t = t * self.atoms[a]
            key = (name, m)
            if key not in self.bases:
                self.bases[key] = e.decl()(z3.simplify(t, som=True))
            b = self.atom(self.bases[key])[0]
            if k > 0:
                n = self.pmul(n, self.ppow(b, int(k)))
            else:
                d = self.pmul(d, self.ppow(b, int(-k)))
        return n, d

    def _rat_int(self, e):
        v = _num(e)
        one = {(): Fraction(1)}
        if v is not None:
            return ({(): v} if v else {}), one
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                n = {}
                for c in e.children():
                    n = self.padd(n, self._rat_int(c)[0])
                return n, one
            if k == z3.Z3_OP_MUL:
                n = one
                for c in e.children():
                    n = self.pmul(n, self._rat_int(c)[0])
                return n, one
            if k == z3.Z3_OP_UMINUS:
                return {m: -c for m, c in self._rat_int(e.arg(0))[0].items()}, one
        return self.atom(z3.ToReal(e))

    def roots(self, polys):
        """Square-root atoms that occur squared, newest first."""
        out = {}
        for p in polys:
            for m in p:
                for a, k in m:
                    e = self.atoms[a]
                    if z3.is_const(e) and e.decl().name() in self.eng.sqrt_args:
                        out[a] = max(out.get(a, 0), k)
        return sorted(out.items(), key=lambda t: -int(self.atoms[t[0]].decl().name().split("!")[1]))

    def reduce(self, p, q):
        """Replace squares of square roots by their arguments, in both."""
        for _ in range(20):
            rs = [(a, k) for a, k in self.roots((p, q)) if k >= 2]
            if not rs:
                return p, q
            a, k = rs[0]
            n, d = self.rat(self.eng.sqrt_args[self.atoms[a].decl().name()])
            top = k // 2
            p, q = self._sub(p, a, n, d, top), self._sub(q, a, n, d, top)
        raise TooBig()

    def _sub(self, p, a, n, d, top):
        r = {}
        groups = {}
        for m, c in p.items():
            k = dict(m).get(a, 0)
            h = k // 2
            rest = tuple(t for t in m if t[0] != a)
            if k % 2:
                rest = self.mmul(rest, ((a, 1),))
            groups.setdefault(h, {})
            groups[h][rest] = groups[h].get(rest, 0) + c
        for h, g in groups.items():
            t = self.pmul(self.pmul(g, self.ppow(n, h)), self.ppow(d, top - h))
            r = self.padd(r, t)
        return r

    def mag(self, m):
        v = 1.0
        for a, k in m:
            l, h = interval(self.eng, self.atoms[a])
            x = max(abs(l), abs(h))
            if x == INF:
                return None
            v *= x ** k
        return v


def same(eng, a, b, rel=1e-10):
    """True when a and b are the same rational function, up to the rounding of
    their numeric constants."""
    try:
        R = Rat(eng)
        R.scan([a, b])
        na, da = R.rat(a)
        nb, db = R.rat(b)
        p, q = (na, nb) if da == db else (R.pmul(na, db), R.pmul(nb, da))
        p, q = R.reduce(p, q)
    except (TooBig, RecursionError):
        return False
    if p == q:
        return _confirm(eng, R, p, q)
    worst = 0.0
    diffs = []
    for m in set(p) | set(q):
        x, y = p.get(m, Fraction(0)), q.get(m, Fraction(0))
        dif = abs(x - y)
        if dif and dif > Fraction(rel) * max(abs(x), abs(y)):
            diffs.append((m, dif))
        try:
            g = R.mag(m)
            if g is not None:
                worst = max(worst, float(abs(y)) * g)
        except OverflowError:
            return False
    for m, dif in diffs:
        g = R.mag(m)
        if g is None or float(dif) * g > 1e-13 * worst:
            return False
    return _confirm(eng, R, p, q)


def _confirm(eng, R, p, q):
    """The solver's verdict on the equality of the normal forms (coefficients of
    the first standing in where they agree up to rounding)."""
    def term(src, coefs):
        ts = []
        for m in src:
            t = z3.RealVal(coefs.get(m, src[m]))
            for a, k in m:
                for _ in range(k):
                    t = t * R.atoms[a]
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    drop = [m for m in set(p) ^ set(q)]
    a = term({m: c for m, c in p.items() if m not in drop}, {})
    b = term({m: c for m, c in q.items() if m not in drop}, p)
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(a != b)
    eng.stats.queries += 1
    if s.check() == z3.unsat:
        eng.stats.assert_queries += 1
        eng.stats.assert_unsat += 1
        eng.stats.normal += 1
        return True
    return False
