"""Symbolic execution with IEEE-754 semantics (z3 floating-point theory).

The real (unmodified, natively imported) code is run on numpy object arrays of these values; every
arithmetic operation builds the correctly rounded operation of the chosen format (exponent bits, significand
bits), every branch on a symbolic condition forks.  Small formats only: division and square root of
binary32 and binary64 are beyond bit-blasting within the time limits."""
import numbers

import z3

RM = z3.RNE()
SORTS = {}


class _St:
    sort = None
    trace = None
    prefix = None
    solver = None


def _const(x):
    return z3.FPVal(float(x), _St.sort)


def _bitblast(timeout):
    # a fresh non-incremental solver: plain bit-blasting to SAT
    s = z3.Then("simplify", "fpa2bv", "simplify", "propagate-values", "bit-blast", "sat").solver()
    s.set("timeout", timeout)
    return s


def _check(*cs):
    s = _bitblast(60000)
    for c in cs:
        s.add(c)
    return s.check()


class B:
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        i = len(_St.trace)
        if i < len(_St.prefix):
            v = _St.prefix[i]
        else:
            v = True
            if _check(_St.solver.assertions(), self.t) == z3.unsat:
                v = False
                _St.trace.append((v, False))
                return v
            if _check(_St.solver.assertions(), z3.Not(self.t)) == z3.unsat:
                _St.trace.append((v, False))
                return v
        _St.trace.append((v, True))
        _St.solver.add(self.t if v else z3.Not(self.t))
        return v


class F:
    """real value"""

    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, F):
            return x
        if isinstance(x, numbers.Real):
            return F(_const(x))
        return NotImplemented

    def _bin(self, o, f, c):
        if isinstance(o, complex) or isinstance(o, C):
            return getattr(C.of(self), c)(C.of(o))
        o = F.of(o)
        if o is NotImplemented:
            return o
        return F(f(self.t, o.t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: z3.fpAdd(RM, a, b), "__add__")

    def __radd__(self, o):
        return self._bin(o, lambda a, b: z3.fpAdd(RM, b, a), "__radd__")

    def __sub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RM, a, b), "__sub__")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: z3.fpSub(RM, b, a), "__rsub__")

    def __mul__(self, o):
        return self._bin(o, lambda a, b: z3.fpMul(RM, a, b), "__mul__")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: z3.fpDiv(RM, a, b), "__truediv__")

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: z3.fpDiv(RM, b, a), "__rtruediv__")

    def __pow__(self, n):
        if n == 2:
            return self * self
        return NotImplemented

    def __neg__(self):
        return F(z3.fpNeg(self.t))

    def __abs__(self):
        return F(z3.fpAbs(self.t))

    def sqrt(self):
        return F(z3.fpSqrt(RM, self.t))

    def conjugate(self):
        return self

    def _cmp(self, o, f):
        o = F.of(o)
        if o is NotImplemented:
            return o
        return B(f(self.t, o.t))

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, z3.fpNEQ)

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    __hash__ = None


class C:
    """complex value"""

    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re, self.im = F.of(re), F.of(im)

    @staticmethod
    def of(x):
        if isinstance(x, C):
            return x
        if isinstance(x, complex) or isinstance(x, numbers.Complex) and not isinstance(x, numbers.Real):
            return C(x.real, x.imag)
        if isinstance(x, (F, numbers.Real)):
            return C(x, 0.0)
        return NotImplemented

    def _op(self, o, f):
        o = C.of(o)
        if o is NotImplemented:
            return o
        return f(o)

    def __add__(self, o):
        return self._op(o, lambda o: C(self.re + o.re, self.im + o.im))

    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda o: C(self.re - o.re, self.im - o.im))

    def __rsub__(self, o):
        return self._op(o, lambda o: C(o.re - self.re, o.im - self.im))

    def __mul__(self, o):
        if isinstance(o, (F, numbers.Real)):
            return C(self.re * o, self.im * o)
        return self._op(o, lambda o: C(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (F, numbers.Real)):
            return C(self.re / o, self.im / o)
        return NotImplemented

    def __rtruediv__(self, o):
        return NotImplemented

    def __neg__(self):
        return C(-self.re, -self.im)


def explore(fn, names, bits, assume, conclude, limit=16, timeout=240000):
    """run fn(**symbolic) on every path; conclude(result) -> list of (name, z3 Bool).

    yields (check name, 'proved'|'refuted'|'unknown', inputs or None, seconds)"""
    import time

    _St.sort = z3.FPSort(*bits)
    vs = {n: z3.FP(n, _St.sort) for n in names}
    work = [[]]
    npath = 0
    while work:
        prefix = work.pop()
        npath += 1
        if npath > limit:
            yield "path limit", "unknown", None, 0
            return
        _St.trace, _St.prefix = [], prefix
        _St.solver = z3.SolverFor("QF_FP")
        _St.solver.set("timeout", timeout)
        _St.solver.add(assume(vs))
        out = fn(**{n: F(v) for n, v in vs.items()})
        for i in range(len(prefix), len(_St.trace)):
            v, free = _St.trace[i]
            if free:
                work.append([x for x, _ in _St.trace[:i]] + [not v])
        for name, c in conclude(out):
            t0 = time.time()
            s = _bitblast(timeout)
            s.add(_St.solver.assertions())
            s.add(z3.Not(c))
            r = s.check()
            inp = None
            if r == z3.sat:
                m = s.model()
                inp = {}
                for n, v in vs.items():
                    e = m.eval(v, model_completion=True)
                    x = z3.simplify(z3.fpToReal(e))
                    inp[n] = float(x.as_fraction()) if z3.is_rational_value(x) else 0.0
            yield name, ("refuted" if r == z3.sat else "proved" if r == z3.unsat else "unknown"), inp, time.time() - t0


def within(v, lo, hi):
    """v is zero or lo <= |v| <= hi"""
    a = z3.fpAbs(v)
    return z3.Or(z3.fpIsZero(v), z3.And(z3.fpGEQ(a, _const(lo)), z3.fpLEQ(a, _const(hi))))


def finite(x):
    x = C.of(x)
    return z3.And(*[z3.Not(z3.Or(z3.fpIsNaN(p.t), z3.fpIsInf(p.t))) for p in (x.re, x.im)])


def bounded(x, b):
    x = C.of(x)
    return z3.And(*[z3.fpLEQ(z3.fpAbs(p.t), _const(b)) for p in (x.re, x.im)])
