"""Exact symbolic scalars.

S     : element of the fraction field of Z[atoms]/(relations); numerator in poly.py form,
        denominator d0 * monomial * product of registered (real, algebraic-free) factors.
SB    : symbolic truth value (comparison of scalars, and/or/not of those).
Ctx   : the context of one symbolic path: atoms, algebraic/transcendental definitions, path
        condition, branch decisions, solver queries.
"""
import builtins
import math
import numbers
import random
from fractions import Fraction

import mpmath
import z3

from . import poly as P
from .poly import MASK, W, Unsupported

mpmath.mp.dps = 40
mpf, mpc = mpmath.mpf, mpmath.mpc


class Infeasible(Exception):
    """Current path is infeasible (contradictory path condition)."""


CX = None  # current context


def set_ctx(cx):
    global CX
    CX = cx
    P.set_registry(cx.reg if cx is not None else P.Registry())


# ---------------------------------------------------------------------------------------
# number -> exact
# ---------------------------------------------------------------------------------------
_frac_cache = {}


def exact(f):
    """float -> Fraction meant by it (shortest decimal if short, simple ratio if that close)."""
    r = _frac_cache.get(f)
    if r is None:
        if not math.isfinite(f):
            raise Unsupported(f"non-finite constant {f}")
        if f == int(f) and abs(f) < 1e300:
            r = Fraction(int(f))
        else:
            s = repr(f)
            mant = s.split("e")[0].replace("-", "").replace(".", "").strip("0")
            if len(mant) <= 14:
                r = Fraction(s)
            else:
                q = Fraction(f).limit_denominator(2000)
                if q and abs(float(q) - f) <= 4e-16 * abs(f):
                    r = q
                else:
                    r = Fraction(s)
        _frac_cache[f] = r
    return r


_pi_like = [(Fraction(a, b), a * math.pi / b) for a in range(1, 9) for b in (1, 2, 3, 4, 6, 8, 180, 360)]


def const_special(f):
    """recognise small multiples of pi / square roots of small integers among float constants"""
    if f == 0 or not math.isfinite(f):
        return None
    s = repr(f)
    if len(s.replace("-", "").replace(".", "").lstrip("0")) < 15:
        return None
    q = Fraction(f).limit_denominator(2000)
    if q and abs(float(q) - f) <= 4e-16 * abs(f):
        return None
    a = abs(f)
    sg = -1 if f < 0 else 1
    for q, v in _pi_like:
        if abs(a - v) <= 4.5e-16 * v:
            return pi() * q * sg
    if 180 / math.pi and abs(a - 180 / math.pi) < 2e-14:
        return S.const(180) / pi() * sg
    sq = a * a
    q = Fraction(sq).limit_denominator(64)
    if q and abs(float(q) - sq) <= 6e-16 * sq:
        return sqrt(S.const(q)) * sg
    return None


def is_num(x):
    return isinstance(x, (int, float, complex, Fraction, numbers.Number)) and not isinstance(x, S)


def lift(x):
    if type(x) is S:
        return x
    if type(x) is SB:
        return S.const(1) if bool(x) else S.const(0)
    if isinstance(x, (bool,)):
        return S.const(int(x))
    t = type(x)
    if t is int:
        r = S.const(x)
        r.isint = True
        return r
    if isinstance(x, S):
        return x
    if isinstance(x, numbers.Integral):
        return S.const(int(x))
    if isinstance(x, Fraction):
        return S.const(x)
    if isinstance(x, numbers.Real):
        f = float(x)
        sp = const_special(f)
        if sp is not None:
            return sp
        return S.const(exact(f))
    if isinstance(x, numbers.Complex):
        z = complex(x)
        r = lift(z.real)
        if z.imag == 0:
            return r
        return r + I() * lift(z.imag)
    import numpy as np

    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (np.bool_,)):
        return S.const(int(x))
    return NotImplemented


def I():
    return S({1: 1}, 1, 0, ())


def pi():
    return CX.pi


class S(object):
    __slots__ = ("n", "d0", "dm", "df", "_h", "_real", "isint")
    __array_priority__ = 1000

    def __init__(self, n, d0=1, dm=0, df=(), norm=False):
        self.n = n
        self.d0 = d0
        self.dm = dm
        self.df = df
        self._h = None
        self._real = None
        self.isint = False

    # ---- construction -------------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, Fraction):
            return S(P.pconst(c.numerator), c.denominator)
        return S(P.pconst(c))

    @staticmethod
    def make(n, d0, dm, df):
        """normalised"""
        if not n:
            return S({}, 1, 0, ())
        if dm:
            m = P.mono_content(n) if True else 0
            if m:
                # cancel common monomial
                com = 0
                sh = 0
                a, b = m, dm
                while a and b:
                    e = min(a & MASK, b & MASK)
                    com |= e << sh
                    a >>= W
                    b >>= W
                    sh += W
                if com:
                    n = {k - com: c for k, c in n.items()}
                    dm -= com
        if df:
            facs = CX.factors
            out = []
            for fid, mult in df:
                f = facs[fid]
                while mult:
                    q = P.pdivexact(n, f)
                    if q is None:
                        break
                    n = q
                    mult -= 1
                if mult:
                    out.append((fid, mult))
            df = tuple(out)
        if d0 != 1:
            g = math.gcd(P.pcontent(n), d0)
            if g != 1:
                n = {k: c // g for k, c in n.items()}
                d0 //= g
        return S(n, d0, dm, df)

    # ---- predicates -----------------------------------------------------------------
    def is_const(self):
        if self.dm or self.df:
            return False
        for k in self.n:
            if k & ~1:
                return False
        return True

    def const_value(self):
        """Fraction or (re, im) complex"""
        re = Fraction(self.n.get(0, 0), self.d0)
        im = Fraction(self.n.get(1, 0), self.d0)
        return re, im

    def is_zero(self):
        return not self.n

    def is_real(self):
        if self._real is None:
            real = True
            info = CX.reg.atoms
            for a in P.atoms_of(self.n):
                if a == 0 or not info[a].real:
                    real = False
                    break
            if real:
                d = self.dm
                i = 0
                while d:
                    if d & MASK and not info[i].real:
                        real = False
                        break
                    d >>= W
                    i += 1
            if real:
                for fid, _ in self.df:
                    if not CX.factor_real(fid):
                        real = False
                        break
            if not real:
                # semantic test
                c = self.conj()
                real = (self - c).is_zero()
            self._real = real
        return self._real

    # ---- arithmetic -------------------------------------------------------------------
    def __add__(self, o):
        if type(o) is not S:
            o = _lift_op(o)
            if o is NotImplemented:
                return o
        if not self.n:
            return o
        if not o.n:
            return self
        a, b = self, o
        if a.d0 == b.d0 and a.dm == b.dm and a.df == b.df:
            r = S.make(P.padd(a.n, b.n), a.d0, a.dm, a.df)
        else:
            d0 = a.d0 * b.d0 // math.gcd(a.d0, b.d0)
            an = P.pscale(a.n, d0 // a.d0)
            bn = P.pscale(b.n, d0 // b.d0)
            dm, ma, mb = _mono_lcm(a.dm, b.dm)
            if ma:
                an = {k + ma: c for k, c in an.items()}
            if mb:
                bn = {k + mb: c for k, c in bn.items()}
            df, fa, fb = _fac_lcm(a.df, b.df)
            for fid, m in fa:
                an = P.pmul(an, P.ppow(CX.factors[fid], m))
            for fid, m in fb:
                bn = P.pmul(bn, P.ppow(CX.factors[fid], m))
            r = S.make(P.padd(an, bn), d0, dm, df)
        if self.isint and o.isint:
            r.isint = True
        return r

    __radd__ = __add__

    def __neg__(self):
        r = S(P.pneg(self.n), self.d0, self.dm, self.df)
        r._real = self._real
        r.isint = self.isint
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not S:
            o = _lift_op(o)
            if o is NotImplemented:
                return o
        return self + (-o)

    def __rsub__(self, o):
        o = _lift_op(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if type(o) is not S:
            o = _lift_op(o)
            if o is NotImplemented:
                return o
        if not self.n or not o.n:
            return S({})
        a, b = self, o
        an, bn = a.n, b.n
        # cross-cancel before multiplying
        adf, bdf = a.df, b.df
        if bdf and len(an) > 1:
            an, bdf = _cancel(an, bdf)
        if adf and len(bn) > 1:
            bn, adf = _cancel(bn, adf)
        n = P.pmul(an, bn)
        dm = a.dm + b.dm
        df = _fac_mul(adf, bdf)
        # algebraic reduction may introduce new common factors: full normalisation then
        r = S.make(n, a.d0 * b.d0, dm, df if P.REG.algs or df else ())
        if self.isint and o.isint:
            r.isint = True
        return r

    __rmul__ = __mul__

    def inv(self):
        if not self.n:
            raise ZeroDivisionError("symbolic division by zero")
        n = self.n
        # numerator of the inverse: den of self
        num = {self.dm: self.d0}
        for fid, m in self.df:
            num = P.pmul(num, P.ppow(CX.factors[fid], m))
        # rationalise n: remove algebraic atoms, highest first, then i
        num, n = _rationalise(num, n)
        d0 = P.pcontent(n)
        if d0 != 1:
            n = {k: c // d0 for k, c in n.items()}
        dm = P.mono_content(n)
        if dm:
            n = {k - dm: c for k, c in n.items()}
        lead = n[max(n)]
        if lead < 0:
            n = P.pneg(n)
            num = P.pneg(num)
        df = ()
        if not (len(n) == 1 and 0 in n):
            df = CX.factor(n)
            if df[0] != 1:
                d0 *= df[0]
            df = df[1]
        elif n[0] != 1:
            d0 *= n[0]
        return S.make(num, d0, dm, df)

    def __truediv__(self, o):
        if type(o) is not S:
            if isinstance(o, float) and math.isinf(o):
                return S({})
            o = _lift_op(o)
            if o is NotImplemented:
                return o
        if not o.n:
            return CX.division_by_zero(self)
        CX.note_den(o)
        if len(o.n) == 1 and not o.df:
            ((k, c),) = o.n.items()
            if not (k & 1) and not (k & P.REG.algmask):
                sgn = 1 if c > 0 else -1
                n = P.pscale(self.n, o.d0 * sgn)
                if o.dm:
                    n = {kk + o.dm: cc for kk, cc in n.items()}
                return S.make(n, self.d0 * abs(c), self.dm + k, self.df)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = _lift_op(o)
        if o is NotImplemented:
            return o
        return o / self

    def __floordiv__(self, o):
        o = _lift_op(o)
        if o is NotImplemented:
            return o
        return CX.floor(self / o)

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = _lift_op(o)
        if o is NotImplemented:
            return o
        return mod(self, o)

    def __rmod__(self, o):
        return mod(lift(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, e, m=None):
        e2 = _lift_op(e)
        if e2 is NotImplemented:
            return e2
        return power(self, e2)

    def __rpow__(self, o):
        return power(lift(o), self)

    def ipow(self, e):
        if e == 0:
            return S.const(1)
        if e < 0:
            CX.note_den(self)
            if not self.n:
                return CX.division_by_zero(S.const(1))
            return self.inv().ipow(-e)
        r = None
        b = self
        while e:
            if e & 1:
                r = b if r is None else r * b
            e >>= 1
            if e:
                b = b * b
        return r

    # ---- complex ------------------------------------------------------------------------
    def conj(self):
        n = self.n
        if not n:
            return self
        num = CX.conj_poly(n)
        den = CX.conj_den(self.dm, self.df)
        r = num * S({0: 1}, self.d0)
        if den is not None:
            r = r * den
        return r

    def conjugate(self):
        if self._real:
            return self
        return self.conj()

    @property
    def real(self):
        if self.is_real():
            return self
        return (self + self.conj()) * S.const(Fraction(1, 2))

    @property
    def imag(self):
        if self.is_real():
            return S({})
        d = (self - self.conj()) * S.const(Fraction(1, 2))
        return d * S({1: -1})

    def __abs__(self):
        return absolute(self)

    # ---- comparisons --------------------------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return False
        o = _lift_cmp(o)
        if o is NotImplemented:
            return o
        return mk_cmp(self - o, "==")

    def __ne__(self, o):
        if isinstance(o, float) and not math.isfinite(o):
            return True
        o = _lift_cmp(o)
        if o is NotImplemented:
            return o
        return mk_cmp(self - o, "!=")

    def _cmp(self, o, op):
        if isinstance(o, float) and math.isinf(o):
            if op in (">", ">="):
                return o < 0
            return o > 0
        o = _lift_cmp(o)
        if o is NotImplemented:
            return o
        if not self.is_real() or not o.is_real():
            # numpy orders complex numbers lexicographically; Python raises
            if getattr(CX, "np_order", 0):
                d = self - o
                re = mk_cmp(d.real, op[0])
                return b_or(re, b_and(mk_cmp(d.real, "=="), mk_cmp(d.imag, op)))
            raise TypeError("'<' not supported between complex values")
        return mk_cmp(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __hash__(self):
        if self.is_const():
            re, im = self.const_value()
            if im == 0:
                return hash(float(re)) if re.denominator != 1 else hash(int(re))
        if self._h is None:
            self._h = hash((frozenset(self.n.items()), self.d0, self.dm, self.df))
        return self._h

    def __bool__(self):
        return bool(mk_cmp(self, "!="))

    def __index__(self):
        if self.is_const():
            re, im = self.const_value()
            if im == 0 and re.denominator == 1:
                return int(re)
        raise Unsupported("symbolic value used as an index")

    def __int__(self):
        if self.is_const():
            re, im = self.const_value()
            if im == 0:
                return int(re)
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        if self.is_const():
            re, im = self.const_value()
            if im == 0:
                return float(re)
        if not self.is_real():
            raise TypeError("can't convert complex to float")
        raise Unsupported("float() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            re, im = self.const_value()
            return complex(float(re), float(im))
        raise Unsupported("complex() of a symbolic value")

    def __round__(self, n=None):
        """nearest value with n decimals (ties upwards)"""
        if self.isint and not n:
            return self
        if not self.is_real():
            raise TypeError("type complex doesn't define __round__ method")
        m = lift(10) ** int(n or 0)
        return CX.floor(self * m + lift(1) / 2) / m

    def __trunc__(self):
        return self.trunc()

    def trunc(self):
        if self.isint:
            return self
        if not self.is_real():
            raise TypeError("int() argument must be a real number, not 'complex'")
        if self.is_const():
            return int(self)
        if bool(self >= 0):
            return CX.floor(self)
        return -CX.floor(-self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        if len(self.n) > 12:
            return f"<S {len(self.n)} terms>"
        return f"<{CX.show(self)}>" if CX else "<S>"

    # ---- array protocol -----------------------------------------------------------------
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    def item(self, *a):
        return self

    def astype(self, dt, **k):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def is_integer(self):
        return bool(mk_isint(self))

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr

        return nparr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr

        return nparr.function_dispatch(func, types, args, kwargs)

    # methods numpy's object loops call
    def sqrt(self):
        return sqrt(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return tan(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def log2(self):
        return log(self) / log(S.const(2))

    def log10(self):
        return log(self) / log(S.const(10))

    def arctan(self):
        return arctan(self)

    def arcsin(self):
        return arcsin(self)

    def arccos(self):
        return pi() / 2 - arcsin(self)

    def sinh(self):
        e = exp(self)
        return (e - 1 / e) / 2

    def cosh(self):
        e = exp(self)
        return (e + 1 / e) / 2

    def tanh(self):
        return self.sinh() / self.cosh()

    def deg2rad(self):
        return self * pi() / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / pi()

    degrees = rad2deg

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    # evaluation -----------------------------------------------------------------------------
    def ev(self, env):
        return CX.eval(self, env)


def _lift_op(o):
    import numpy as np

    if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
    if isinstance(o, (str, bytes, list, tuple, dict)) or o is None:
        return NotImplemented
    return lift(o)


_lift_cmp = _lift_op


def _mono_lcm(a, b):
    if a == b:
        return a, 0, 0
    r = 0
    sh = 0
    x, y = a, b
    while x or y:
        e = max(x & MASK, y & MASK)
        r |= e << sh
        x >>= W
        y >>= W
        sh += W
    return r, r - a, r - b


def _fac_lcm(a, b):
    if a == b:
        return a, (), ()
    da, db = dict(a), dict(b)
    fa, fb, out = [], [], []
    for f in sorted(set(da) | set(db)):
        x, y = da.get(f, 0), db.get(f, 0)
        m = max(x, y)
        out.append((f, m))
        if m > x:
            fa.append((f, m - x))
        if m > y:
            fb.append((f, m - y))
    return tuple(out), fa, fb


def _fac_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for f, m in b:
        d[f] = d.get(f, 0) + m
    return tuple(sorted(d.items()))


def _cancel(n, df):
    out = []
    for fid, m in df:
        f = CX.factors[fid]
        while m:
            q = P.pdivexact(n, f)
            if q is None:
                break
            n = q
            m -= 1
        if m:
            out.append((fid, m))
    return n, tuple(out)


def _rationalise(num, n):
    algs = P.REG.algs
    for alg in reversed(algs):
        idx = alg.shift // W
        sp = P.split_by(n, idx)
        if len(sp) == 1 and 0 in sp:
            continue
        if alg.m == 2:
            a = sp.get(0, {})
            b = sp.get(1, {})
            if not a:
                # b*r : 1/(b r) = r/(b p)
                num = P.pmul(num, {1 << alg.shift: 1})
                n = P.pmul(b, alg.p)
                continue
            rb = {k + (1 << alg.shift): c for k, c in b.items()}
            num = P.pmul(num, P.psub(a, rb))
            n = P.psub(P.pmul(a, a), P.pmul(P.pmul(b, b), alg.p))
        elif alg.m == 3:
            a, b, c = sp.get(0, {}), sp.get(1, {}), sp.get(2, {})
            p = alg.p
            A = P.psub(P.pmul(a, a), P.pmul(P.pmul(b, c), p))
            B = P.psub(P.pmul(P.pmul(c, c), p), P.pmul(a, b))
            C = P.psub(P.pmul(b, b), P.pmul(a, c))
            sh = alg.shift
            adj = P.padd(
                P.padd(A, {k + (1 << sh): v for k, v in B.items()}),
                {k + (2 << sh): v for k, v in C.items()},
            )
            num = P.pmul(num, adj)
            n = P.padd(
                P.padd(P.pmul(a, A), P.pmul(P.pmul(b, C), p)),
                P.pmul(P.pmul(c, B), p),
            )
        else:
            raise Unsupported("inverse of a degree > 3 algebraic element")
        if not n:
            raise Unsupported("zero divisor met while rationalising")
    sp = P.split_by(n, 0)
    if 1 in sp:
        a, b = sp.get(0, {}), sp[1]
        if not a:
            num = P.pmul(num, {1: -1})
            n = b
        else:
            num = P.pmul(num, P.psub(a, {k + 1: c for k, c in b.items()}))
            n = P.padd(P.pmul(a, a), P.pmul(b, b))
            if not n:
                raise Unsupported("zero divisor met while rationalising")
    return num, n


# ---------------------------------------------------------------------------------------
# symbolic booleans
# ---------------------------------------------------------------------------------------
class SB(object):
    __slots__ = ("op", "args")
    __array_priority__ = 1000

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        return CX.decide(self)

    def __and__(self, o):
        if _is_arr(o):
            return NotImplemented
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if _is_arr(o):
            return NotImplemented
        return b_or(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return b_or(b_and(self, b_not(o)), b_and(b_not(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        return b_not(self ^ _tob(o))

    def __ne__(self, o):
        return self ^ _tob(o)

    __hash__ = object.__hash__

    # numpy logical object loops call these
    def logical_not(self):
        return b_not(self)

    # arithmetic on truth values: case split
    def _n(self):
        return S.const(1 if bool(self) else 0)

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return lift(o) - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._n() / o

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def astype(self, *a, **k):
        return self

    def item(self, *a):
        return self

    shape = ()
    ndim = 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nparr

        return nparr.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr

        return nparr.function_dispatch(func, types, args, kwargs)

    def __repr__(self):
        return f"SB({self.op},{self.args})"


def _is_arr(o):
    import numpy as np

    return isinstance(o, np.ndarray) and o.ndim > 0


def _tob(x):
    import numpy as np

    if isinstance(x, (SB, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, S):
        return mk_cmp(x, "!=")
    return bool(x)


def b_not(x):
    x = _tob(x)
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args[0]
    if x.op == "cmp":
        s, op = x.args
        neg = {">": "<=", ">=": "<", "<": ">=", "<=": ">", "==": "!=", "!=": "=="}[op]
        return SB("cmp", (s, neg))
    return SB("not", (x,))


def b_and(a, b):
    a, b = _tob(a), _tob(b)
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return SB("and", (a, b))


def b_or(a, b):
    a, b = _tob(a), _tob(b)
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return SB("or", (a, b))


def b_all(xs):
    r = True
    for x in xs:
        r = b_and(r, x)
    return r


def b_any(xs):
    r = False
    for x in xs:
        r = b_or(r, x)
    return r


def mk_isint(s):
    s = lift(s)
    if s.is_const():
        re, im = s.const_value()
        return im == 0 and re.denominator == 1
    if s.isint:
        return True
    raise Unsupported("is_integer of a symbolic value")


_OPS = {
    ">": lambda a: a > 0,
    ">=": lambda a: a >= 0,
    "<": lambda a: a < 0,
    "<=": lambda a: a <= 0,
    "==": lambda a: a == 0,
    "!=": lambda a: a != 0,
}


def mk_cmp(s, op):
    if s.is_zero():
        return _OPS[op](0)
    if s.is_const():
        re, im = s.const_value()
        if op == "==":
            return re == 0 and im == 0
        if op == "!=":
            return not (re == 0 and im == 0)
        return _OPS[op](re)
    sg = CX.sign_fast(s)
    if sg:
        return _OPS[op](sg)
    return SB("cmp", (s, op))


# ---------------------------------------------------------------------------------------
# elementary functions
# ---------------------------------------------------------------------------------------
def absolute(x):
    x = lift(x)
    if x.is_zero():
        return x
    if x.is_const():
        re, im = x.const_value()
        if im == 0:
            return S.const(abs(re))
    if x.is_real():
        sg = CX.sign_fast(x)
        if sg is None:
            sg = CX.sign_query(x)
        if sg:
            return x if sg > 0 else -x
        return CX.abs_real(x)
    return sqrt(x * x.conj(), nonneg=True)


def power(b, e):
    b, e = lift(b), lift(e)
    if e.is_const():
        re, im = e.const_value()
        if im == 0:
            if re.denominator == 1 and abs(re) < 200:
                return b.ipow(int(re))
            if re.denominator == 2 and abs(re) < 40:
                return sqrt(b).ipow(int(re * 2))
            if re.denominator == 3 and abs(re) < 20:
                return CX.cbrt(b).ipow(int(re * 3))
    return CX.general_power(b, e)


def sqrt(x, nonneg=False):
    return CX.sqrt(lift(x), nonneg)


def exp(x):
    return CX.exp(lift(x))


def log(x):
    return CX.log(lift(x))


def sin(x):
    x = lift(x)
    e, einv = CX.exp2(I() * x)
    return (e - einv) * S({1: -1}, 2)


def cos(x):
    x = lift(x)
    e, einv = CX.exp2(I() * x)
    return (e + einv) * S.const(Fraction(1, 2))


def tan(x):
    x = lift(x)
    t = CX.known_tan(x)
    if t is not None:
        return t
    return sin(x) / cos(x)


def arctan(x):
    return CX.arctan(lift(x))


def arcsin(x):
    return CX.arcsin(lift(x))


def angle(x):
    return CX.angle(lift(x))


def arctan2(y, x):
    return CX.angle(lift(x) + I() * lift(y))


def mod(x, m):
    x, m = lift(x), lift(m)
    if x.is_const() and m.is_const():
        a, _ = x.const_value()
        b, _ = m.const_value()
        return S.const(a - b * (a // b))
    k = CX.floor(x / m)
    return x - m * k
