"""Context of one symbolic path: atoms, definitions, path condition, decisions, solver."""
import math
import random
import time
from fractions import Fraction

import mpmath
import z3

from . import poly as P
from . import scalar as sc
from .poly import MASK, W, Unsupported
from .scalar import S, SB, Infeasible, b_and, b_not, b_or, lift, mk_cmp, mpc, mpf

z3.set_param("parallel.enable", False)


class Atom:
    __slots__ = (
        "name", "idx", "real", "positive", "kind", "conj", "ev", "cons", "sample", "isint",
        "base", "z", "deps", "defn", "nonneg",
    )

    def __init__(self, name, idx, real, kind):
        self.name = name
        self.idx = idx
        self.real = real
        self.positive = False
        self.nonneg = False
        self.kind = kind
        self.conj = None
        self.ev = None
        self.cons = []
        self.sample = None
        self.isint = False
        self.base = False
        self.z = None
        self.deps = ()
        self.defn = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.formal = 0
        self.decisions = 0
        self.paths = 0

    def as_dict(self):
        return {k: (round(v, 3) if isinstance(v, float) else v) for k, v in self.__dict__.items()}


class PathLimit(Exception):
    pass


NSAMPLES = 6


class Ctx:
    def __init__(self, prefix=(), stats=None, seed=1, opts=None):
        self.reg = P.Registry()
        self.stats = stats or Stats()
        self.opts = {"branch_timeout": 3000, "prove_timeout": 60000, "div_fork": False}
        if opts:
            self.opts.update(opts)
        self.prefix = list(prefix)
        self.trace = []  # decisions taken: (value, both_feasible)
        self.pc = []  # list of SB
        self.factors = []
        self.factor_ids = {}
        self._freal = {}
        self._fsign = {}
        self._fconj = {}
        self.exps = []  # [(exponent S, value S, inverse S, half or None)]
        self.exp_cache = {}
        self.sqrts = []  # [(arg S, root S)]
        self.sqrt_cache = {}
        self.hints = []
        self.ufs = {}
        self.tans = []
        self.names = {}
        self.inputs = {}  # declared base inputs: name -> S
        self.rng = random.Random(seed)
        self.samples = [dict() for _ in range(NSAMPLES)]
        self.alive = set(range(NSAMPLES))
        self._guides = 0
        self._evmemo = [dict() for _ in range(NSAMPLES)]
        self.notes = []
        self.undef = 0
        self.dens = []
        self._densig = set()
        self.log_events = []
        self.unknown_branch = False
        self.np_order = 0
        prev = sc.CX
        sc.set_ctx(self)
        i = self._atom("i", False, "i")
        i.conj = lambda: S({1: -1})
        i.ev = lambda env: mpc(0, 1)
        p = self.piatom = self._atom("pi", True, "const")
        p.positive = True
        p.ev = lambda env: mpmath.pi()
        self.pi = S({1 << (p.idx * W): 1})
        p.cons.append(lambda: b_and(
            mk_raw(self.pi - Fraction(31415926535897932, 10**16), ">"),
            mk_raw(self.pi - Fraction(31415926535897933, 10**16), "<")))
        ip = self.I * self.pi
        self.exps.append((ip, S.const(-1), S.const(-1), lambda: (self.I, -self.I), "pi"))

    @property
    def I(self):
        return S({1: 1})

    # ------------------------------------------------------------------ atoms
    def _atom(self, name, real, kind):
        a = Atom(name, len(self.reg.atoms), real, kind)
        self.reg.atoms.append(a)
        return a

    def s(self, atom):
        r = S({1 << (atom.idx * W): 1})
        if atom.real:
            r._real = True
        if atom.isint:
            r.isint = True
        return r

    def _base(self, a, sampler):
        a.base = True
        a.sample = sampler
        for k, env in enumerate(self.samples):
            env[a.idx] = sampler(self.rng)
        a.ev = lambda env: env[a.idx]

    def real(self, name, lo=None, hi=None, positive=None, nonneg=False, sample=None):
        """declare a real input"""
        assert name not in self.names, name
        a = self.names[name] = self._atom(name, True, "real")
        lo_f = Fraction(lo) if lo is not None and not isinstance(lo, float) else (sc.exact(lo) if lo is not None else None)
        hi_f = Fraction(hi) if hi is not None and not isinstance(hi, float) else (sc.exact(hi) if hi is not None else None)
        a.positive = bool(positive) or (lo_f is not None and lo_f > 0)
        a.nonneg = a.positive or nonneg or (lo_f is not None and lo_f >= 0)
        s = self.s(a)
        if positive:
            a.cons.append(lambda: mk_raw(s, ">"))
        elif nonneg and lo_f is None:
            a.cons.append(lambda: mk_raw(s, ">="))
        if lo_f is not None:
            a.cons.append(lambda: mk_raw(s - lo_f, ">="))
        if hi_f is not None:
            a.cons.append(lambda: mk_raw(s - hi_f, "<="))
        if sample is None:
            slo = float(lo_f) if lo_f is not None else (0.1 if (positive or nonneg) else -3.0)
            shi = float(hi_f) if hi_f is not None else max(slo + 3.0, 3.0)
            sample = (slo, shi)
        slo, shi = sample
        self._base(a, lambda rng: mpf(Fraction(rng.randint(1, 9999), 10000).numerator) / 10000 * (mpf(shi) - mpf(slo)) + mpf(slo))
        self.inputs[name] = s
        return s

    def integer(self, name, lo, hi):
        assert name not in self.inputs, name
        a = self.names[name] = self._atom(name, True, "int")
        a.isint = True
        a.positive = lo > 0
        a.nonneg = lo >= 0
        s = self.s(a)
        a.cons.append(lambda: mk_raw(s - lo, ">="))
        a.cons.append(lambda: mk_raw(s - hi, "<="))
        self._base(a, lambda rng: mpf(rng.randint(lo, hi)))
        self.inputs[name] = s
        return s

    def cplx(self, name, sample=(-2.0, 2.0)):
        """formal complex atom z with independent formal conjugate"""
        assert name not in self.inputs, name
        a = self.names[name] = self._atom(name, False, "cplx")
        b = self._atom(name + "~", False, "cplxbar")
        sa, sb = self.s(a), self.s(b)
        a.conj = lambda: sb
        b.conj = lambda: sa
        lo, hi = sample
        self._base(a, lambda rng: mpc(lo + (hi - lo) * rng.randint(1, 9999) / 10000, lo + (hi - lo) * rng.randint(1, 9999) / 10000))
        b.ev = lambda env: mpmath.conj(env[a.idx])
        b.deps = (a,)
        self.inputs[name] = sa
        return sa

    # ------------------------------------------------------------------ naming / display
    def show(self, s, limit=8):
        def mono(k):
            out = []
            i = 0
            while k:
                e = k & MASK
                if e:
                    out.append(self.reg.atoms[i].name + (f"^{e}" if e > 1 else ""))
                k >>= W
                i += 1
            return "*".join(out) or "1"

        t = " + ".join(f"{c}*{mono(k)}" for k, c in list(s.n.items())[:limit])
        d = []
        if s.d0 != 1:
            d.append(str(s.d0))
        if s.dm:
            d.append(mono(s.dm))
        for f, m in s.df:
            d.append(f"F{f}^{m}")
        return f"({t})" + ("/" + "/".join(d) if d else "")

    # ------------------------------------------------------------------ factors
    def factor(self, n):
        """n primitive, real, no monomial content, positive lead -> (const, ((fid,mult),..))"""
        out = {}
        for fid, f in enumerate(self.factors):
            if len(f) > len(n) * 50:
                continue
            while True:
                q = P.pdivexact(n, f)
                if q is None:
                    break
                n = q
                out[fid] = out.get(fid, 0) + 1
                if len(n) == 1:
                    break
            if len(n) == 1:
                break
        c = 1
        if len(n) == 1 and 0 in n:
            c = n[0]
        elif len(n) == 1:
            # cannot happen (monomial content removed) but keep it exact
            fid = self._add_factor(n)
            out[fid] = out.get(fid, 0) + 1
        else:
            for f, m in self._split(n):
                fid = self._add_factor(f)
                out[fid] = out.get(fid, 0) + m
        if c < 0:
            raise Unsupported("negative factor content")
        return (c, tuple(sorted(out.items())))

    def _split(self, n):
        r = P.psqrt(n) if len(n) <= 200 else None
        if r is not None and not any(k & 1 for k in r):
            if r[max(r)] < 0:
                r = P.pneg(r)
            return [(f, 2 * m) for f, m in self._split(r)]
        if 3 <= len(n) <= 60 and len(P.atoms_of(n)) <= 8:
            try:
                import sympy

                ats = P.atoms_of(n)
                syms = sympy.symbols(f"x0:{len(ats)}")
                R = sympy.polys.rings.ring(syms, sympy.ZZ)[0]
                d = {}
                for k, c in n.items():
                    d[tuple((k >> (a * W)) & MASK for a in ats)] = c
                pe = R.from_dict(d)
                cont, facs = pe.factor_list()
                if int(cont) == 1 and (len(facs) > 1 or facs[0][1] > 1):
                    out = []
                    for f, m in facs:
                        q = {}
                        for exps, c in f.to_dict().items():
                            k = 0
                            for a, e in zip(ats, exps):
                                k |= int(e) << (a * W)
                            q[k] = int(c)
                        if q[max(q)] < 0:
                            q = P.pneg(q)
                            if m % 2:
                                return [(n, 1)]
                        out.append((q, m))
                    # verify
                    chk = P.ONE
                    for f, m in out:
                        chk = P.pmul(chk, P.ppow(f, m))
                    if chk == n:
                        return out
            except Unsupported:
                raise
            except Exception:
                pass
        return [(n, 1)]

    def _add_factor(self, f):
        key = frozenset(f.items())
        fid = self.factor_ids.get(key)
        if fid is None:
            fid = len(self.factors)
            self.factors.append(f)
            self.factor_ids[key] = fid
        return fid

    def factor_real(self, fid):
        r = self._freal.get(fid)
        if r is None:
            ats = P.atoms_of(self.factors[fid])
            r = all(self.reg.atoms[a].real for a in ats)
            if not r:
                s = S(self.factors[fid])
                c = self.conj_poly(s.n)
                r = (s - c).is_zero()
            self._freal[fid] = r
        return r

    # ------------------------------------------------------------------ conjugation
    def conj_poly(self, n):
        """complex conjugate of a polynomial, as S"""
        ats = [a for a in P.atoms_of(n) if a == 0 or not self.reg.atoms[a].real]
        if not ats:
            return S(n)
        if ats == [0]:
            return S({k: (-c if k & 1 else c) for k, c in n.items()})
        # simple swap of formal pairs and units handled monomial-wise
        atoms = self.reg.atoms
        simple = {}
        for a in ats:
            at = atoms[a]
            if a == 0:
                continue
            c = at.conj()
            ok = len(c.n) == 1 and c.d0 == 1 and not c.df
            if ok:
                ((k, v),) = c.n.items()
                if abs(v) == 1:
                    simple[a] = (k, c.dm, v)
                    continue
            simple = None
            break
        if simple is not None:
            maxneg = {}
            for k in n:
                for a, (kk, dm, v) in simple.items():
                    if dm:
                        e = (k >> (a * W)) & MASK
                        if e > maxneg.get(a, 0):
                            maxneg[a] = e
            shift = sum(simple[a][1] * e for a, e in maxneg.items())
            out = {}
            for k, c in n.items():
                k2 = k
                add = shift
                for a, (kk, dm, v) in simple.items():
                    e = (k >> (a * W)) & MASK
                    if e:
                        k2 -= e << (a * W)
                        add += kk * e - dm * e
                        if v < 0 and e & 1:
                            c = -c
                if k & 1:
                    c = -c
                k2 += add
                nv = out.get(k2, 0) + c
                if nv:
                    out[k2] = nv
                else:
                    out.pop(k2, None)
            out = P.preduce(out)
            return S.make(out, 1, shift, ())
        # general substitution
        acc = S({})
        pw = {}
        groups = {}
        for k, c in n.items():
            sub = []
            k2 = k
            for a in ats:
                e = (k >> (a * W)) & MASK
                if e:
                    sub.append((a, e))
                    k2 -= e << (a * W)
            groups.setdefault(tuple(sub), {})[k2] = c
        for sub, rest in groups.items():
            t = S(rest)
            for a, e in sub:
                key = (a, e)
                if key not in pw:
                    pw[key] = atoms[a].conj().ipow(e)
                t = t * pw[key]
            acc = acc + t
        return acc

    def conj_den(self, dm, df):
        """conj(1/den) as S or None if trivial"""
        if not dm and not df:
            return None
        r = None
        num = {0: 1}
        ddm = 0
        i = 0
        d = dm
        extra = None
        while d:
            e = d & MASK
            if e:
                at = self.reg.atoms[i]
                if at.real:
                    ddm |= e << (i * W)
                else:
                    t = at.conj().ipow(e).inv()
                    extra = t if extra is None else extra * t
            d >>= W
            i += 1
        ddf = []
        for fid, m in df:
            if self.factor_real(fid):
                ddf.append((fid, m))
            else:
                c = self._fconj.get(fid)
                if c is None:
                    c = self.conj_poly(self.factors[fid]).inv()
                    self._fconj[fid] = c
                t = c.ipow(m)
                extra = t if extra is None else extra * t
        r = S(num, 1, ddm, tuple(ddf))
        if extra is not None:
            r = r * extra
        return r

    # ------------------------------------------------------------------ signs
    def sign_poly(self, n):
        """+1/-1 if all terms provably have that (weak) sign and one is strict; else None"""
        atoms = self.reg.atoms
        strict = False
        want = 0
        for k, c in n.items():
            if k & 1:
                return None
            st = True
            i = 0
            kk = k
            pend = {}
            while kk:
                e = kk & MASK
                if e:
                    at = atoms[i]
                    if at.kind == "cplx":
                        pend[i] = pend.get(i, 0) + e
                    elif at.kind == "cplxbar":
                        pend[i - 1] = pend.get(i - 1, 0) - e
                    elif not at.real:
                        return None
                    elif at.positive:
                        pass
                    elif e % 2 == 0:
                        st = False
                    elif at.nonneg:
                        st = False
                    else:
                        return None
                kk >>= W
                i += 1
            for v in pend.values():
                if v:
                    return None
            if pend:
                st = False
            sg = 1 if c > 0 else -1
            if want == 0:
                want = sg
            elif want != sg:
                return None
            if st:
                strict = True
        return want if strict else None

    def sign_fast(self, s):
        sn = self.sign_poly(s.n)
        if sn is None:
            if len(s.n) == 2:
                sn = self._sign_bounds(s.n)
            if sn is None:
                return None
        sd = self.sign_den(s)
        if sd is None:
            return None
        return sn * sd

    def _sign_bounds(self, n):
        return None

    def sign_den(self, s):
        sd = 1
        d = s.dm
        i = 0
        while d:
            e = d & MASK
            if e:
                at = self.reg.atoms[i]
                if not at.real:
                    return None
                if not at.positive and e % 2:
                    return None
            d >>= W
            i += 1
        for fid, m in s.df:
            sg = self._fsign.get(fid, 0)
            if sg == 0:
                sg = self.sign_poly(self.factors[fid]) if self.factor_real(fid) else None
                self._fsign[fid] = sg
            if sg is None:
                if m % 2 == 0 and self.factor_real(fid):
                    continue
                return None
            if m % 2:
                sd *= sg
        return sd

    def sign_query(self, s):
        """sign of a real S under the path condition: +1, -1, or None"""
        vals = self.sample_values(s)
        hint = None
        for v in vals:
            if v is None:
                continue
            sg = 1 if v.real > 0 else -1
            if hint is None:
                hint = sg
            elif hint != sg:
                return None
        if hint is None:
            hint = 1
        op = "<=" if hint > 0 else ">="
        r, _ = self.query([SB("cmp", (s, op))], timeout=self.opts["branch_timeout"], model=False)
        if r == "unsat":
            return hint
        return None

    def sample_values(self, s):
        out = []
        for k in sorted(self.alive):
            try:
                v = self.eval(s, self.samples[k], self._evmemo[k])
                if not mpmath.isfinite(v):
                    v = None
                elif abs(v) < mpf(10) ** -25:
                    v = None
            except (ZeroDivisionError, ValueError, KeyError):
                v = None
            out.append(v)
        return out

    # ------------------------------------------------------------------ evaluation
    def eval_atom(self, a, env, memo):
        if a.idx in env:
            return env[a.idx]
        v = memo.get(a.idx)
        if v is None:
            v = a.ev(_Env(self, env, memo))
            memo[a.idx] = v
        return v

    def eval_poly(self, n, env, memo):
        tot = mpc(0)
        pw = {}
        atoms = self.reg.atoms
        for k, c in n.items():
            t = mpf(c)
            i = 0
            kk = k
            while kk:
                e = kk & MASK
                if e:
                    key = (i, e)
                    v = pw.get(key)
                    if v is None:
                        v = self.eval_atom(atoms[i], env, memo) ** e
                        pw[key] = v
                    t = t * v
                kk >>= W
                i += 1
            tot += t
        return tot

    def eval(self, s, env, memo=None):
        if memo is None:
            memo = {}
        n = self.eval_poly(s.n, env, memo)
        d = mpf(s.d0)
        i = 0
        k = s.dm
        while k:
            e = k & MASK
            if e:
                d = d * self.eval_atom(self.reg.atoms[i], env, memo) ** e
            k >>= W
            i += 1
        for fid, m in s.df:
            key = ("f", fid)
            v = memo.get(key)
            if v is None:
                v = self.eval_poly(self.factors[fid], env, memo)
                memo[key] = v
            d = d * v**m
        return n / d

    def eval_sb(self, b, env, memo):
        """True/False/None(uncertain)"""
        if isinstance(b, bool):
            return b
        if b.op == "cmp":
            s, op = b.args
            try:
                v = self.eval(s, env, memo)
            except (ZeroDivisionError, ValueError, KeyError, OverflowError):
                return None
            if not mpmath.isfinite(v):
                return None
            if op in ("==", "!="):
                z = abs(v) < mpf(10) ** -25
                return z if op == "==" else not z
            v = v.real
            if abs(v) < mpf(10) ** -25:
                # boundary
                return op in (">=", "<=") and None or None
            return sc._OPS[op](v)
        if b.op == "not":
            r = self.eval_sb(b.args[0], env, memo)
            return None if r is None else not r
        x = self.eval_sb(b.args[0], env, memo)
        y = self.eval_sb(b.args[1], env, memo)
        if b.op == "and":
            if x is False or y is False:
                return False
            return True if (x and y) else None
        if x is True or y is True:
            return True
        return False if (x is False and y is False) else None

    # ------------------------------------------------------------------ z3 encoding
    def zatom(self, a):
        """(re, im) z3 terms; im None if real"""
        if a.z is not None:
            return a.z
        if a.kind == "i":
            a.z = (z3.RealVal(0), z3.RealVal(1))
        elif a.kind == "cplxbar":
            x, y = self.zatom(self.reg.atoms[a.idx - 1])
            a.z = (x, -y)
        elif a.real:
            if a.isint:
                a.z = (z3.ToReal(z3.Int(f"a{a.idx}_{a.name}")), None)
            else:
                a.z = (z3.Real(f"a{a.idx}_{a.name}"), None)
        else:
            if a.defn is not None:
                s = a.defn()
                a.z = self.zpoly(s.n)
            else:
                a.z = (z3.Real(f"a{a.idx}_{a.name}_re"), z3.Real(f"a{a.idx}_{a.name}_im"))
        return a.z

    def zpoly(self, n):
        """z3 (re, im) of polynomial; im None if syntactically real"""
        re, im = [], []
        atoms = self.reg.atoms
        pw = {}

        def power(i, e):
            key = (i, e)
            v = pw.get(key)
            if v is None:
                x, y = self.zatom(atoms[i])
                if y is None:
                    v = (x if e == 1 else (x * x if e == 2 else z3.Product([x] * e)), None)
                else:
                    v = (x, y)
                    for _ in range(e - 1):
                        v = (v[0] * x - v[1] * y, v[0] * y + v[1] * x)
                pw[key] = v
            return v

        for k, c in n.items():
            fr = []
            cpl = None
            ii = k & MASK
            kk = k >> W
            i = 1
            while kk:
                e = kk & MASK
                if e:
                    v = power(i, e)
                    if v[1] is None:
                        fr.append(v[0])
                    elif cpl is None:
                        cpl = v
                    else:
                        cpl = (cpl[0] * v[0] - cpl[1] * v[1], cpl[0] * v[1] + cpl[1] * v[0])
                kk >>= W
                i += 1
            t = z3.RealVal(c)
            if fr:
                t = z3.Product([t] + fr) if c != 1 else (fr[0] if len(fr) == 1 else z3.Product(fr))
            if cpl is None:
                (im if ii else re).append(t)
            else:
                a, b = cpl
                if ii:
                    re.append(-t * b)
                    im.append(t * a)
                else:
                    re.append(t * a)
                    im.append(t * b)
        zr = z3.Sum(re) if len(re) > 1 else (re[0] if re else z3.RealVal(0))
        zi = None
        if im:
            zi = z3.Sum(im) if len(im) > 1 else im[0]
        return zr, zi

    def zden_real(self, s):
        """z3 term with the sign of the denominator (None if positive)"""
        terms = []
        d = s.dm
        i = 0
        while d:
            e = d & MASK
            if e:
                at = self.reg.atoms[i]
                if not at.real:
                    return "complex"
                if e % 2 and not at.positive:
                    terms.append(self.zatom(at)[0])
            d >>= W
            i += 1
        for fid, m in s.df:
            if m % 2 == 0 and self.factor_real(fid):
                continue
            if not self.factor_real(fid):
                return "complex"
            sg = self.sign_poly(self.factors[fid])
            if sg == 1:
                continue
            terms.append(self.zpoly(self.factors[fid])[0])
        if not terms:
            return None
        return terms[0] if len(terms) == 1 else z3.Product(terms)

    def den_poly(self, s):
        n = {s.dm: s.d0}
        for fid, m in s.df:
            n = P.pmul(n, P.ppow(self.factors[fid], m))
        return n

    def zcmp(self, s, op):
        if op in ("==", "!="):
            re, im = self.zpoly(s.n)
            if im is None or s.is_real() and False:
                return re == 0 if op == "==" else re != 0
            if op == "==":
                return z3.And(re == 0, im == 0)
            return z3.Or(re != 0, im != 0)
        zd = self.zden_real(s)
        if isinstance(zd, str):
            d = S(self.den_poly(s))
            s2 = S(s.n) * d.conj()
            # d*conj(d) > 0 ; s2 may itself have a denominator (unit atoms): handle recursively
            if s2.dm or s2.df:
                z2 = self.zden_real(s2)
                if isinstance(z2, str):
                    num, den = self.zpoly(s.n), self.zpoly(self.den_poly(s))
                    a, b = num
                    c, dd = den
                    b = b if b is not None else z3.RealVal(0)
                    dd = dd if dd is not None else z3.RealVal(0)
                    re = a * c + b * dd
                    return sc._OPS[op](re)
                re, _ = self.zpoly(s2.n)
                if z2 is not None:
                    re = re * z2
                return sc._OPS[op](re)
            re, _ = self.zpoly(s2.n)
            return sc._OPS[op](re)
        re, _ = self.zpoly(s.n)
        if zd is not None:
            re = re * zd
        return sc._OPS[op](re)

    def z(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        if b.op == "cmp":
            return self.zcmp(*b.args)
        if b.op == "not":
            return z3.Not(self.z(b.args[0]))
        x, y = self.z(b.args[0]), self.z(b.args[1])
        return z3.And(x, y) if b.op == "and" else z3.Or(x, y)

    def atoms_sb(self, b, acc):
        if isinstance(b, bool):
            return
        if b.op == "cmp":
            s = b.args[0]
            self.atoms_s(s, acc)
        else:
            for x in b.args:
                self.atoms_sb(x, acc)

    def atoms_s(self, s, acc):
        for a in P.atoms_of(s.n):
            acc.add(a)
        d = s.dm
        i = 0
        while d:
            if d & MASK:
                acc.add(i)
            d >>= W
            i += 1
        for fid, _ in s.df:
            for a in P.atoms_of(self.factors[fid]):
                acc.add(a)

    def closure(self, acc):
        """add atoms that the constraints of the atoms in acc mention"""
        todo = list(acc)
        cons = []
        done = set()
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            at = self.reg.atoms[a]
            if at.kind == "cplxbar" and a - 1 not in done:
                todo.append(a - 1)
            for mk in at.cons:
                c = mk()
                if c is True:
                    continue
                cons.append(c)
                m = set()
                if isinstance(c, SB):
                    self.atoms_sb(c, m)
                for x in m:
                    if x not in done:
                        todo.append(x)
        acc |= done
        return cons

    def query(self, goals, timeout=None, model=True, use_pc=True, pins=None, wide=True):
        """satisfiability of pc /\\ goals; path constraints linked only through the constraints of
        derived atoms (floor, angle ...) are added when the direct cone does not refute"""
        r, m, skipped = self._query(goals, timeout, model, use_pc, pins, False)
        if r == "unsat" or not skipped or not use_pc or not wide:
            return r, m
        r2, m2, _ = self._query(goals, timeout, model, use_pc, pins, True)
        if r2 == "unknown" and r == "unsat":
            return r, m
        return r2, m2

    def _query(self, goals, timeout, model, use_pc, pins, closed):
        acc = set()
        skipped = False
        for g in goals:
            self.atoms_sb(g, acc)
        cons = self.closure(acc)
        sol = z3.Solver()
        sol.set("timeout", int(timeout or self.opts["prove_timeout"]))
        if use_pc:
            # cone of influence
            pend = []
            for c in self.pc:
                m = set()
                self.atoms_sb(c, m)
                if closed:
                    self.closure(m)
                pend.append((c, m))
            changed = True
            used = []
            while changed:
                changed = False
                rest = []
                for c, m in pend:
                    if not ((m - {0, 1}) & acc or not (m - {0, 1})):
                        rest.append((c, m))
                    else:
                        used.append(c)
                        new = m - acc
                        acc |= m
                        if new:
                            cons += self.closure(acc)
                        changed = True
                pend = rest
            skipped = bool(pend)
            cons = used + cons
        seen = set()
        for c in cons:
            try:
                zc = self.z(c)
            except Unsupported:
                raise
            h = zc.get_id()
            if h in seen:
                continue
            seen.add(h)
            sol.add(zc)
        for g in goals:
            sol.add(self.z(g))
        for den in self.dens:
            m = set(P.atoms_of(den))
            if m <= acc:
                re, im = self.zpoly(den)
                sol.add(re != 0 if im is None else z3.Or(re != 0, im != 0))
        if pins:
            for v, val in pins:
                sol.add(v == val)
        r, m = self._run(sol, model)
        return r, m, skipped

    def _run(self, sol, model):
        t = time.time()
        try:
            r = str(sol.check())
        except z3.Z3Exception:
            r = "unknown"
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        m = None
        if r == "sat" and model:
            m = sol.model()
        return r, m

    # ------------------------------------------------------------------ path condition
    def assume(self, b):
        b = sc._tob(b) if not isinstance(b, (bool, SB)) else b
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.pc.append(b)
        self._filter(b)

    def _filter(self, b):
        for k in sorted(self.alive):
            r = self.eval_sb(b, self.samples[k], self._evmemo[k])
            if r is not True:
                self.alive.discard(k)
        if not self.alive:
            self._resample()

    def _resample(self, tries=150):
        bases = [a for a in self.reg.atoms if a.base]
        rng = random.Random(len(self.pc) * 7919 + 13)
        got = 0
        for _ in range(tries):
            env = {a.idx: a.sample(rng) for a in bases}
            memo = {}
            if self._env_ok(env, memo):
                k = got
                self.samples[k] = env
                self._evmemo[k] = memo
                self.alive.add(k)
                got += 1
                if got >= 3:
                    return True
        return got > 0 or self._guided() or self._wide()

    def _wide(self, tries=80):
        """samples far outside the usual ranges"""
        if self._guides >= 10:
            return False
        bases = [a for a in self.reg.atoms if a.base]
        rng = random.Random(len(self.pc) * 17 + 3)
        for _ in range(tries):
            env = {}
            for a in bases:
                v = a.sample(rng)
                if not a.isint and rng.random() < 0.6:
                    v = v * mpf(10) ** rng.uniform(-4, 4)
                env[a.idx] = v
            memo = {}
            try:
                if self._env_ok(env, memo):
                    self.samples[0] = env
                    self._evmemo[0] = memo
                    self.alive.add(0)
                    return True
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
        return False

    def _guided(self, want=2):
        """samples of a narrow path: a solver model of the conditions on the inputs alone, the rest drawn at random"""
        if self._guides >= 10:
            return False
        self._guides += 1
        base = {a.idx for a in self.reg.atoms if a.base and a.kind != "cplx"}
        conds, used = [], set()
        for c in self.pc:
            m = set()
            self.atoms_sb(c, m)
            m -= {0, 1}
            if m and m <= base:
                conds.append(c)
                used |= m
        if not conds:
            return False
        for a in sorted(used):
            for mk in self.reg.atoms[a].cons:
                c = mk()
                m = set()
                if c is not True:
                    self.atoms_sb(c, m)
                    if m - {0, 1} <= base:
                        conds.append(c)
        bases = [a for a in self.reg.atoms if a.base]
        rng = random.Random(len(self.pc) * 31 + 7)
        got = 0
        for att in range(6):
            sol = z3.Solver()
            sol.set("timeout", 1000)
            try:
                for c in conds:
                    sol.add(self.z(c))
                for den in self.dens:
                    if set(P.atoms_of(den)) - {0, 1} <= used:
                        re, im = self.zpoly(den)
                        sol.add(re != 0 if im is None else z3.Or(re != 0, im != 0))
            except Unsupported:
                return False
            if self._run(sol, False)[0] != "sat":
                return False
            # pull every input towards a random point of its range, as far as the conditions allow
            order = sorted(used)
            rng.shuffle(order)
            for a in order:
                at = self.reg.atoms[a]
                v = self.zatom(at)[0]
                t = at.sample(rng)
                t = t.real if hasattr(t, "real") else t
                for eps in (0, 0.5, 4):
                    q = Fraction(float(t)).limit_denominator(1000)
                    e = Fraction(eps) * (abs(q) if eps else 0) / 4
                    sol.push()
                    sol.add(v == z3.RealVal(str(q)) if not eps else z3.And(v > z3.RealVal(str(q - e)), v < z3.RealVal(str(q + e))))
                    if self._run(sol, False)[0] == "sat":
                        break
                    sol.pop()
            r, m = self._run(sol, True)
            if r != "sat":
                continue
            for _ in range(8):
                env = {}
                for a in bases:
                    env[a.idx] = self._mv(m, self.zatom(a)[0], rng, a, 0) if a.idx in used else a.sample(rng)
                memo = {}
                try:
                    if self._env_ok(env, memo):
                        self.samples[got] = env
                        self._evmemo[got] = memo
                        self.alive.add(got)
                        got += 1
                        break
                except (ZeroDivisionError, ValueError):
                    continue
            if got >= want:
                return True
        return got > 0

    def _env_ok(self, env, memo):
        for a in self.reg.atoms:
            if a.base and a.kind != "cplx":
                for mk in a.cons:
                    c = mk()
                    if c is True:
                        continue
                    if self.eval_sb(c, env, memo) is False:
                        return False
        for c in self.pc:
            if self.eval_sb(c, env, memo) is not True:
                return False
        return True

    def decide(self, b):
        b = sc._tob(b)
        if isinstance(b, bool):
            return b
        if b.op == "cmp":
            sg = self.sign_fast(b.args[0]) if b.args[0].is_real() else None
            if sg:
                return sc._OPS[b.args[1]](sg)
        pos = len(self.trace)
        self.stats.decisions += 1
        if pos < len(self.prefix):
            v, both = self.prefix[pos]
            self.trace.append((v, both))
            self.pc.append(b if v else b_not(b))
            self._filter(self.pc[-1])
            return v
        t_ok = f_ok = None
        for k in sorted(self.alive):
            r = self.eval_sb(b, self.samples[k], self._evmemo[k])
            if r is True:
                t_ok = True
            elif r is False:
                f_ok = True
        to = self.opts["branch_timeout"]
        unknown = False
        if t_ok is None:
            r, _ = self.query([b], timeout=to, model=False, wide=False)
            t_ok = r != "unsat"
            unknown |= r == "unknown"
        if f_ok is None:
            r, _ = self.query([b_not(b)], timeout=to, model=False, wide=False)
            f_ok = r != "unsat"
            unknown |= r == "unknown"
        if unknown:
            self.unknown_branch = True
        if not t_ok and not f_ok:
            raise Infeasible()
        if t_ok and f_ok:
            if len([1 for x in self.trace if x[1]]) > self.opts.get("max_depth", 60):
                raise PathLimit("too many symbolic branches on one path")
            v, both = True, True
        else:
            v, both = bool(t_ok), False
        self.trace.append((v, both))
        if both:
            self.pc.append(b if v else b_not(b))
            self._filter(self.pc[-1])
        return v

    # ------------------------------------------------------------------ division
    def note_den(self, s):
        """record den != 0 (assumption), or fork on it when the harness asks for totality"""
        if s.is_const():
            return
        if self.sign_poly(s.n) is not None:
            return
        key = frozenset(s.n.items())
        if key in self._densig:
            return
        self._densig.add(key)
        if self.opts["div_fork"]:
            if self.decide(SB("cmp", (s, "=="))):
                raise SymZeroDivision()
            return
        if len(s.n) <= 400:
            self.dens.append(s.n)

    def division_by_zero(self, num):
        self.undef += 1
        a = self._atom(f"undef{self.undef}", True, "undef")
        a.ev = lambda env: mpmath.nan
        return self.s(a)

    # ------------------------------------------------------------------ functions
    def uf(self, name, args, real=True, positive=False, ev=None, nonneg=False):
        key = (name,) + tuple(self._skey(a) for a in args)
        a = self.ufs.get(key)
        if a is None:
            if real:
                at = self._atom(f"{name}#{len(self.ufs)}", True, "fun")
                at.positive = positive
                at.nonneg = nonneg or positive
                s = self.s(at)
                if positive:
                    at.cons.append(lambda: mk_raw(s, ">"))
                elif nonneg:
                    at.cons.append(lambda: mk_raw(s, ">="))
                if ev is not None:
                    at.ev = lambda env: ev(*[env.s(x) for x in args])
                    self._const_bounds(at, s, args, ev)
                a = s
            else:
                at = self._atom(f"{name}#{len(self.ufs)}", False, "cplx")
                bt = self._atom(f"{name}#{len(self.ufs)}~", False, "cplxbar")
                sa, sb = self.s(at), self.s(bt)
                at.conj = lambda: sb
                bt.conj = lambda: sa
                at.ev = lambda env: ev(*[env.s(x) for x in args])
                bt.ev = lambda env: mpmath.conj(env.s(sa))
                a = sa
                ck = (name,) + tuple(self._skey(x.conj()) for x in args)
                if ck != key:
                    self.ufs[ck] = sb
            self.ufs[key] = a
        return a

    def _const_bounds(self, at, s, args, ev):
        """a function of constants: numeric bounds"""
        if not all(isinstance(x, S) and x.is_const() for x in args):
            return
        try:
            v = ev(*[mpc(*[mpf(q.numerator) / q.denominator for q in x.const_value()]) for x in args])
            v = mpf(v.real)
            lo, hi = (Fraction(int(mpmath.floor(v * 10 ** 9)) + d, 10 ** 9) for d in (-1, 2))
        except Exception:
            return
        at.positive = at.positive or lo > 0
        at.nonneg = at.nonneg or lo >= 0
        at.cons.append(lambda: mk_raw(s - lo, ">"))
        at.cons.append(lambda: mk_raw(s - hi, "<"))

    def _skey(self, s):
        if not isinstance(s, S):
            return s
        return (frozenset(s.n.items()), s.d0, s.dm, s.df)

    def floor(self, x):
        if x.is_const():
            re, _ = x.const_value()
            return S.const(re.numerator // re.denominator)
        if x.isint:
            return x
        key = ("floor", self._skey(x))
        if key in self.ufs:
            return self.ufs[key]
        a = self._atom(f"floor#{len(self.ufs)}", True, "fun")
        a.isint = True
        s = self.s(a)
        a.ev = lambda env: mpmath.floor(env.s(x).real)
        a.cons.append(lambda: mk_raw(x - s, ">="))
        a.cons.append(lambda: mk_raw(x - s - 1, "<"))
        self.ufs[key] = s
        return s

    def abs_real(self, x):
        key = ("abs", self._skey(x))
        if key in self.ufs:
            return self.ufs[key]
        k2 = ("abs", self._skey(-x))
        if k2 in self.ufs:
            return self.ufs[k2]
        # |x| with |x|^2 = x^2
        r = self._new_root(x * x, 2, "abs", nonneg=True, evf=lambda env: abs(env.s(x)))
        self.ufs[key] = r
        return r

    # --- roots
    def _new_root(self, x, m, name, nonneg=False, evf=None, principal=True):
        """atom r' = D*root(x); returns root(x) = r'/D with r'^m = N*D^(m-1)"""
        D = {x.dm: x.d0}
        # minimal radical denominator
        Dd = S({0: 1})
        dm = x.dm
        rad = 0
        sh = 0
        k = dm
        mono_rad = 0
        while k:
            e = k & MASK
            if e:
                mono_rad |= ((e + m - 1) // m) << sh
            k >>= W
            sh += W
        den = {mono_rad: 1}
        for fid, mult in x.df:
            den = P.pmul(den, P.ppow(self.factors[fid], (mult + m - 1) // m))
        # constant part: d0
        dc = 1
        if x.d0 != 1:
            dc = x.d0
        den = P.pscale(den, dc)
        Ds = S(den)
        q = x * Ds.ipow(m)
        # q must be polynomial now
        if q.dm or q.df:
            raise Unsupported("root of a fraction")
        if q.d0 != 1:
            f = q.d0
            Ds = Ds * f
            q = x * Ds.ipow(m)
        # pull integer content
        qc = P.pcontent(q.n)
        outc = 1
        if qc > 1:
            # remove m-th power integer factor
            rest = qc
            f = 2
            while f ** m <= rest and f < 2000:
                while rest % (f**m) == 0:
                    rest //= f**m
                    outc *= f
                f += 1
            if outc > 1:
                q = S({k: c // outc**m for k, c in q.n.items()})
        mono = P.mono_content(q.n)
        pulled = None
        if mono:
            out = 0
            sh = 0
            k = mono
            while k:
                e = k & MASK
                if e >= m:
                    at = self.reg.atoms[sh // W]
                    if at.positive:
                        out |= (e // m) << sh
                k >>= W
                sh += W
            if out:
                pulled = S({out: 1})
                q = S({k - out * m: c for k, c in q.n.items()})
        isreal = x.is_real() and nonneg
        qd = Ds
        if outc != 1:
            qd = qd / outc
        if pulled is not None:
            qd = qd / pulled
        # r' = qd * root(x)
        if q.is_const() and q.n == {0: 1}:
            return 1 / qd
        # reuse an atom with the same radicand when both are nonnegative reals
        key = ("root", m, self._skey(q), isreal)
        sgnq = self.sign_fast(qd) if isreal else None
        if isreal and sgnq and key in self.ufs:
            base = self.ufs[key]
            return base / qd if sgnq > 0 else -base / qd
        if isreal:
            at = self._atom(f"{name}{len(self.reg.atoms)}", True, "alg")
        else:
            at = self._atom(f"{name}{len(self.reg.atoms)}", False, "alg")
        alg = P.Alg(at.idx * W, m, q.n)
        self.reg.algs.append(alg)
        self.reg.algmask |= MASK << (at.idx * W)
        s = self.s(at)
        if evf is None:
            def evf(env):
                v = env.s(x)
                if m == 2:
                    return mpmath.sqrt(v)
                return mpmath.cbrt(v) if v.imag == 0 and v.real >= 0 else v ** (mpf(1) / m)
        at.ev = lambda env: evf(env) * env.s(qd)
        root = s / qd
        if isreal:
            if sgnq and sgnq > 0:
                at.nonneg = True
                sq = self.sign_fast(q)
                if sq and sq > 0:
                    at.positive = True
                self.ufs[key] = s
            # s^m = q, sign(s) = sign(qd)
            at.cons.append(lambda: mk_raw_z(self, lambda: self.zatom(at)[0] ** m == self.zpoly(q.n)[0], [s, q]))
            at.cons.append(lambda: mk_raw(root, ">="))
        else:
            def mkconj():
                if at.defn is None:
                    xc = x.conj()
                    if (xc - x).is_zero() and m == 2 and self.sign_fast(x) == -1:
                        # purely imaginary root of a negative real
                        return (-root).conj_of_root if False else (-s) * (qd.conj() / qd)
                    nat = len(self.reg.atoms)
                    cb = self._new_root(xc, m, name + "~", evf=lambda env: mpmath.conj(env.s(root)))
                    at.conj = lambda: cb * qd.conj()
                    if len(self.reg.atoms) == nat + 1 and not xc.is_real():
                        at2 = self.reg.atoms[nat]
                        s2 = self.s(at2)
                        qd2 = s2 / cb
                        at2.conj = lambda: root * qd2.conj()
                        if qd.is_const() and qd2.is_const() and qd.is_real() and qd2.is_real():
                            k = qd2.const_value()[0] / qd.const_value()[0]
                            k = z3.RealVal(f"{k.numerator}/{k.denominator}")

                            def tie():
                                x1, y1 = self.zatom(at)
                                x2, y2 = self.zatom(at2)
                                return z3.And(x2 == k * x1, y2 == -k * y1)

                            at2.cons.append(lambda: mk_raw_z(self, tie, [s, s2]))
                    # conjugate of the conjugate
                    return cb * qd.conj()
                raise Unsupported("conjugate of algebraic atom")
            at.conj = _Lazy(mkconj)
            def rel():
                x0, y0 = self.zatom(at)
                pr, pi_ = x0, y0
                for _ in range(m - 1):
                    pr, pi_ = pr * x0 - pi_ * y0, pr * y0 + pi_ * x0
                qr, qi = self.zpoly(q.n)
                if qi is None:
                    qi = z3.RealVal(0)
                return z3.And(pr == qr, pi_ == qi)
            at.cons.append(lambda: mk_raw_z(self, rel, [s, q]))
        return root

    def add_hint(self, r):
        """register a candidate square root"""
        self.hints.append((r * r, r))

    def sqrt(self, x, nonneg=False):
        """principal square root (numpy complex semantics; real negative -> +i*sqrt)"""
        if x.is_zero():
            return x
        key = self._skey(x)
        r = self.sqrt_cache.get(key)
        if r is not None:
            return r
        r = self._sqrt(x, nonneg)
        self.sqrt_cache[key] = r
        return r

    def _sqrt(self, x, nonneg):
        if x.is_const():
            re, im = x.const_value()
            if im == 0:
                neg = re < 0
                a = abs(re)
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    r = S.const(Fraction(n, d))
                else:
                    r = self._new_root(S.const(a), 2, "sqrt", nonneg=True)
                return self.I * r if neg else r
        # candidate roots
        cand = self._square_root_candidate(x)
        if cand is not None:
            return self._principal(cand, x, nonneg)
        # real positive / negative?
        if x.is_real():
            sg = 1 if nonneg else (self.sign_fast(x) or self.sign_query(x))
            if sg is None:
                sg = 1 if self.decide(SB("cmp", (x, ">="))) else -1
            if sg > 0:
                if not nonneg and self.sign_fast(x) is None:
                    pass
                return self._new_root(x, 2, "sqrt", nonneg=True)
            return self.I * self._new_root(-x, 2, "sqrt", nonneg=True)
        r = self._new_root(x, 2, "sqrt")
        # principal branch fact
        self.pc.append(b_or(mk_raw(r.real, ">"), b_and(mk_raw(r.real, "=="), mk_raw(r.imag, ">="))) if not r.is_real() else True)
        if self.pc[-1] is True:
            self.pc.pop()
        self.sqrts.append((x, r))
        return r

    def _square_root_candidate(self, x):
        for sq, r in self.hints:
            d = x - sq
            if d.is_zero():
                return r
        for sq, r in self.hints:
            q = x / sq
            if q.is_const():
                re, im = q.const_value()
                if im == 0 and re > 0:
                    n, d = math.isqrt(re.numerator), math.isqrt(re.denominator)
                    if n * n == re.numerator and d * d == re.denominator:
                        return r * Fraction(n, d)
        r = self._perfect_square(x)
        if r is not None:
            return r
        for sq, r0 in self.hints:
            r = self._perfect_square(x / sq)
            if r is not None:
                return r * r0
        for sq, r0 in self.sqrts:
            r = self._perfect_square(x / sq)
            if r is not None:
                return r * r0
        return None

    def _perfect_square(self, x):
        """rational g with g^2 == x or None"""
        am = self.reg.algmask
        if am:
            for k in x.n:
                if k & am:
                    return None
        extra = []
        n = x.n
        den = S({0: 1})
        # denominators: need even powers (or move one factor up)
        mul = {0: 1}
        k = x.dm
        sh = 0
        half = 0
        while k:
            e = k & MASK
            if e & 1:
                mul = {kk + (1 << sh): c for kk, c in mul.items()}
                e += 1
            half |= (e // 2) << sh
            k >>= W
            sh += W
        hf = []
        for fid, m in x.df:
            if m & 1:
                mul = P.pmul(mul, self.factors[fid])
                m += 1
            hf.append((fid, m // 2))
        d0 = x.d0
        s = P.isqrt_exact(d0)
        if s is None:
            mul = P.pscale(mul, d0)
            s = d0
        n = P.pmul(n, mul) if mul != {0: 1} else n
        # strip known square factors from the numerator
        lead = S({0: 1})
        r = P.psqrt(n)
        if r is None:
            # try rational content square-free: c * square where c constant non-square -> no
            return None
        return S.make(r, s, half, tuple(hf))

    def _principal(self, r, x, nonneg):
        """choose +-r as the principal root"""
        if r.is_real():
            if self.sign_fast(r) == 1:
                return r
            if self.sign_fast(r) == -1:
                return -r
            sg = self.sign_query(r)
            if sg:
                return r if sg > 0 else -r
            if nonneg:
                return self.abs_real(r)
            return r if self.decide(SB("cmp", (r, ">="))) else -r
        ir = r * S({1: -1})
        if ir.is_real():
            sg = self.sign_fast(ir) or self.sign_query(ir)
            if sg:
                return r if sg > 0 else -r
            return r if self.decide(SB("cmp", (ir, ">="))) else -r
        re = r.real
        if not re.is_zero():
            sg = self.sign_fast(re) or self.sign_query(re)
            if sg:
                return r if sg > 0 else -r
        im = r.imag
        pos = b_or(mk_cmp(re, ">"), b_and(mk_cmp(re, "=="), mk_cmp(im, ">=")))
        return r if self.decide(pos) else -r

    def cbrt(self, x):
        """principal cube root: exp(log(x)/3)"""
        if x.is_zero():
            return x
        key = ("cbrt", self._skey(x))
        if key in self.ufs:
            return self.ufs[key]
        for cb, r in getattr(self, "cbrt_hints", []):
            if (x - cb).is_zero():
                self.ufs[key] = r
                return r
        if x.is_const():
            re, im = x.const_value()
            if im == 0 and re > 0:
                def icb(v):
                    q = round(v ** (1 / 3))
                    return q if q**3 == v else None
                a, b = icb(re.numerator), icb(re.denominator)
                if a and b:
                    return S.const(Fraction(a, b))
        sg = self.sign_fast(x) if x.is_real() else None
        if x.is_real() and sg is None:
            sg = self.sign_query(x)
        if sg == 1:
            r = self._new_root(x, 3, "cbrt", nonneg=True)
        else:
            r = self._new_root(x, 3, "cbrt", evf=lambda env: mpmath.exp(mpmath.log(env.s(x)) / 3))
        self.ufs[key] = r
        return r

    def general_power(self, b, e):
        if b.is_const() and b.const_value()[1] == 0 and b.const_value()[0] == 1:
            return S.const(1)
        # split integer constant part of the exponent
        k = Fraction(e.n.get(0, 0), e.d0) if not e.dm and not e.df else Fraction(0)
        ki = k.numerator // k.denominator if k else 0
        rest = e - ki
        pos = self.sign_fast(b) == 1 if b.is_real() else False
        if not pos and b.is_real():
            pos = self.sign_query(b) == 1
        if rest.is_zero():
            return b.ipow(ki)
        neg = False
        if rest.n and rest.n[max(rest.n)] < 0:
            neg = True
            rest = -rest
        r = self.uf("pow", [b, rest], real=pos and rest.is_real(), positive=pos and rest.is_real(),
                    ev=lambda x, y: mpmath.power(x, y))
        if neg:
            r = 1 / r
        return r * b.ipow(ki) if ki else r

    def log(self, x):
        if x.is_const():
            re, im = x.const_value()
            if im == 0 and re == 1:
                return S({})
        for ex, v, vi, h, nm in self.exps:
            if v.is_real() and ex.is_real():
                if (x - v).is_zero():
                    return ex
                if (x - vi).is_zero():
                    return -ex
        if x.is_real():
            sg = self.sign_fast(x) or self.sign_query(x)
            if sg == 1:
                return self.uf("log", [x], real=True, ev=lambda v: mpmath.log(v.real))
            if sg == -1:
                raise Unsupported("log of a negative value")
            if self.decide(SB("cmp", (x, ">"))):
                return self.uf("log", [x], real=True, ev=lambda v: mpmath.log(v.real))
            self.undef += 1
            return self.division_by_zero(x)
        return self.uf("clog", [x], real=False, ev=lambda v: mpmath.log(v))

    # --- exponentials
    def exp(self, x):
        return self.exp2(x)[0]

    def exp2(self, x):
        """(exp(x), exp(-x))"""
        if x.is_zero():
            return S.const(1), S.const(1)
        key = self._skey(x)
        r = self.exp_cache.get(key)
        if r is None:
            r = self._exp2(x)
            self.exp_cache[key] = r
            self.exp_cache[self._skey(-x)] = (r[1], r[0])
        return r

    def _exp2(self, x):
        y = self._drop_periods(x)
        if y.is_zero():
            return S.const(1), S.const(1)
        if y.is_const() and y.const_value()[1] == 0:
            # the exponential of a number: a positive constant per absolute value
            q = y.const_value()[0]
            e = self.uf("expc", [S.const(abs(q))], real=True, positive=True, ev=lambda v: mpmath.exp(v.real))
            return (e, 1 / e) if q > 0 else (1 / e, e)
        ks = self._combo(y)
        if ks is None:
            # peel off a rational multiple of i*pi (constant phase)
            self._new_exp(y)
            ks = self._combo(y)
            if ks is None:
                raise Unsupported("exponential bookkeeping failed")
        v = S.const(1)
        vi = S.const(1)
        for (ex, val, inv, half, nm), k in zip(self.exps, ks):
            if not k:
                continue
            a, b = self._exp_mult(val, inv, half, nm, k, ex)
            v = v * a
            vi = vi * b
        return v, vi

    def _exp_mult(self, val, inv, half, nm, k, ex):
        if k.denominator == 1:
            k = int(k)
            if k > 0:
                return val.ipow(k), inv.ipow(k)
            return inv.ipow(-k), val.ipow(-k)
        if nm == "pi":
            return self._const_phase(k)
        if k.denominator == 2 and half is not None:
            hv, hi = half()
            k2 = int(2 * k)
            if k2 > 0:
                return hv.ipow(k2), hi.ipow(k2)
            return hi.ipow(-k2), hv.ipow(-k2)
        raise Unsupported(f"exp of a fractional ({k}) multiple of a base exponent {self.show(ex)}")

    def _const_phase(self, k):
        k = k % 2
        den = k.denominator
        table = {1: None, 2: None, 3: None, 4: None, 6: None, 12: None}
        if den not in table:
            # constant phase as a unit atom exp(i*pi/den)
            nm = f"unit_pi_{den}"
            if nm not in self.names:
                a = self.names[nm] = self._atom(nm, False, "unit")
                s = self.s(a)
                a.conj = lambda: 1 / s
                a.ev = lambda env: mpmath.expjpi(mpf(1) / den)
                self._unit_cons(a)
            s = self.s(self.names[nm])
            return s.ipow(k.numerator), s.ipow(-k.numerator)
        # cos/sin of k*pi with sqrt constants
        i = self.I
        n12 = int(k * 12)
        def cosd(n):  # cos(n*pi/12)
            n = n % 24
            if n > 12:
                n = 24 - n
            if n > 6:
                return -cosd(12 - n)
            s2 = lambda: self.sqrt(S.const(2))
            s3 = lambda: self.sqrt(S.const(3))
            if n == 0: return S.const(1)
            if n == 1: return (s2() * s3() + s2()) / 4
            if n == 2: return s3() / 2
            if n == 3: return s2() / 2
            if n == 4: return S.const(Fraction(1, 2))
            if n == 5: return (s2() * s3() - s2()) / 4
            return S({})
        c = cosd(n12)
        s = cosd(6 - n12)
        return c + i * s, c - i * s

    def _drop_periods(self, y):
        """drop 2*pi*i*(integer atoms)"""
        if y.dm or y.df:
            return y
        pidx = self.piatom.idx
        out = dict(y.n)
        ch = False
        for k, c in y.n.items():
            if (k & MASK) == 1 and ((k >> (pidx * W)) & MASK) == 1:
                rest = k - 1 - (1 << (pidx * W))
                if rest:
                    ok = True
                    i = 0
                    while rest:
                        if rest & MASK and not self.reg.atoms[i].isint:
                            ok = False
                            break
                        rest >>= W
                        i += 1
                    if ok and c % (2 * y.d0) == 0:
                        del out[k]
                        ch = True
        if ch:
            return S.make(out, y.d0, 0, ())
        return y

    def _combo(self, y):
        """rational ks with y = sum ks*base exponents"""
        bases = [b[0] for b in self.exps]
        # common denominator
        dm = y.dm
        df = y.df
        for b in bases:
            dm = sc._mono_lcm(dm, b.dm)[0]
            df = sc._fac_lcm(df, b.df)[0]

        def vec(s):
            n = s.n
            mm = dm - s.dm
            if mm:
                n = {k + mm: c for k, c in n.items()}
            have = dict(s.df)
            for f, m in df:
                d = m - have.get(f, 0)
                if d:
                    n = P.pmul(n, P.ppow(self.factors[f], d))
            return {k: Fraction(c, s.d0) for k, c in n.items()}

        target = vec(y)
        tkeys = set(target)
        vs = []
        for b in bases:
            vs.append(vec(b))
        # restrict to bases: gaussian elimination
        rows = []  # (pivot key, vector, combo)
        n = len(bases)
        for j, v in enumerate(vs):
            v = dict(v)
            comb = {j: Fraction(1)}
            for pk, pv, pc in rows:
                c = v.get(pk)
                if c:
                    for k, x in pv.items():
                        nv = v.get(k, 0) - c * x
                        if nv:
                            v[k] = nv
                        else:
                            v.pop(k, None)
                    for k, x in pc.items():
                        comb[k] = comb.get(k, 0) - c * x
            if v:
                pk = next(iter(v))
                c = v[pk]
                rows.append((pk, {k: x / c for k, x in v.items()}, {k: x / c for k, x in comb.items()}))
        v = dict(target)
        res = {}
        for pk, pv, pc in rows:
            c = v.get(pk)
            if c:
                for k, x in pv.items():
                    nv = v.get(k, 0) - c * x
                    if nv:
                        v[k] = nv
                    else:
                        v.pop(k, None)
                for k, x in pc.items():
                    res[k] = res.get(k, 0) + c * x
        if v:
            return None
        return [Fraction(res.get(j, 0)) for j in range(n)]

    def reg_exp(self, ex, val, inv=None, half=None, name=""):
        self.exps.append((ex, val, inv if inv is not None else 1 / val, half, name))
        self.exp_cache.clear()

    def _unit_cons(self, a):
        def rel():
            x, y = self.zatom(a)
            return x * x + y * y == 1
        s = self.s(a)
        a.cons.append(lambda: mk_raw_z(self, rel, [s]))

    def _new_exp(self, y):
        c = y.conj()
        # keep the multiple of pi out of the base exponent (so that it is shared)
        nm = f"E{len(self.exps)}"
        if (c + y).is_zero():
            a = self._atom(nm, False, "unit")
            s = self.s(a)
            a.conj = lambda: 1 / s
            a.ev = lambda env: mpmath.exp(env.s(y))
            self._unit_cons(a)
            def half():
                raise Unsupported("half phase")
            self.reg_exp(y, s, 1 / s, self._half_of(a, s, y), nm)
        elif (c - y).is_zero():
            a = self._atom(nm, True, "fun")
            a.positive = True
            a.nonneg = True
            s = self.s(a)
            a.ev = lambda env: mpmath.exp(env.s(y).real)
            a.cons.append(lambda: mk_raw(s, ">"))
            self.reg_exp(y, s, 1 / s, None, nm)
        else:
            a = self._atom(nm, False, "cplx")
            b = self._atom(nm + "~", False, "cplxbar")
            sa, sb = self.s(a), self.s(b)
            a.conj = lambda: sb
            b.conj = lambda: sa
            a.ev = lambda env: mpmath.exp(env.s(y))
            b.ev = lambda env: mpmath.exp(env.s(c))
            def nz():
                x, yy = self.zatom(a)
                return x * x + yy * yy > 0
            a.cons.append(lambda: mk_raw_z(self, nz, [sa]))
            self.reg_exp(y, sa, 1 / sa, None, nm)
            if self._combo(c) is None:
                self.reg_exp(c, sb, 1 / sb, None, nm + "~")

    def _half_of(self, a, s, y):
        cache = {}

        def half():
            if "v" not in cache:
                h = self._atom(a.name + "h", False, "unit")
                # s = h^2 : treat h as algebraic over s
                alg = P.Alg(h.idx * W, 2, dict(s.n))
                self.reg.algs.append(alg)
                self.reg.algmask |= MASK << (h.idx * W)
                hs = self.s(h)
                h.conj = lambda: 1 / hs
                h.ev = lambda env: mpmath.exp(env.s(y) / 2)
                def rel():
                    x, yy = self.zatom(h)
                    u, w = self.zatom(a)
                    return z3.And(x * x - yy * yy == u, 2 * x * yy == w)
                h.cons.append(lambda: mk_raw_z(self, rel, [hs, s]))
                cache["v"] = (hs, 1 / hs)
            return cache["v"]

        return half

    # --- inverse trigonometric
    def known_tan(self, x):
        for a, t in self.tans:
            if (a - x).is_zero():
                return t
            if (a + x).is_zero():
                return -t
        return None

    def arctan(self, x):
        if x.is_zero():
            return x
        if x.is_const() and x.const_value() == (1, 0):
            return self.pi / 4
        for a, t in self.tans:
            if (t - x).is_zero() and a.is_real() and getattr(a, "isint", False) is False and self._principal_tan(a):
                return a
        if not x.is_real():
            raise Unsupported("arctan of a complex value")
        key = ("arctan", self._skey(x))
        if key in self.ufs:
            return self.ufs[key]
        a = self._atom(f"atan#{len(self.ufs)}", True, "fun")
        s = self.s(a)
        a.ev = lambda env: mpmath.atan(env.s(x).real)
        p = self.pi
        a.cons.append(lambda: mk_raw(s * 2 - p, "<"))
        a.cons.append(lambda: mk_raw(s * 2 + p, ">"))
        # sign agreement, and s < x for x > 0
        a.cons.append(lambda: SB("or", (SB("and", (mk_raw(x, ">"), SB("and", (mk_raw(s, ">"), mk_raw(x - s, ">"))))),
                                        SB("or", (SB("and", (mk_raw(x, "<"), SB("and", (mk_raw(s, "<"), mk_raw(x - s, "<"))))),
                                                  SB("and", (mk_raw(x, "=="), mk_raw(s, "==")))))))) if not x.is_const() else None
        if x.is_const():
            a.cons.pop()
            v = x.const_value()[0]
            lo = Fraction(math.atan(float(v))) - Fraction(1, 10**12)
            a.cons.append(lambda: mk_raw(s - lo, ">"))
            a.cons.append(lambda: mk_raw(s - lo - Fraction(2, 10**12), "<"))
        sg = self.sign_fast(x)
        if sg == 1:
            a.positive = a.nonneg = True
        self.tans.append((s, x))
        self.ufs[key] = s
        i = self.I
        d = 1 + x * x
        v = (1 + i * x) * (1 + i * x) / d
        vi = (1 - i * x) * (1 - i * x) / d

        def half():
            rt = self.sqrt(d, nonneg=True)
            return (1 + i * x) / rt, (1 - i * x) / rt

        self.reg_exp(2 * i * s, v, vi, half, a.name)
        return s

    def _principal_tan(self, a):
        ok = self.query([SB("or", (mk_raw(a * 2 - self.pi, ">="), mk_raw(a * 2 + self.pi, "<=")))],
                        timeout=self.opts["branch_timeout"], model=False)[0]
        return ok == "unsat"

    def arcsin(self, z):
        if z.is_zero():
            return z
        key = ("arcsin", self._skey(z))
        if key in self.ufs:
            return self.ufs[key]
        for name, (sz, ang) in getattr(self, "arcsin_hints", {}).items():
            if (sz - z).is_zero():
                return ang
        c = self.sqrt(1 - z * z)
        i = self.I
        real = z.is_real() and c.is_real()
        if real:
            a = self._atom(f"asin#{len(self.ufs)}", True, "fun")
            s = self.s(a)
            a.ev = lambda env: mpmath.asin(env.s(z).real)
            p = self.pi
            a.cons.append(lambda: mk_raw(s * 2 - p, "<="))
            a.cons.append(lambda: mk_raw(s * 2 + p, ">="))
            self.ufs[key] = s
        else:
            a = self._atom(f"asin#{len(self.ufs)}", False, "cplx")
            b = self._atom(f"asin#{len(self.ufs)}~", False, "cplxbar")
            s, sb = self.s(a), self.s(b)
            a.conj = lambda: sb
            b.conj = lambda: s
            # principal value consistent with numpy.lib.scimath on the real axis beyond 1
            def ev(env):
                zz, cc = env.s(z), env.s(c)
                return -1j * mpmath.log(1j * zz + cc)
            a.ev = ev
            b.ev = lambda env: mpmath.conj(ev(env))
            self.ufs[key] = s
            cb, zb = c.conj(), z.conj()
            self.reg_exp(i * sb, cb + i * zb, cb - i * zb, None, a.name + "~")
        self.reg_exp(i * s, c + i * z, c - i * z, None, a.name)
        return s

    def angle(self, z):
        if z.is_zero():
            return S({})
        if z.is_real():
            sg = self.sign_fast(z) or self.sign_query(z)
            if sg is None:
                if self.decide(SB("cmp", (z, ">="))):
                    return S({})
                return self.pi
            return S({}) if sg > 0 else self.pi
        key = ("angle", self._skey(z))
        if key in self.ufs:
            return self.ufs[key]
        r = sc.absolute(z)
        a = self._atom(f"arg#{len(self.ufs)}", True, "fun")
        s = self.s(a)
        a.ev = lambda env: mpmath.arg(env.s(z))
        p = self.pi
        a.cons.append(lambda: mk_raw(s - p, "<="))
        a.cons.append(lambda: mk_raw(s + p, ">"))
        im = z.imag
        # sign of the angle follows the imaginary part
        a.cons.append(lambda: SB("and", (
            SB("or", (SB("not", (mk_rawb(im, ">"),)), SB("and", (mk_raw(s, ">"), mk_raw(s - p, "<"))))),
            SB("or", (SB("not", (mk_rawb(im, "<"),)), mk_raw(s, "<"))))))
        re = z.real
        a.cons.append(lambda: SB("or", (SB("not", (mk_rawb(im, "=="),)), SB("or", (
            SB("and", (mk_rawb(re, ">"), mk_raw(s, "=="))), SB("or", (mk_rawb(re, "=="), SB("and", (mk_rawb(re, "<"), mk_raw(s - p, "=="))))))))))
        self.ufs[key] = s
        self.reg_exp(self.I * s, z / r, z.conj() / r, None, a.name)
        return s

    # ------------------------------------------------------------------ proving
    def prove_eq(self, lhs, rhs, timeout=None):
        """('proved'|'refuted'|'unknown', env or None)"""
        # formal identity: all atoms independent
        dm, ma, mb = sc._mono_lcm(lhs.dm, rhs.dm)
        df, fa, fb = sc._fac_lcm(lhs.df, rhs.df)
        g = math.gcd(lhs.d0, rhs.d0)
        an = P.pscale(lhs.n, rhs.d0 // g)
        bn = P.pscale(rhs.n, lhs.d0 // g)
        if ma:
            an = {k + ma: c for k, c in an.items()}
        if mb:
            bn = {k + mb: c for k, c in bn.items()}
        for fid, m in fa:
            an = P.pmul(an, P.ppow(self.factors[fid], m))
        for fid, m in fb:
            bn = P.pmul(bn, P.ppow(self.factors[fid], m))
        r = self._formal(an, bn)
        if r == "unsat":
            return "proved", None
        diff = lhs - rhs
        env = self._sample_refute(diff)
        if env is not None:
            return "refuted", env
        if diff.is_real() or True:
            g = SB("cmp", (diff, "!="))
            r, m = self.query([g], timeout=timeout)
            if r == "unsat":
                return "proved", None
            if r == "sat":
                return "refuted", self.model_env(m)
        env = self._search(lambda e, memo: self._is_viol(diff, e, memo))
        if env is not None:
            return "refuted", env
        return "unknown", None

    def _formal(self, a, b):
        """z3: exists assignment of the atoms as independent reals with a != b ?"""
        vs = {}

        def term(n):
            re, im = [], []
            for k, c in n.items():
                fs = []
                ii = k & MASK
                kk = k >> W
                i = 1
                while kk:
                    e = kk & MASK
                    if e:
                        v = vs.get(i)
                        if v is None:
                            v = vs[i] = z3.Real(f"f{i}")
                        fs += [v] * e
                    kk >>= W
                    i += 1
                t = z3.RealVal(c)
                if fs:
                    t = z3.Product([t] + fs)
                (im if ii else re).append(t)
            return (z3.Sum(re) if re else z3.RealVal(0)), (z3.Sum(im) if im else z3.RealVal(0))

        if len(a) + len(b) > 60000:
            # do not ship enormous identical sums through the API: ship the difference
            d = P.psub(a, b)
            a, b = d, {}
            if len(d) > 20000:
                self.stats.formal += 1
                return "sat"
        ar, ai = term(a)
        br, bi = term(b)
        sol = z3.SolverFor("QF_NRA") if False else z3.Solver()
        sol.set("timeout", 30000)
        d = P.psub(a, b)
        sol.add(z3.Or(ar != br, ai != bi))
        if d:
            # not an identity: a rational witness of the non-identity decides 'sat' quickly
            rng = random.Random(3)
            for v in vs.values():
                sol.add(v == rng.randint(2, 97))
        t = time.time()
        r = str(sol.check())
        self.stats.queries += 1
        self.stats.formal += 1
        self.stats.solver_s += time.time() - t
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        if d and r == "unsat":
            r = "sat"  # unlucky pin; the pinned query says nothing
        return r

    def _is_viol(self, diff, env, memo):
        try:
            v = self.eval(diff, env, memo)
        except (ZeroDivisionError, ValueError, OverflowError):
            return False
        if not mpmath.isfinite(v):
            return True
        return abs(v) > mpf(10) ** -15

    def _sample_refute(self, diff):
        for k in sorted(self.alive):
            if self._is_viol(diff, self.samples[k], self._evmemo[k]):
                return dict(self.samples[k])
        return None

    def _search(self, viol, tries=120):
        bases = [a for a in self.reg.atoms if a.base]
        rng = random.Random(99)
        for _ in range(tries):
            env = {a.idx: a.sample(rng) for a in bases}
            memo = {}
            try:
                if self._env_ok(env, memo) and viol(env, memo):
                    return env
            except (ZeroDivisionError, ValueError, KeyError):
                continue
        return None

    def prove(self, b, timeout=None):
        b = sc._tob(b)
        if b is True:
            self.stats.queries += 1
            self.stats.unsat += 1
            return "proved", None
        if b is False:
            nb = True
            env = None
            for k in sorted(self.alive):
                return "refuted", dict(self.samples[k])
            r, m = self.query([True], timeout=timeout)
            if r == "sat":
                return "refuted", self.model_env(m)
            return "unknown", None
        for k in sorted(self.alive):
            if self.eval_sb(b, self.samples[k], self._evmemo[k]) is False:
                return "refuted", dict(self.samples[k])
        nb = b_not(b)
        r, m = self.query([nb], timeout=timeout)
        if r == "unsat":
            return "proved", None
        if r == "sat":
            return "refuted", self.model_env(m)
        env = self._search(lambda e, memo: self.eval_sb(b, e, memo) is False)
        if env is not None:
            return "refuted", env
        return "unknown", None

    def model_env(self, m):
        """base-input values from a z3 model (free ones get a sample)"""
        env = {}
        rng = random.Random(5)
        for a in self.reg.atoms:
            if not a.base:
                continue
            if a.kind == "cplx":
                x, y = self.zatom(a)
                env[a.idx] = mpc(self._mv(m, x, rng, a, 0), self._mv(m, y, rng, a, 1))
            else:
                x, _ = self.zatom(a)
                env[a.idx] = self._mv(m, x, rng, a, 0)
        # an angle is constrained through its phase atom only: read it off there
        read = {}
        for ex, val, inv, half, nm in self.exps:
            if len(ex.n) != 1 or ex.dm or ex.df or len(val.n) != 1 or val.dm or val.df or val.d0 != 1:
                continue
            ((k, c),) = ex.n.items()
            if k & MASK != 1:
                continue
            ats = [a for a in P.atoms_of({k - 1: 1})]
            va = P.atoms_of(val.n)
            if len(ats) != 1 or len(va) != 1:
                continue
            t, u = self.reg.atoms[ats[0]], self.reg.atoms[va[0]]
            if not t.base or u.kind != "unit" or k - 1 != 1 << (t.idx * W) or val.n != {1 << (u.idx * W): 1}:
                continue
            x, y = self.zatom(u)
            z = mpc(self._mv(m, x, rng, t, 0), self._mv(m, y, rng, t, 0))
            if z != 0 and m.eval(x).decl().arity() == 0 and z3.is_arith(m.eval(x)) and not z3.is_const(m.eval(x)) or True:
                if z != 0:
                    read[t.idx] = mpmath.arg(z) * mpf(ex.d0) / mpf(c), 2 * mpmath.pi * mpf(ex.d0) / abs(mpf(c))
        if read:
            # ... up to whole turns, chosen near the model's value so that the conditions of the path hold
            near = {i: mpmath.nint((env[i].real - th) / per) for i, (th, per) in read.items()}
            for i, (th, per) in read.items():
                env[i] = th
            first = dict(env)
            for j in (None, 0, 1, -1, 2, -2, 3, -3):
                if j is not None:
                    for i, (th, per) in read.items():
                        env[i] = th + (near[i] + j) * per
                try:
                    if self._env_ok(env, {}):
                        return env
                except (ZeroDivisionError, ValueError, KeyError, OverflowError):
                    pass
            return first
        return env

    def _mv(self, m, var, rng, a, part):
        v = m.eval(var)
        if z3.is_rational_value(v):
            return mpf(v.numerator_as_long()) / mpf(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            q = v.approx(40)
            return mpf(q.numerator_as_long()) / mpf(q.denominator_as_long())
        s = a.sample(rng)
        if a.kind == "cplx":
            return s.real if part == 0 else s.imag
        return s


def _inputs_of(self, env):
    out = {}
    for name, s in self.inputs.items():
        a = self.names[name]
        v = env.get(a.idx)
        if v is None:
            v = self.samples[0].get(a.idx) if self.samples else None
        if v is None:
            continue
        if a.kind == "cplx":
            out[name] = [float(v.real), float(v.imag)]
        elif a.isint:
            out[name] = int(v.real)
        else:
            out[name] = float(v.real)
    return out


def _any_env(self):
    for k in sorted(self.alive):
        return dict(self.samples[k])
    r, m = self.query([True], timeout=10000)
    if r == "sat":
        return self.model_env(m)
    return None


Ctx.inputs_of = _inputs_of
Ctx.any_env = _any_env


class SymZeroDivision(Exception):
    """division by an expression that is zero on this path"""


class _Env:
    """evaluation environment handed to atom evaluators"""

    __slots__ = ("cx", "env", "memo")

    def __init__(self, cx, env, memo):
        self.cx, self.env, self.memo = cx, env, memo

    def __getitem__(self, i):
        return self.env[i]

    def s(self, x):
        return self.cx.eval(x, self.env, self.memo)


class _Lazy:
    def __init__(self, mk):
        self.mk = mk
        self.v = None

    def __call__(self):
        if self.v is None:
            self.v = self.mk()
        return self.v


def mk_raw(s, op):
    if not isinstance(s, S):
        s = lift(s)
    if s.is_const():
        re, im = s.const_value()
        return sc._OPS[op](re)
    return SB("cmp", (s, op))


mk_rawb = mk_raw


class ZCons(SB):
    """constraint given directly as a z3 term, with the scalars it mentions"""

    __slots__ = ("zf", "ss")

    def __init__(self, zf, ss):
        SB.__init__(self, "raw", ())
        self.zf = zf
        self.ss = ss


def mk_raw_z(cx, zf, ss):
    return ZCons(zf, ss)


_old_z = Ctx.z
_old_atoms = Ctx.atoms_sb
_old_eval = Ctx.eval_sb


def _z(self, b):
    if isinstance(b, ZCons):
        return b.zf()
    return _old_z(self, b)


def _atoms_sb(self, b, acc):
    if isinstance(b, ZCons):
        for s in b.ss:
            self.atoms_s(s, acc)
        return
    _old_atoms(self, b, acc)


def _eval_sb(self, b, env, memo):
    if isinstance(b, ZCons):
        return True
    return _old_eval(self, b, env, memo)


Ctx.z = _z
Ctx.atoms_sb = _atoms_sb
Ctx.eval_sb = _eval_sb
