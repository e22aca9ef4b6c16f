"""Harness API (symbolic and concrete), path exploration and the check driver."""
import builtins
import json
import math
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("ELLI_SRC", "/repo/src")


class CheckFail(Exception):
    pass


# =========================================================================================
# cases
# =========================================================================================
class Case:
    def __init__(self, fn, name, params, opts, tiers, note):
        self.fn = fn
        self.name = name
        self.params = params
        self.opts = opts
        self.tiers = tiers
        self.note = note


class Registry:
    def __init__(self):
        self.cases = []

    def case(self, name=None, quick=True, thorough=True, opts=None, note="", **params):
        tiers = set()
        if quick:
            tiers.add("quick")
        if thorough:
            tiers.add("thorough")

        def deco(fn):
            nm = name or fn.__name__
            if params:
                nm += "[" + ",".join(f"{k}={v}" for k, v in params.items()) + "]"
            self.cases.append(Case(fn, nm, params, opts or {}, tiers, note))
            return fn

        return deco


# =========================================================================================
# concrete harness
# =========================================================================================
class ConcH:
    """runs a case on the real package with real numpy"""

    sym = False

    def __init__(self, inputs):
        import importlib

        import numpy

        self.np = numpy
        self.inputs = inputs
        self.fails = []
        self.outs = []
        self.assume_failed = False
        self._imp = importlib.import_module
        self.checked = 0

    @property
    def elli(self):
        return self._imp("elli")

    def mod(self, name):
        return self._imp(name)

    # inputs (a replay may lack inputs that are declared after the failing check: any admissible value)
    def _rnd(self, name):
        import zlib

        return (zlib.crc32(name.encode()) % 9973) / 9973

    def real(self, name, lo=None, hi=None, positive=None, nonneg=False, sample=None):
        v = self.inputs.get(name)
        if v is None:
            if sample is None:
                a = float(lo) if lo is not None else (0.1 if (positive or nonneg) else -3.0)
                sample = (a, float(hi) if hi is not None else max(a + 3.0, 3.0))
            v = sample[0] + (sample[1] - sample[0]) * self._rnd(name)
        return float(v)

    def integer(self, name, lo, hi):
        v = self.inputs.get(name)
        return int(lo if v is None else v)

    def cplx(self, name, sample=(-2.0, 2.0)):
        v = self.inputs.get(name)
        if v is None:
            a, b = sample
            v = (a + (b - a) * self._rnd(name), a + (b - a) * self._rnd(name + "~"))
        return complex(v[0], v[1])

    def acute(self, name, lo=0, hi=1):
        """angle in (0, pi/2) as 2*arctan(t), t in (0,1)"""
        return 2 * math.atan(self.real(name, sample=(float(lo) + 0.03, float(hi) - 0.03)))

    def acute_cot(self, name, sample=(0.2, 3.0)):
        """angle in (0, pi/2) given by its positive cotangent"""
        return math.pi / 2 - math.atan(self.real(name, sample=sample))

    def angle(self, name, lo=None, hi=None, sample=(-3.0, 3.0)):
        return self.real(name, sample=sample)

    def deg(self, rad):
        return rad * 180 / math.pi

    def const(self, x):
        return float(x)

    def ints(self, x):
        """integer array of given numbers"""
        return self.np.array(x, dtype=int)

    def arr(self, x):
        return self.np.array(x)

    def numeral(self, x):
        """the decimal numeral of a number, for text files"""
        return self.np.format_float_positional(float(x), trim="0")

    def text(self, name, run, want, texts):
        """run on every text of the forms in texts: name -> (regular expression or list of them that apply or not, sample)"""
        self.checked += 1
        vals = [self.inputs.get(k, sample) for k, (_, sample) in texts.items()]
        try:
            got = bool(run(*vals))
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        if got != want:
            self.fails.append([name, f"{got} for {vals!r}"])

    def sqrt(self, x):
        import cmath

        r = cmath.sqrt(x)
        return r.real if (isinstance(x, (int, float)) and x >= 0) else r

    def exp(self, x):
        import cmath

        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)

    def conj(self, x):
        return self.np.conj(x)

    def special(self, name, x):
        """dawsn, digamma, gamma"""
        import scipy.special

        return getattr(scipy.special, name)(x)

    def sci(self, name):
        """a CODATA value by scipy name"""
        import scipy.constants

        return scipy.constants.value(name)

    def hint(self, *r):
        pass

    def cbrt_hint(self, *r):
        pass

    def opt(self, **k):
        pass

    def lemma(self, name, c):
        """an intermediate fact: an obligation of its own, then available to the solver"""
        self.true("lemma " + name, c)

    # assumptions / checks
    def assume(self, c):
        if not bool(c):
            self.assume_failed = True
            raise AssumeFailed()

    def branch(self, c):
        return bool(c)

    def _flat(self, x):
        np = self.np
        if type(x).__module__.startswith("pandas"):
            x = x.to_numpy()
        if isinstance(x, (list, tuple)):
            x = np.asarray(x)
        if hasattr(x, "numpy") and type(x).__module__.startswith("torch"):
            x = x.numpy()
        return np.asarray(x)

    def eq(self, name, a, b, tol=1e-7):
        np = self.np
        self.checked += 1
        try:
            a, b = self._flat(a), self._flat(b)
            if a.shape != b.shape:
                if not (a.ndim == 0 or b.ndim == 0):
                    self.fails.append([name, f"shape {a.shape} != {b.shape}"])
                    return
            a = a.astype(complex)
            b = b.astype(complex)
        except (TypeError, ValueError) as e:
            self.fails.append([name, f"not comparable: {type(e).__name__}: {e}"])
            return
        for v in a.reshape(-1)[:40]:
            self.outs.append([name, v.real, v.imag])
        a, b = np.broadcast_arrays(a, b)
        if a.size == 0:
            return
        scale = max(1.0, float(np.nanmax(np.abs(b))) if np.isfinite(b).any() else 1.0) if tol >= 0 else 1.0
        d = np.abs(a - b)
        bad = ~(d <= abs(tol) * scale)
        if bad.any():
            i = np.argmax(np.where(np.isnan(d), np.inf, d))
            self.fails.append([name, f"{a.reshape(-1)[i]} != {b.reshape(-1)[i]}"])

    def true(self, name, c):
        self.checked += 1
        np = self.np
        try:
            ok = bool(np.all(c))
        except Exception as e:
            self.fails.append([name, f"{type(e).__name__}: {e}"])
            return
        self.outs.append([name, float(ok), 0.0])
        if not ok:
            self.fails.append([name, "false"])

    def le(self, name, a, b, tol=1e-7):
        np = self.np
        self.checked += 1
        a, b = self._flat(a), self._flat(b)
        for v in a.reshape(-1)[:40]:
            self.outs.append([name, float(np.real(v)), float(np.imag(v))])
        if np.iscomplexobj(a) or np.iscomplexobj(b):
            if np.abs(np.imag(a)).max() > tol or np.abs(np.imag(b)).max() > tol:
                self.fails.append([name, "complex"])
                return
            a, b = np.real(a), np.real(b)
        d = a - b
        if not (d <= tol * np.maximum(1, np.abs(b))).all():
            self.fails.append([name, f"{a} > {b}"])

    def raises(self, name, exc, fn):
        self.checked += 1
        try:
            r = fn()
        except exc:
            self.outs.append([name, 1.0, 0.0])
            return True
        except Exception as e:
            self.fails.append([name, f"raised {type(e).__name__}: {e}"])
            return False
        self.fails.append([name, "did not raise"])
        return False

    def fail(self, name, why=""):
        self.checked += 1
        self.fails.append([name, why])

    def same(self, name, a, b):
        """plain python equality (strings, ints, types ...)"""
        self.checked += 1
        if not (a == b):
            self.fails.append([name, f"{a!r} != {b!r}"])


class AssumeFailed(Exception):
    pass


def run_concrete(case, inputs):
    """in the current process"""
    h = ConcH(inputs)
    exc = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            import numpy

            with numpy.errstate(all="ignore"):
                case.fn(h, **case.params)
        except AssumeFailed:
            pass
        except Exception as e:
            exc = f"{type(e).__name__}: {e}"
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(f.filename, '/')}:{f.lineno}" for f in tb][-3:]
            h.fails.append(["exception", exc + " at " + " < ".join(reversed(where))])
    return {"fails": h.fails, "outs": h.outs, "assume_failed": h.assume_failed, "checked": h.checked}


# =========================================================================================
# symbolic harness
# =========================================================================================
class SymH:
    sym = True

    def __init__(self, cx, loader):
        from . import nparr, scalar

        self.cx = cx
        self.L = loader
        self.np = loader.np
        self.sc = scalar
        self.nparr = nparr
        nparr.NUMERALS.clear()
        self.results = []
        self.outs = []
        self.derived = []
        self.checked = 0

    @property
    def elli(self):
        return self.L.load("elli")

    def mod(self, name):
        return self.L.load(name)

    def real(self, name, lo=None, hi=None, positive=None, nonneg=False, sample=None):
        return self.cx.real(name, lo, hi, positive, nonneg, sample)

    def integer(self, name, lo, hi):
        return self.cx.integer(name, lo, hi)

    def cplx(self, name, sample=(-2.0, 2.0)):
        return self.cx.cplx(name, sample)

    def acute(self, name, lo=0, hi=1):
        t = self.cx.real(name, sample=(float(lo) + 0.03, float(hi) - 0.03))
        at = self.cx.names[name]
        at.positive = at.nonneg = True
        from .ctx import mk_raw

        at.cons.append(lambda: mk_raw(t - self.sc.exact(float(lo)), ">"))
        at.cons.append(lambda: mk_raw(t - self.sc.exact(float(hi)), "<"))
        return self.cx.arctan(t) * 2

    def acute_cot(self, name, sample=(0.2, 3.0)):
        p = self.real(name, positive=True, sample=sample)
        return self.sc.pi() / 2 - self.cx.arctan(p)

    def angle(self, name, lo=None, hi=None, sample=(-3.0, 3.0)):
        """a real angle in radians; the solver model's angle is read off its phase atom"""
        return self.cx.real(name, lo, hi, sample=sample)

    def deg(self, rad):
        return rad * 180 / self.sc.pi()

    def const(self, x):
        return self.sc.lift(x)

    def ints(self, x):
        return self.np.array([self.sc.lift(int(v)) for v in x]).view(self.nparr.IntSA)

    def arr(self, x):
        return self.np.array(x)

    def numeral(self, x):
        """a numeral that stands for the symbolic number wherever the code reads it as a number"""
        N = self.nparr.NUMERALS
        v = 7314160.5 + len(N)
        N[v] = self.sc.lift(x)
        return f"{v:.6f}"

    def sqrt(self, x):
        return self.sc.sqrt(x)

    def exp(self, x):
        return self.sc.exp(self.sc.lift(x))

    def conj(self, x):
        return self.np.conj(x)

    def special(self, name, x):
        return self.nparr.apply1(self.nparr._un(lambda v: self.nparr._uf_scipy(name, v)), x)

    def sci(self, name):
        return self.nparr.sci_value(name)

    def hint(self, *rs):
        for r in rs:
            self.cx.add_hint(self.sc.lift(r))

    def cbrt_hint(self, *rs):
        if not hasattr(self.cx, "cbrt_hints"):
            self.cx.cbrt_hints = []
        for r in rs:
            r = self.sc.lift(r)
            self.cx.cbrt_hints.append((r * r * r, r))

    def opt(self, **k):
        self.cx.opts.update(k)

    def assume(self, c):
        c = self._scalar_bool(c)
        self.cx.assume(c)

    def branch(self, c):
        return bool(c)

    def lemma(self, name, c):
        self.checked += 1
        c = self._scalar_bool(c)
        self.outs.append(("lemma " + name, self.sc.S.const(1)))
        r, env = self.cx.prove(c)
        self._rec("lemma " + name, r, env)
        if r == "proved":
            self.cx.assume(c)

    def _scalar_bool(self, c):
        import numpy as np

        if isinstance(c, np.ndarray):
            return self.nparr.np_all(c)
        return c

    def _flat(self, x):
        import numpy as np

        np_ = self.nparr
        if isinstance(x, np_.TorchTensor):
            x = x.a
        if np_.is_pd(x):
            x = x.to_numpy()
        if isinstance(x, (list, tuple)):
            x = np_.asarray(x)
        if isinstance(x, np.ndarray):
            return x.shape, [np_._elem(v) if not isinstance(v, (bool, np.bool_)) else self.sc.S.const(int(v)) for v in np.asarray(x).reshape(-1)]
        v = np_._elem(x)
        if isinstance(v, bool):
            v = self.sc.S.const(int(v))
        return (), [v]

    def _sbn(self, v):
        return v._n() if type(v) is self.sc.SB else v

    def eq(self, name, a, b, tol=1e-7):
        self.checked += 1
        try:
            sa, fa = self._flat(a)
            sb, fb = self._flat(b)
        except (TypeError, ValueError) as e:
            self._rec(name, "refuted", None, f"not comparable: {e}")
            return
        if sa != sb:
            if sa == ():
                fa = fa * len(fb)
            elif sb == ():
                fb = fb * len(fa)
            else:
                self._rec(name, "refuted", self._any_env(), f"shape {sa} != {sb}")
                return
        for v in fa[:40] if sa != () else fa[:1]:
            self.outs.append((name, v))
        for i, (x, y) in enumerate(zip(fa, fb)):
            x, y = self._sbn(x), self._sbn(y)
            r, env = self.cx.prove_eq(x, y)
            self._rec(f"{name}[{i}]", r, env)
            if r == "refuted":
                break

    def le(self, name, a, b, tol=1e-7):
        self.checked += 1
        sa, fa = self._flat(a)
        sb, fb = self._flat(b)
        n = max(len(fa), len(fb))
        for v in fa[:40]:
            self.outs.append((name, v))
        if len(fa) < n:
            fa = fa * n
        if len(fb) < n:
            fb = fb * n
        for i, (x, y) in enumerate(zip(fa, fb)):
            for z in (x, y):
                if not z.is_real():
                    r, env = self.cx.prove_eq(z, z.real)
                    self._rec(f"{name}[{i}] real", r, env)
            x, y = x.real, y.real
            r, env = self.cx.prove(x <= y)
            self._rec(f"{name}[{i}]", r, env)
            if r == "refuted":
                break

    def true(self, name, c):
        self.checked += 1
        c = self._scalar_bool(c)
        self.outs.append((name, self.sc.S.const(1)))
        r, env = self.cx.prove(c)
        self._rec(name, r, env)

    def same(self, name, a, b):
        self.checked += 1
        ok = a == b
        if type(ok) is self.sc.SB:
            ok = bool(ok)
        self._rec(name, "proved" if ok else "refuted", None if ok else self._any_env(), "" if ok else f"{a!r} != {b!r}")

    def raises(self, name, exc, fn):
        from .poly import Unsupported
        from .ctx import PathLimit
        from .scalar import Infeasible

        self.checked += 1
        try:
            fn()
        except (Unsupported, PathLimit, Infeasible):
            raise
        except exc:
            self.outs.append((name, self.sc.S.const(1)))
            self._rec(name, "proved", None)
            return True
        except Exception as e:
            self._rec(name, "refuted", self._any_env(), f"raised {type(e).__name__}: {e}")
            return False
        self._rec(name, "refuted", self._any_env(), "did not raise")
        return False

    def fail(self, name, why=""):
        self.checked += 1
        self._rec(name, "refuted", self._any_env(), why)

    def fp_decide(self, run, names, fmt, assume, conclude, timeout=240000):
        """IEEE-754 execution of run() on the natively imported code (see fp.py)"""
        from . import fp

        for name, st, inp, dt in fp.explore(run, names, fmt, assume, conclude, timeout=timeout):
            self.checked += 1
            self.cx.stats.queries += 1
            self.cx.stats.solver_s += dt
            if st == "proved":
                self.cx.stats.unsat += 1
            self._rec(name, st, None)
            if inp is not None:
                self.results[-1] = (name, st, inp, "rounding")

    def text(self, name, run, want, texts):
        """texts: name -> (form, sample); a form is a regular expression, or ("and"|"or"|"not", forms...)"""
        import z3

        from . import text as T

        def lang(f):
            if isinstance(f, str):
                return T.language(f)
            op, *fs = f
            ls = [lang(x) for x in fs]
            if op == "not":
                return z3.Intersect(z3.Complement(ls[0]), z3.Star(T._ANY))
            return (z3.Intersect if op == "and" else z3.Union)(*ls)

        langs = {k: lang(f) for k, (f, _) in texts.items()}
        for nm, st, inp, stats in T.explore(run, list(texts), langs, want):
            self.checked += 1
            for r, dt in stats:
                self.cx.stats.queries += 1
                self.cx.stats.solver_s += dt
                self.cx.stats.unsat += r == "unsat"
            self._rec(f"{name} {nm}", st if st in ("proved", "refuted") else "unknown", None, "" if st in ("proved", "refuted") else st)
            if inp is not None:
                self.results[-1] = (f"{name} {nm}", st, inp, "text")

    def _any_env(self):
        return self.cx.any_env()

    def _rec(self, name, status, env, why=""):
        inp = None
        if env is not None:
            inp = self.cx.inputs_of(env)
        if os.environ.get("SYMX_TIME"):
            now = time.time()
            print(f"      [{now - getattr(self, '_tlast', now):6.2f}s] {name} {status}", file=sys.stderr)
            self._tlast = now
        self.results.append((name, status, inp, why))


# =========================================================================================
# path exploration (each path in a forked child)
# =========================================================================================
def _fork_run(fn, timeout, mem=None):
    """run fn() in a child, return its pickled result or ('timeout'|'crash', msg)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            sys.setrecursionlimit(4000)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("crash", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    timed_out = False
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    if timed_out:
        return ("timeout", "")
    if not chunks:
        return ("crash", "child ended without a result")
    return pickle.loads(b"".join(chunks))


COVDIR = os.environ.get("SYMX_COV")


def sym_path(case, base, prefix, seed):
    """run one symbolic path in this (forked) process"""
    from . import ctx as C
    from . import scalar as sc
    from .poly import Unsupported

    cx, loader = base
    cx.prefix = list(prefix)
    cx.opts.update(case.opts)
    h = SymH(cx, loader)
    fns, lines = set(), set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")

        def on_start(code, off):
            if code.co_filename.startswith(SRC):
                fns.add(f"{os.path.relpath(code.co_filename, SRC)}:{code.co_qualname}")
            return mon.DISABLE

        mon.register_callback(tool, mon.events.PY_START, on_start)
        ev = mon.events.PY_START
        if COVDIR:  # tools/coverage.py: which lines of elli are executed symbolically
            def on_line(code, ln):
                if code.co_filename.startswith(SRC):
                    lines.add((code.co_filename, ln))
                return mon.DISABLE

            mon.register_callback(tool, mon.events.LINE, on_line)
            ev |= mon.events.LINE
        mon.set_events(tool, ev)
        mon.restart_events()
    except ValueError:
        pass
    status = "done"
    why = ""
    t0 = time.time()
    import numpy

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with numpy.errstate(all="ignore"):
            try:
                case.fn(h, **case.params)
            except sc.Infeasible:
                status = "infeasible"
            except Unsupported as e:
                status = "unsupported"
                why = f"{e} @ {_where(e)}"
            except C.PathLimit as e:
                status = "limit"
                why = str(e)
            except RecursionError as e:
                status = "unsupported"
                why = "recursion"
                if os.environ.get("SYMX_TB"):
                    print("".join(traceback.format_exc().splitlines(True)[-30:]), file=sys.stderr)
            except MemoryError:
                status = "unsupported"
                why = "memory"
            except Exception as e:
                status = "exception"
                why = f"{type(e).__name__}: {e} @ {_where(e)}"
                if os.environ.get("SYMX_TB"):
                    traceback.print_exc()
    try:
        mon.set_events(tool, 0)
    except ValueError:
        pass
    if COVDIR:
        with open(os.path.join(COVDIR, f"cov_{os.getpid()}_{time.time_ns()}"), "w") as f:
            f.write("".join(f"{os.path.relpath(a, SRC)}:{b}\n" for a, b in lines))
    out = {
        "status": status,
        "why": why,
        "trace": cx.trace,
        "results": h.results,
        "fns": sorted(fns),
        "stats": cx.stats.as_dict(),
        "unknown_branch": cx.unknown_branch,
        "checked": h.checked,
        "wall": time.time() - t0,
        "inputs": [n for n in cx.inputs],
        "validate": None,
        "reach": False,
        "env": None,
        "undef": cx.undef,
        "assume": [],
    }
    if status in ("done", "exception"):
        env = None
        ks = sorted(cx.alive)
        if ks:
            k = ks[seed % len(ks)]
            env = dict(cx.samples[k])
            out["reach"] = True
            out["reach_by"] = "sample"
        else:
            try:
                r, m = cx.query([True], timeout=4000)
            except Exception:
                r, m = "unknown", None
            if r == "sat":
                out["reach"] = True
                out["reach_by"] = "solver"
                env = cx.model_env(m)
            elif r == "unsat":
                out["status"] = "infeasible"
        if env is not None:
            out["env"] = cx.inputs_of(env)
            vals = []
            if out.get("reach_by") == "sample":
                memo = {}
                import mpmath

                for nm, v in h.outs[:400]:
                    try:
                        z = cx.eval(v, env, memo) if type(v) is sc.S else None
                        vals.append((nm, float(z.real), float(z.imag)) if z is not None and mpmath.isfinite(z) else None)
                    except Exception:
                        vals.append(None)
                out["validate"] = vals
        # further samples of this path, for replay attempts
        out["envs"] = [cx.inputs_of(cx.samples[k]) for k in ks]
    return out


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if SRC in f.filename or "/props/" in f.filename]
    return " < ".join(reversed(fr[-3:])) + (" | " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-2:])) if os.environ.get("SYMX_DEBUG") else "")


def make_base(seed):
    from . import ctx, loader

    cx = ctx.Ctx(seed=seed)
    L = loader.Loader()
    L.load("elli")
    return cx, L


def run_case(case, seed, tier):
    """explore all paths of one case; executed in its own process"""
    t_start = time.time()
    budget = case.opts.get("timeout", 240 if tier == "quick" else 1500)
    max_paths = case.opts.get("max_paths", 400 if tier == "quick" else 4000)
    res = {
        "case": case.name, "paths": 0, "infeasible": 0, "checks": 0, "obligations": 0, "proved": 0,
        "undecided": [], "refuted": [], "violations": [], "fns": set(), "stats": {}, "validated": 0,
        "validation_mismatch": [], "reached": 0, "inputs": [], "samples": [], "decisions": 0,
    }
    try:
        base = make_base(seed)
    except Exception as e:
        # the package does not load symbolically: concrete import decides whether it is broken
        res["undecided"].append(f"load: {type(e).__name__}: {e} @ {_where(e)}")
        base = None
    work = [[]] if base else []
    nval = 0
    while work:
        prefix = work.pop()
        left = budget - (time.time() - t_start)
        if left <= 1 or res["paths"] >= max_paths:
            res["undecided"].append(f"exploration limit ({res['paths']} paths, {len(work) + 1} left)")
            break
        kind, out = _fork_run(lambda: sym_path(case, base, prefix, seed), left)
        if kind != "ok":
            res["undecided"].append(f"path {len(prefix)}: {kind} {out[-400:]}")
            continue
        tr = out["trace"]
        for i in range(len(prefix), len(tr)):
            if tr[i][1]:
                work.append([tuple(x) for x in tr[:i]] + [(not tr[i][0], True)])
        for k, v in out["stats"].items():
            res["stats"][k] = res["stats"].get(k, 0) + v
        res["fns"].update(out["fns"])
        if out["status"] == "infeasible":
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        res["decisions"] += sum(1 for x in tr if x[1])
        res["checks"] += out["checked"]
        if out["inputs"] and not res["inputs"]:
            res["inputs"] = out["inputs"]
        if out["reach"]:
            res["reached"] += 1
        cands = []
        for nm, st, inp, why in out["results"]:
            res["obligations"] += 1
            if st == "proved":
                res["proved"] += 1
            elif st == "refuted":
                cands.append((nm, inp, why))
            else:
                res["undecided"].append(f"{nm}: {st} {why}")
        if out["status"] in ("unsupported", "limit"):
            res["undecided"].append(f"{out['status']}: {out['why']}")
        if out["status"] == "exception":
            cands.append(("exception " + out["why"], out["env"], out["why"]))
        # ---- replay of counterexamples on the real code
        for nm, inp, why in cands:
            tried = []
            hit = None
            for e in [inp] + list(out.get("envs") or [])[:4]:
                if e is None or e in tried:
                    continue
                tried.append(e)
                k2, c = _fork_run(lambda: run_concrete(case, e), 120)
                if k2 == "ok" and c["fails"] and not c["assume_failed"]:
                    hit = (e, c["fails"])
                    break
            if hit is None and not out["inputs"]:
                k2, c = _fork_run(lambda: run_concrete(case, {}), 120)
                if k2 == "ok" and c["fails"]:
                    hit = ({}, c["fails"])
            if hit:
                res["violations"].append({"case": case.name, "check": nm, "why": why, "inputs": hit[0], "fails": hit[1]})
            else:
                res["undecided"].append(f"{nm}: counterexample not reproduced on the real code {why} {inp}")
            res["refuted"].append(nm)
        # ---- translator validation: same inputs through the real code
        if out["env"] is not None and nval < case.opts.get("validate", 3) and not cands and out["status"] == "done":
            nval += 1
            k2, c = _fork_run(lambda: run_concrete(case, out["env"]), 120)
            if k2 != "ok":
                res["undecided"].append(f"validation run: {k2} {c[-300:]}")
            elif c["assume_failed"]:
                pass
            elif c["fails"]:
                res["violations"].append({"case": case.name, "check": "validation", "why": "concrete run of the harness fails",
                                          "inputs": out["env"], "fails": c["fails"]})
            else:
                bad = None
                n = 0
                if out["validate"] is not None:
                    for a, b in zip(out["validate"], c["outs"]):
                        if a is None:
                            continue
                        n += 1
                        za, zb = complex(a[1], a[2]), complex(b[1], b[2])
                        if a[0] != b[0] or not abs(za - zb) <= 1e-6 * max(1, abs(zb)):
                            bad = (a, b)
                            break
                if bad:
                    res["validation_mismatch"].append(str(bad))
                    res["undecided"].append(f"encoding and real code disagree: {bad} at {out['env']}")
                else:
                    res["validated"] += 1
                    if len(res["samples"]) < 2:
                        res["samples"].append({"case": case.name, "inputs": out["env"], "outputs_compared": n})
        if res["violations"] and len(res["violations"]) >= 3:
            break
    # fallback for cases the encoder could not decide: the real code at sample points
    if res["undecided"] and not res["violations"]:
        for e in (res.get("fallback") or [s["inputs"] for s in res["samples"]] or []):
            pass
        rnd = _sample_inputs(case, seed, 6)
        for e in rnd:
            k2, c = _fork_run(lambda: run_concrete(case, e), 60)
            if k2 == "ok" and c["fails"] and not c["assume_failed"]:
                res["violations"].append({"case": case.name, "check": "replay", "why": "; ".join(res["undecided"])[:300],
                                          "inputs": e, "fails": c["fails"]})
                break
    res["fns"] = sorted(res["fns"])
    res["wall"] = time.time() - t_start
    if not res["reached"] and not res["violations"]:
        res["undecided"].append("no path of the harness was shown reachable")
    return res


class _SampleH(ConcH):
    """concrete run that draws its inputs as it goes"""

    def __init__(self, rng):
        ConcH.__init__(self, {})
        self.rng = rng

    def real(self, name, lo=None, hi=None, positive=None, nonneg=False, sample=None):
        if name not in self.inputs:
            if sample is None:
                slo = float(lo) if lo is not None else (0.1 if (positive or nonneg) else -3.0)
                sample = (slo, float(hi) if hi is not None else max(slo + 3.0, 3.0))
            a, b = float(sample[0]), float(sample[1])
            self.inputs[name] = a + (b - a) * self.rng.randint(1, 9999) / 10000
        return self.inputs[name]

    def integer(self, name, lo, hi):
        return int(self.inputs.setdefault(name, self.rng.randint(lo, hi)))

    def cplx(self, name, sample=(-2.0, 2.0)):
        a, b = sample
        if name not in self.inputs:
            self.inputs[name] = [a + (b - a) * self.rng.randint(1, 9999) / 10000 for _ in (0, 1)]
        return complex(*self.inputs[name])

    def acute(self, name, lo=0, hi=1):
        return 2 * math.atan(self.real(name, sample=(float(lo) + 0.03, float(hi) - 0.03)))

    def acute_cot(self, name, sample=(0.2, 3.0)):
        return math.pi / 2 - math.atan(self.real(name, positive=True, sample=sample))

    def angle(self, name, lo=None, hi=None, sample=(-3.0, 3.0)):
        return self.real(name, lo, hi, sample=sample)


def _sample_inputs(case, seed, n):
    out = []
    for i in range(n):
        def go():
            h = _SampleH(random.Random(seed * 1000 + i))
            import numpy

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with numpy.errstate(all="ignore"):
                    try:
                        case.fn(h, **case.params)
                    except AssumeFailed:
                        return None
                    except Exception:
                        pass
            return h.inputs

        k, r = _fork_run(go, 60)
        if k == "ok" and r is not None:
            out.append(r)
    return out
