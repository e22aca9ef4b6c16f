"""Symbolic texts: the real code runs on strings that stand for every text of a language.

Only recognisers built from regular expressions, str methods listed in Str and comparisons with
literals are followed; each decision is a query to z3's string solver, and the exploration forks by
re-execution.  Texts are over ASCII without NUL."""
import re as _re
import time

import z3

try:
    from re import _constants as K
    from re import _parser as P
except ImportError:  # Python < 3.11
    import sre_constants as K
    import sre_parse as P

from .poly import Unsupported

_ALPHA = [chr(i) for i in range(1, 128)]
_WS = [c for c in _ALPHA if c.isspace() and c in " \t\n\r\f\v"]
_WS_STR = [c for c in _ALPHA if c.isspace()]


def _chars(cs):
    """a z3 regular expression for one character out of a set"""
    codes = sorted(ord(c) for c in cs)
    if not codes:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    parts, a, b = [], codes[0], codes[0]
    for c in codes[1:] + [None]:
        if c is not None and c == b + 1:
            b = c
            continue
        parts.append(z3.Range(_lit(a), _lit(b)) if a != b else z3.Re(z3.StringVal(_lit(a))))
        a = b = c
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


def _lit(code):
    return chr(code) if 32 <= code < 127 and chr(code) != "\\" else "\\u{%x}" % code


def _string(s):
    return z3.StringVal("".join(_lit(ord(c)) for c in s))


_ANY = _chars(_ALPHA)
_CAT = {
    K.CATEGORY_DIGIT: set("0123456789"),
    K.CATEGORY_SPACE: set(_WS_STR),
    K.CATEGORY_WORD: set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"),
}


def _cat(c):
    neg = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}
    if c in neg:
        return set(_ALPHA) - _CAT[neg[c]]
    return _CAT[c]


class _Tr:
    """translation; the language is over the whole text, marks for ^ and $ are solved by splitting off the context"""

    def __init__(self, flags):
        self.flags = flags

    def set_of(self, op, av):
        if op is K.LITERAL:
            s = {chr(av)}
        elif op is K.NOT_LITERAL:
            s = set(_ALPHA) - self.fold({chr(av)})
            return s
        elif op is K.ANY:
            return set(_ALPHA) if self.flags & _re.S else set(_ALPHA) - {"\n"}
        elif op is K.IN:
            s, neg = set(), False
            for o, a in av:
                if o is K.NEGATE:
                    neg = True
                elif o is K.LITERAL:
                    s.add(chr(a))
                elif o is K.RANGE:
                    s.update(chr(i) for i in range(a[0], min(a[1], 127) + 1))
                elif o is K.CATEGORY:
                    s |= _cat(a)
                else:
                    raise Unsupported(f"regular expression element {o}")
            s = self.fold(s)
            return set(_ALPHA) - s if neg else s & set(_ALPHA)
        else:
            return None
        return self.fold(s) & set(_ALPHA)

    def fold(self, s):
        if self.flags & _re.I:
            return {c for x in s for c in (x.lower(), x.upper())}
        return s

    def seq(self, items):
        rs = [self.one(op, av) for op, av in items]
        if not rs:
            return z3.Re(z3.StringVal(""))
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(self, op, av):
        s = self.set_of(op, av)
        if s is not None:
            return _chars(s)
        if op is K.SUBPATTERN:
            return self.seq(av[-1])
        if op is K.BRANCH:
            rs = [self.seq(x) for x in av[1]]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is K.MAXREPEAT or hi == K.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(*([r] * lo), z3.Star(r))
            if (lo, hi) == (0, 1):
                return z3.Option(r)
            fixed = [r] * lo
            opt = [z3.Option(r)] * (hi - lo)
            rs = fixed + opt
            if not rs:
                return z3.Re(z3.StringVal(""))
            return rs[0] if len(rs) == 1 else z3.Concat(*rs)
        raise Unsupported(f"regular expression element {op}")


def _begin(it):
    return it[0] is K.AT and it[1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING)


def _end(it):
    return it[0] is K.AT and it[1] in (K.AT_END, K.AT_END_STRING)


def language(pattern, flags=0, mode="full"):
    """the texts on which re.search / re.match / re.fullmatch succeeds"""
    tree = P.parse(pattern, flags)
    flags = tree.state.flags if hasattr(tree, "state") else flags
    if flags & (_re.M | _re.L):
        raise Unsupported("multi-line regular expressions")
    any_ = z3.Star(_ANY)

    def alt(items, first=True):
        items = list(items)
        if len(items) == 1 and items[0][0] is K.SUBPATTERN and any(_begin(i) or _end(i) for i in list(items[0][1][-1])):
            return alt(items[0][1][-1])
        if len(items) == 1 and items[0][0] is K.BRANCH:
            rs = [alt(b) for b in items[0][1][1]]
            return z3.Union(*rs)
        begin = end = None
        while items and _begin(items[0]):
            begin = True
            items = items[1:]
        while items and _end(items[-1]):
            end = items[-1][1]
            items = items[:-1]
        r = _Tr(flags).seq(items)
        pre = [] if (begin or mode in ("match", "full")) else [any_]
        if mode == "full":
            post = []
        elif end is None:
            post = [any_]
        elif end is K.AT_END:
            post = [z3.Option(z3.Re(_string("\n")))]
        else:
            post = []
        rs = pre + [r] + post
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    return alt(tree)


# ------------------------------------------------------------------ exploration


class Run:
    """one execution: decisions taken so far, constraints on the texts"""

    def __init__(self, prefix, stats):
        self.prefix, self.trace, self.cons, self.stats, self.n = prefix, [], [], stats, 0

    def fresh(self):
        self.n += 1
        return z3.String(f"_t{self.n}")

    def decide(self, f):
        i = len(self.trace)
        if i < len(self.prefix):
            v, both = self.prefix[i]
        else:
            yes, no = self.check(f), self.check(z3.Not(f))
            if "unknown" in (yes, no):
                raise Unsupported("undecided text query")
            if yes == "unsat" and no == "unsat":
                raise Unsupported("contradictory text")
            v, both = yes == "sat", yes == no == "sat"
        self.trace.append((v, both))
        self.cons.append(f if v else z3.Not(f))
        return v

    def check(self, f=None, model=False):
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(*self.cons)
        if f is not None:
            s.add(f)
        t = time.time()
        r = str(s.check())
        self.stats.append((r, time.time() - t))
        if model:
            return r, s.model() if r == "sat" else None
        return r


CUR = None


class Str:
    """a symbolic text, or such a text with blanks stripped; every question is whether it belongs to a language"""

    def __init__(self, term, stripped=()):
        self.t, self.stripped = term, stripped

    def among(self, lang):
        for chars, left, right in reversed(self.stripped):
            any_, cs = z3.Star(_ANY), set(chars)
            ws, inner = z3.Star(_chars(cs)), _chars(set(_ALPHA) - cs)
            if left:
                lang = z3.Intersect(lang, z3.Option(z3.Concat(inner, any_)))
            if right:
                lang = z3.Intersect(lang, z3.Option(z3.Concat(any_, inner)))
            parts = ([ws] if left else []) + [lang] + ([ws] if right else [])
            lang = z3.Concat(*parts)
        return CUR.decide(z3.InRe(self.t, lang))

    @staticmethod
    def _lang(o):
        if not isinstance(o, str):
            raise Unsupported("comparison of symbolic texts")
        return z3.Re(_string(o))

    def __bool__(self):
        return not self.among(self._lang(""))

    def __eq__(self, o):
        return isinstance(o, str) and self.among(self._lang(o))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def startswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return any(self.among(z3.Concat(self._lang(x), z3.Star(_ANY))) for x in ps)

    def endswith(self, p):
        ps = p if isinstance(p, tuple) else (p,)
        return any(self.among(z3.Concat(z3.Star(_ANY), self._lang(x))) for x in ps)

    def __contains__(self, o):
        return self.among(z3.Concat(z3.Star(_ANY), self._lang(o), z3.Star(_ANY)))

    def _strip(self, chars, left, right):
        return Str(self.t, self.stripped + (("".join(_WS_STR) if chars is None else chars, left, right),))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} of a symbolic text")


class Match:
    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"match.{n} of a symbolic text")


class Pattern:
    """a compiled expression"""

    def __init__(self, real):
        self.real = real

    def _run(self, mode, s, *a, **k):
        if isinstance(s, Str):
            return Match() if s.among(language(self.real.pattern, self.real.flags & ~_re.U, mode)) else None
        return getattr(self.real, "fullmatch" if mode == "full" else mode)(s, *a, **k)

    def search(self, s, *a, **k):
        return self._run("search", s, *a, **k)

    def match(self, s, *a, **k):
        return self._run("match", s, *a, **k)

    def fullmatch(self, s, *a, **k):
        return self._run("full", s, *a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


def make_re():
    import types

    m = types.ModuleType("re")
    m.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith("__")})

    def compile_(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(_re.compile(p, flags))

    m.compile = compile_
    for n in ("search", "match", "fullmatch"):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(compile_(p, flags), n)(s))
    for n in ("sub", "subn", "split", "findall", "finditer"):
        setattr(m, n, lambda p, *a, _f=getattr(_re, n), **k: _f(p.real if isinstance(p, Pattern) else p, *a, **k))
    return m


def explore(run, names, langs, want, limit=60):
    """yields (name, status, texts or None, solver seconds, queries)"""
    global CUR
    work = [[]]
    paths = 0
    terms = {n: z3.String(n) for n in names}
    try:
        while work:
            prefix = work.pop()
            paths += 1
            stats = []
            if paths > limit:
                yield "texts", "path limit", None, stats
                return
            CUR = Run(prefix, stats)
            for n in names:
                CUR.cons.append(z3.InRe(terms[n], langs[n]))
            if not prefix and CUR.check() != "sat":
                yield "texts", "no text of the given form", None, stats
                return
            try:
                got = run(*[Str(terms[n]) for n in names])
                got = bool(got)
            except Unsupported as e:
                yield "texts", f"unsupported: {e}", None, stats
                continue
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            tr = CUR.trace
            for i in range(len(prefix), len(tr)):
                if tr[i][1]:
                    work.append(list(tr[:i]) + [(not tr[i][0], True)])
            if got == want:
                yield f"path {paths}", "proved", None, stats
                continue
            r, m = CUR.check(model=True)
            if r == "sat":
                yield f"path {paths}: {got}", "refuted", {n: _python(m.eval(terms[n], model_completion=True)) for n in names}, stats
            else:
                yield f"path {paths}", "proved" if r == "unsat" else r, None, stats
    finally:
        CUR = None


def _python(v):
    s = v.as_string()
    return _re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
