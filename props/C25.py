"""C25 Formula dispersions evaluate the formula text with normal arithmetic."""
import itertools

from symx.harness import Registry

R = Registry()
BOUNDS = ("all positive real parameter values and wavelengths (real of either sign where no root, logarithm or division needs otherwise), 2 wavelengths at once, 0 to 5 repeated parameters (12 with given values); "
          "formula texts: every combination of two operators of + - * / with and without parentheses on either side, the three-operator chains (thorough), integer powers, every function and constant, sums alone, nested in products, powers and parentheses, spaces; units nm, um, m, angstrom, eV, meV, J")
OUTSIDE = "texts not in the list; exponents which are not integers or halves; the <kkr> term (documented as not implemented); the value of heaviside at zero; numbers as wavelengths (arrays are required)"


def cls(h, kind):
    m = h.mod("elli.dispersions.formula")
    return m.Formula if kind == "eps" else m.FormulaIndex


def value(d, kind, lam):
    return d.dielectric_function(lam) if kind == "eps" else d.refractive_index(lam)


def run(h, name, text, want, lam, single=None, rep=None, kind="eps", **kw):
    d = cls(h, kind)(f"{kind} = {text}", "lam", dict(single or {}), dict(rep or {}), **kw)
    got = value(d, kind, h.arr(lam))
    if h.np.ndim(got) == 0:  # no wavelength in the text: a plain number for all wavelengths
        got = [got] * len(lam)
    h.eq(name, got, want)
    return d


def wl(h, n=2):
    return [h.real(f"l{i}", positive=True, sample=(0.5, 3.0)) for i in range(n)]


def names(h):
    """a > b > c > 0 and d > 0, so that differences and quotients in any grouping of interest exist"""
    c = h.real("c_", positive=True, sample=(0.3, 0.9))
    b = c + h.real("db", positive=True, sample=(0.2, 0.9))
    a = b + h.real("da", positive=True, sample=(0.2, 0.9))
    d = h.real("d_", positive=True, sample=(0.3, 2.0))
    return {"A": a, "B": b, "C": c, "D": d}


OPS = "+-*/"


def shapes2():
    for o, p in itertools.product(OPS, repeat=2):
        yield f"A{o}B{p}C"
        yield f"A {o} (B {p} C)"
        yield f"(A{o}B) {p}C"


@R.case(kind="eps")
@R.case(kind="n")
def two_operators(h, kind):
    env = names(h)
    lam = wl(h)
    for t in shapes2():
        run(h, t, t + " + 0*lam", [eval(t, {}, env)] * 2, lam, env, kind=kind)  # pylint: disable=eval-used
        run(h, t + " rep", f"sum[{t}]", [eval(t, {}, env)] * 2, lam, {k: env[k] for k in "BC"}, {"A": [env["A"]]}, kind=kind)  # pylint: disable=eval-used


@R.case(quick=False, first="+")
@R.case(quick=False, first="-")
@R.case(quick=False, first="*")
@R.case(quick=False, first="/")
def three_operators(h, first):
    env = names(h)
    lam = wl(h, 1)
    for o, p in itertools.product(OPS, repeat=2):
        for t in (f"A{first}B{o}C{p}D", f"A{first}(B{o}C){p}D", f"(A{first}B){o}(C{p}lam)", f"A{first}B{o}C{p}lam**2"):
            w = [eval(t, {}, {**env, "lam": v}) for v in lam]  # pylint: disable=eval-used
            run(h, t, t, w, lam, env)
            run(h, t + " rep", f"sum[{t}]", w, lam, {k: env[k] for k in "BCD"}, {"A": [env["A"]]})


WITH_LAM = [
    "A+B*lam", "A-B-lam", "A-(B-lam)", "A/lam/B", "A/(lam/B)", "A*lam/B*C", "lam-A*B", "A+B/lam**2+C/lam**4", "A*lam**2/(lam**2+B**2)",
    "A**2*B", "A*B**2", "A/B**2", "(A*B)**2", "(A/B)**2", "(A+lam)**3", "A+lam**2", "(A-lam)**2", "A - B**2", "A*lam**(1+1)", "lam**-2", "A+lam** -2", "2*A", "A*2", "A-2", "A -2.5", "2.5e-1*A",
    "A+1e2", "lam", "A", "1", "0.5+lam", "((A))", "( ( A+B ) * ( C-lam ) )", "A+B-C+D-lam", "A/B*C/D*lam", "1+A*lam**2/(lam**2+B)+C*lam**2/(lam**2+D)",
    "-1*A", "-2*lam", "A*-2", "A+-1",
]


@R.case(part=0)
@R.case(part=1)
@R.case(part=2)
def polynomials(h, part):
    env = names(h)
    lam = wl(h)
    for t in WITH_LAM[part::3]:
        run(h, t, t, [eval(t, {}, {**env, "lam": v}) for v in lam], lam, env)  # pylint: disable=eval-used
    for t in WITH_LAM[part::3]:
        w = [eval(t, {}, {**env, "lam": v}) for v in lam]  # pylint: disable=eval-used
        run(h, "rep " + t, f"sum[{t}]", w, lam, {k: env[k] for k in "BD"}, {"A": [env["A"]], "C": h.arr([env["C"]])})


@R.case()
def spaces(h):
    env = names(h)
    lam = wl(h)
    w = [env["A"] + env["B"] * v - env["C"] for v in lam]
    for t in ("A+B*lam-C", " A  +  B * lam  -   C ", "A +B* lam -C", "\tA + B*lam\t- C"):
        run(h, repr(t), t, w, lam, env)
    for t in ("eps=A", "eps =A", "eps= A", "  eps   =   A  "):
        h.eq(t, cls(h, "eps")(t, "lam", {"A": env["A"]}, {}).dielectric_function(h.arr(lam)), env["A"])


@R.case()
def functions(h):
    x = h.angle("x", sample=(0.2, 1.2))
    p = h.real("p", positive=True, sample=(0.4, 3.0))
    lam = wl(h, 1)
    env = {"A": x, "P": p}
    n = h.np
    h.assume(n.cos(x) > 0.1)
    F = {"sin(A)": n.sin(x), "cos(A)": n.cos(x), "tan(A)": n.sin(x) / n.cos(x), "sqrt(P)": h.sqrt(p), "ln(P)": n.log(p), "log(P)": n.log(p) / n.log(10.0), "dawsn(P)": h.special("dawsn", p)}
    for t, v in F.items():
        run(h, t, t, [v], lam, env)
        run(h, t + " product", f"2*{t}*lam+{t}**2", [2 * v * lam[0] + v * v], lam, env)
        run(h, t + " sum", f"sum[B*{t}*lam]", [v * lam[0] * (p + 3)], lam, env, {"B": [p, 3]})
        run(h, t + " space", t.replace("(", " ( "), [v], lam, env)
    run(h, "square root of the square", "sqrt(P**2)+sqrt(lam)", [p + h.sqrt(lam[0])], lam, env)
    run(h, "negative root", "sqrt(0-P)", [1j * h.sqrt(p)], lam, env)
    run(h, "nested", "sin(A)**2+cos(A)**2+sqrt(sqrt(P)**2)", [1 + h.sqrt(p)], lam, env)
    run(h, "inside", "ln(P*lam)", [n.log(p * lam[0])], lam, env)
    run(h, "wavelength", "ln(lam)", [n.log(lam[0])], lam, env)
    run(h, "step", "heaviside(P)+3*heaviside(0-P)", [1], lam, env)
    run(h, "step of wavelength", "lam*heaviside(lam+P)", lam, lam, env)


@R.case()
def constants(h):
    lam = wl(h, 1)
    p = h.real("p", positive=True, sample=(0.4, 3.0))
    sc = {"c": 299792458.0, "h": 6.62607015e-34}
    run(h, "c", "P*c*lam", [p * sc["c"] * lam[0]], lam, {"P": p})
    run(h, "i", "P+1j*lam", [p + 1j * lam[0]], lam, {"P": p})
    run(h, "i squared", "P*1j*1j", [-p], lam, {"P": p})
    run(h, "i power", "1j**2*P+(P*1j)**3", [-p - 1j * p * p * p], lam, {"P": p})
    run(h, "complex index", "P-1j*lam", [p - 1j * lam[0]], lam, {"P": p}, kind="n")
    for nm, t, v in (("pi", "pi", 3.141592653589793), ("h", "h*1e34", 6.62607015), ("hbar", "hbar*1e34", 1.0545718176461565), ("eps0", "eps_0*1e12", 8.8541878188), ("c", "c", 299792458.0)):
        d = cls(h, "eps")("eps = " + t, "lam", {}, {}).dielectric_function(h.arr(lam))
        h.le(nm + " up", d, v * (1 + 2e-9))
        h.le(nm + " down", v * (1 - 2e-9), d)
    h.eq("two pi", cls(h, "eps")("eps = pi*lam/pi", "lam", {}, {}).dielectric_function(h.arr(lam)), lam)


@R.case(kind="eps")
@R.case(kind="n")
def parameter_names(h, kind):
    """names which contain the name of a function, constant or keyword are names"""
    lam = wl(h, 2)
    nm = ["c1", "h2", "height", "pix", "sinx", "cosine", "eps_0x", "hbar_", "lnA", "log10", "sumA", "eps", "n", "A_1", "_x", "lam2", "lamb", "tanh", "sqrt2", "epsilon", "C", "H"]
    v = [h.real(f"v{i}", sample=(0.2, 3.0)) for i in range(len(nm))]
    for k, x in zip(nm, v):
        run(h, k, f"{k} * lam + 1", [x * q + 1 for q in lam], lam, {k: x}, kind=kind)
    run(h, "all", "+".join(f"{i + 1}*{k}" for i, k in enumerate(nm)), [sum((i + 1) * x for i, x in enumerate(v))] * 2, lam, dict(zip(nm, v)), kind=kind)
    run(h, "repeated", "sum[c1*height - sinx]", [v[0] * v[2] - v[4] + v[1] * v[5] - v[4]] * 2, lam, {"sinx": v[4]}, {"c1": [v[0], v[1]], "height": [v[2], v[5]]}, kind=kind)
    for ax in ("x", "E", "wavelength", "c0", "hv"):
        d = cls(h, kind)(f"{kind} = K*{ax}**2", ax, {"K": v[0]}, {})
        h.eq(f"axis {ax}", value(d, kind, h.arr(lam)), [v[0] * q * q for q in lam])


def reps(h, n, keys="AB"):
    return {k: [h.real(f"{k}{i}", positive=True, sample=(0.3, 2.0)) for i in range(n)] for k in keys}


SUMS = [
    ("sum[A*lam]", lambda a, b, q, k: a * q),
    ("sum[A*lam**2/(lam**2+B**2)]", lambda a, b, q, k: a * q * q / (q * q + b * b)),
    ("sum[A/(K+lam*B)]", lambda a, b, q, k: a / (k + q * b)),
    ("sum[A - B - K]", lambda a, b, q, k: a - b - k),
    ("sum[A]", lambda a, b, q, k: a),
    ("sum[K]", lambda a, b, q, k: k),
    ("sum[2]", lambda a, b, q, k: 2),
    ("sum[lam]", lambda a, b, q, k: q),
    ("sum[(A+B)*(lam-K)]", lambda a, b, q, k: (a + b) * (q - k)),
    ("sum[A*1j*lam - B]", lambda a, b, q, k: 1j * a * q - b),
    ("sum[A/B*lam]", lambda a, b, q, k: a / b * q),
]


@R.case(n=1, as_array=True)
@R.case(n=2, as_array=True)
@R.case(n=3, as_array=False)
@R.case(n=3, as_array=True, quick=False)
@R.case(n=5, as_array=False)
@R.case(n=12, as_array=True, fixed=True)
def sums(h, n, as_array, fixed=False):
    lam = [h.const(0.75), h.const(2.5)] if fixed else wl(h)
    r = {k: [h.const(0.5 + ((3 * i + 5 * j) % 8) / 4) for i in range(n)] for j, k in enumerate("AB")} if fixed else reps(h, n)
    k = h.real("k", positive=True, sample=(0.3, 2.0))
    rep = {q: h.arr(v) if as_array else list(v) for q, v in r.items()}
    for t, f in SUMS:
        s = [sum(f(a, b, q, k) for a, b in zip(r["A"], r["B"])) for q in lam]
        run(h, t, t, s, lam, {"K": k}, rep)
        run(h, "1+" + t, "1+" + t, [1 + v for v in s], lam, {"K": k}, rep)
        run(h, t + " product", f"K*{t}*lam - {t}**2", [k * v * q - v * v for v, q in zip(s, lam)], lam, {"K": k}, rep)
        run(h, t + " index", f"K + {t}", [k + v for v in s], lam, {"K": k}, rep, kind="n")
    for kind in ("eps", "n"):
        d = cls(h, kind)(f"{kind} = K + sum[A*lam - B]", "lam", {"K": k}, rep)
        a, b = h.real(f"na{kind}", sample=(0.3, 2.0)), h.real(f"nb{kind}", sample=(0.3, 2.0))
        w = [k + sum(x * q - y for x, y in zip(r["A"], r["B"])) for q in lam]
        h.eq(f"{kind} before add", value(d, kind, h.arr(lam)), w)
        d.add(A=a, B=b)
        h.eq(f"{kind} after add", value(d, kind, h.arr(lam)), [v + a * q - b for v, q in zip(w, lam)])
        h.eq(f"{kind} given lists kept", list(rep["A"]) + list(rep["B"]), list(r["A"]) + list(r["B"]))
        h.true(f"{kind} lengths kept", len(rep["A"]) == n)


UNITS = {"nm": 1.0, "um": 1e-3, "micrometer": 1e-3, "m": 1e-9, "angstrom": 10.0, "Angstroms": 10.0, "cm": 1e-7}
HC = 1239.8419843320026
ENERGY = {"eV": HC, "meV": HC * 1e3, "keV": HC * 1e-3, "joule": HC * 1.602176634e-19}


@R.case(kind="eps")
@R.case(kind="n")
def units(h, kind):
    x = h.real("x", positive=True, sample=(200.0, 900.0))
    a = h.real("a", sample=(0.3, 2.0))
    for u, s in {**UNITS, **ENERGY}.items():
        d = cls(h, kind)(f"{kind} = lam", "lam", {}, {}, unit=u)
        got = value(d, kind, h.arr([x]))[0]
        want = x * s if u in UNITS else s / x
        h.le(f"{u} up", got / want, 1 + 1e-8)
        h.le(f"{u} down", 1 - 1e-8, got / want)
        d = cls(h, kind)(f"{kind} = a*lam**2 + sum[b*lam]", "lam", {"a": a}, {"b": [2, a]}, unit=u)
        h.eq(f"{u} formula", value(d, kind, h.arr([x])), [a * got * got + (2 + a) * got])
    d = cls(h, kind)(f"{kind} = lam", "lam", {}, {}, unit=None)
    h.eq("no unit", value(d, kind, h.arr([x])), [x])
    for u in ("s", "kg", "dimensionless", "m**2", "volt"):
        h.raises(f"unit {u}", ValueError, lambda: cls(h, kind)(f"{kind} = lam", "lam", {}, {}, unit=u))


@R.case()
def rejected(h):
    import lark

    lam = h.arr(wl(h, 2))
    a = h.real("a", sample=(0.3, 2.0))
    F, I = cls(h, "eps"), cls(h, "n")
    h.raises("index text in permittivity", ValueError, lambda: F("n = a", "lam", {"a": a}, {}))
    h.raises("permittivity text in index", ValueError, lambda: I("eps = a", "lam", {"a": a}, {}))
    bad = Exception
    for t in ("a +", "a * / b", "(a", "a)", "a b", "", "sum[a", "sum(a)", "a ** ", "f(a)", "a = b", "sin a", "2a"):
        h.raises(f"text {t!r}", bad, lambda: value(F("eps = " + t, "lam", {"a": a, "b": a}, {}), "eps", lam))
    for t in ("mu = a", "a", "eps a", "Eps = a", "= a", "k = a"):
        h.raises(f"assignment {t!r}", bad, lambda: F(t, "lam", {"a": a}, {}))
    for t in ("b", "a + b", "sum[b]", "sin(b)", "x", "Lam", "r", "r*lam"):
        h.raises(f"unknown {t!r}", lark.exceptions.VisitError, lambda: F("eps = " + t, "lam", {"a": a}, {"r": [1, a]}).dielectric_function(lam))
    h.raises("lengths", ValueError, lambda: F("eps = sum[r*s]", "lam", {}, {"r": [1, a], "s": [a]}))
    h.raises("lengths 2", ValueError, lambda: F("eps = sum[r*s]", "lam", {}, {"r": [a], "s": h.arr([a, 1, 2])}))
    h.raises("number for a list", ValueError, lambda: F("eps = sum[r]", "lam", {}, {"r": a}))
    h.raises("number", ValueError, lambda: F("eps = sum[r]", "lam", {}, {"r": 2.0}))
    h.raises("text parameter", TypeError, lambda: F("eps = a", "lam", {"a": "1"}, {}).dielectric_function(lam))
    h.raises("None", h.mod("elli.dispersions.base_dispersion").InvalidParameters, lambda: F("eps = a", "lam", {"a": None}, {}))
    h.raises("plain number wavelength", TypeError, lambda: F("eps = lam", "lam", {}, {}).dielectric_function(2.0))


@R.case()
def independent(h):
    """the same text with other parameters"""
    lam = wl(h)
    v = [h.real(f"v{i}", sample=(0.3, 2.0)) for i in range(6)]
    t = "eps = a*lam + sum[b*lam**2]"
    s0, r0 = {"a": v[0]}, {"b": [v[1], v[2]]}
    d0 = cls(h, "eps")(t, "lam", s0, r0)
    w0 = [v[0] * q + (v[1] + v[2]) * q * q for q in lam]
    h.eq("first", d0.dielectric_function(h.arr(lam)), w0)
    d1 = cls(h, "eps")(t, "lam", {"a": v[3]}, {"b": [v[4]]})
    h.eq("second", d1.dielectric_function(h.arr(lam)), [v[3] * q + v[4] * q * q for q in lam])
    h.eq("first again", d0.dielectric_function(h.arr(lam)), w0)
    d2 = cls(h, "eps")(t, "a", {"lam": v[5]}, {"b": [v[4]]})
    h.eq("other axis", d2.dielectric_function(h.arr(lam)), [v[5] * q + v[4] * v[5] * v[5] * 1 for q in lam])
    h.eq("first, once more", d0.dielectric_function(h.arr(lam)), w0)
    h.true("dicts kept", s0 == {"a": v[0]} and list(s0) == ["a"] and list(r0) == ["b"] and len(r0["b"]) == 2)
    x = h.arr(lam)
    d0.dielectric_function(x)
    h.eq("wavelengths kept", x, lam)
    d3 = cls(h, "eps")(t, "lam", {"a": v[3]}, {"b": [v[4]]}, unit="um")
    h.eq("unit does not leak", d1.dielectric_function(h.arr(lam)), [v[3] * q + v[4] * q * q for q in lam])
    h.eq("scaled", d3.dielectric_function(h.arr([1000 * q for q in lam])), [v[3] * q + v[4] * q * q for q in lam])


@R.case()
def in_materials(h):
    """through the common views of a dispersion"""
    lam = wl(h)
    a = h.real("a", positive=True, sample=(1.0, 2.0))
    d = cls(h, "n")("n = a + lam", "lam", {"a": a}, {})
    h.eq("eps", d.get_dielectric(h.arr(lam)), [(a + q) * (a + q) for q in lam])
    h.eq("n", d.get_refractive_index(h.arr(lam)), [a + q for q in lam])
    e = cls(h, "eps")("eps = (a + lam)**2", "lam", {"a": a}, {})
    h.eq("eps index", e.get_refractive_index(h.arr(lam)), [a + q for q in lam])
    T = e.get_mat().get_tensor(h.arr(lam))
    h.eq("tensor", [T[i, j, j] for i in range(2) for j in range(3)], [(a + q) * (a + q) for q in lam for _ in range(3)])
    s = e + 2
    h.eq("sum", s.get_dielectric(h.arr(lam)), [(a + q) * (a + q) + 2 for q in lam])
