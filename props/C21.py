"""C21 Dispersion models evaluate their documented formulas."""
from symx.harness import Registry

R = Registry()
BOUNDS = ("all real parameters and all positive wavelengths in the domain of each formula, up to three oscillators (eight models also with 5, 8, 9 and 15 at given places, some coinciding), arrays of two wavelengths and scalars (14 models also on given spectra of up to 72 wavelengths: lists, tuples, integer arrays, any order); Tauc-Lorentz for "
          "2E > C (underdamped), on both sides of the gap; Tanguy in 2, 3 and 2.25 dimensions; Cody-Lorentz: imaginary part for all parameters, real part as its "
          "Kramers-Kronig sum on an integration grid coarsened from 1000 to 3 points")
OUTSIDE = ("overflow of integer types narrower than 64 bit; the values of Dawson, digamma and gamma functions and of logarithms and arctangents themselves (uninterpreted: equal arguments give equal values), "
           "arguments exactly on a pole; the sign convention of the imaginary part follows eps1 + i eps2 (the docstrings of two Lorentz models print the opposite sign)")


def hc(h):
    """hc in eV nm"""
    return h.sci("speed of light in vacuum") * h.sci("Planck constant in eV/Hz") * 10 ** 9


class Wave:
    """a wavelength given through its energy (so that formulas in eV stay polynomial), or directly"""

    def __init__(self, h, n=2, energy=True):
        self.h = h
        if energy:
            self.E = [h.real(f"wE{i}", positive=True, sample=(0.4, 6.0)) for i in range(n)]
            self.l = [hc(h) / e for e in self.E]
        else:
            self.l = [h.real(f"wl{i}", positive=True, sample=(0.2, 3.0)) for i in range(n)]
            self.E = [hc(h) / x for x in self.l]

    def arr(self):
        return self.h.arr(self.l)


def compare(h, d, w, kind, formula):
    """array and scalar evaluation against the formula (a function of E and lambda)"""
    f = d.dielectric_function if kind == "eps" else d.refractive_index
    want = [formula(e, x) for e, x in zip(w.E, w.l)]
    x = w.arr()
    h.eq("array", f(x), want)
    h.eq("wavelengths kept", x, w.l)
    h.eq("again", f(x), want)
    for i in range(len(w.l)):
        h.eq("scalar", f(w.l[i]), want[i])
        h.eq("one element", f(h.arr([w.l[i]])), want[i])
    if kind == "n":
        h.eq("squared", d.dielectric_function(x), [v * v for v in want])
    h.eq("complex", d.get_dielectric(x), want if kind == "eps" else [v * v for v in want])


def pos(h, *names, **k):
    return [h.real(n, positive=True, sample=(0.3, 2.0)) for n in names]


def re(h, *names):
    return [h.real(n, sample=(-2.0, 2.0)) for n in names]


@R.case()
def cauchy(h):
    n0, n1, n2, k0, k1, k2 = re(h, "n0", "n1", "n2", "k0", "k1", "k2")
    d = h.elli.Cauchy(n0, n1, n2, k0, k1, k2)
    compare(h, d, Wave(h, energy=False), "n", lambda E, l: n0 + 100 * n1 / l ** 2 + 10 ** 7 * n2 / l ** 4 + 1j * (k0 + 100 * k1 / l ** 2 + 10 ** 7 * k2 / l ** 4))


def added(h, mk, params, sample_params, w, kind, const, term):
    """const + sum over oscillators, in the order and number added"""
    for n in (0, 1, 2, 3):
        d = mk()
        for p in params[:n]:
            d.add(*p)
        f = d.dielectric_function if kind == "eps" else d.refractive_index
        want = [const(E, l) + sum((term(E, l, *p) for p in params[:n]), 0) for E, l in zip(w.E, w.l)]
        got = f(w.arr())
        if n == 0:
            got = h.np.asarray(got) + 0 * w.arr()
        h.eq(f"{n} terms", got, want)
        if n == 3:
            compare(h, d, w, kind, lambda E, l: const(E, l) + sum(term(E, l, *p) for p in params))
            e = mk().add(*params[2]).add(*params[0]).add(*params[1])
            g = e.dielectric_function if kind == "eps" else e.refractive_index
            h.eq("any order", g(w.arr()), want)
            # oscillators are additive
            parts = []
            for p in params:
                s = mk().add(*p)
                parts.append(h.np.asarray((s.dielectric_function if kind == "eps" else s.refractive_index)(w.arr())))
            c = h.arr([const(E, l) for E, l in zip(w.E, w.l)])
            h.eq("additive", sum(q - c for q in parts) + c, want)


@R.case(integer=True)
@R.case(integer=False)
def cauchy_custom(h, integer):
    n0, = re(h, "n0")
    fs = re(h, "f0", "f1", "f2")
    es = [-2, 1, 3] if integer else re(h, "e0", "e1", "e2")
    w = Wave(h, energy=False)
    added(h, lambda: h.elli.CauchyCustomExponent(n0), list(zip(fs, es)), None, w, "n", lambda E, l: n0, lambda E, l, f, e: f * l ** e)


@R.case(integer=True)
@R.case(integer=False)
def polynomial(h, integer):
    e0, = re(h, "n0")
    fs = re(h, "f0", "f1", "f2")
    es = [-4, 0, 2] if integer else re(h, "e0", "e1", "e2")
    w = Wave(h, energy=False)
    added(h, lambda: h.elli.Polynomial(e0), list(zip(fs, es)), None, w, "eps", lambda E, l: e0, lambda E, l, f, e: f * l ** e)


@R.case()
def cauchy_urbach(h):
    n0, B, C, D, Eg = re(h, "n0", "B", "C", "D", "Eg")
    Eu, = pos(h, "Eu")
    d = h.elli.CauchyUrbach(n0, B, C, D, Eg, Eu)
    compare(h, d, Wave(h), "n", lambda E, l: n0 + B * E ** 2 + C * E ** 4 + 1j * D * h.np.exp((E - Eg) / Eu))


@R.case()
def sellmeier(h):
    w = Wave(h, energy=False)
    ps = [re(h, f"A{i}", f"B{i}") for i in range(3)]
    added(h, h.elli.Sellmeier, ps, None, w, "eps", lambda E, l: 1, lambda E, l, A, B: A * (l / 1000) ** 2 / ((l / 1000) ** 2 - B))


@R.case(integer=True)
@R.case(integer=False)
def sellmeier_custom(h, integer):
    w = Wave(h, energy=False)
    ps = []
    for i in range(3):
        A, = re(h, f"A{i}")
        B, = pos(h, f"B{i}")
        eA, eB = ([2, 0, -2][i], [2, 1, 3][i]) if integer else re(h, f"eA{i}", f"eB{i}")
        ps.append((A, eA, B, eB))
    added(h, h.elli.SellmeierCustomExponent, ps, None, w, "eps", lambda E, l: 0,
          lambda E, l, A, eA, B, eB: A * (l / 1000) ** eA / ((l / 1000) ** 2 - B ** eB))


def plain_models(h):
    """constructor, view and formula of the models without case distinctions; parameters symbolic, exponents given"""
    E_ = h.elli
    n0, n1, n2, k1 = re(h, "n0", "n1", "n2", "k1")
    fs = re(h, "f0", "f1")
    ps = [pos(h, f"p{i}", f"q{i}", f"g{i}") for i in range(2)]
    hbar = h.sci("Planck constant in eV/Hz") / 2 / h.np.pi
    e0 = h.sci("vacuum electric permittivity") / 100
    both = lambda mk: mk().add(*ps[0]).add(*ps[1])
    two = lambda t: (lambda E, l: sum(t(E, l, *p) for p in ps))
    return {
        "Cauchy": (lambda: E_.Cauchy(n0, n1, n2, 0, k1, 0), "n", lambda E, l: n0 + 100 * n1 / l ** 2 + 10 ** 7 * n2 / l ** 4 + 100j * k1 / l ** 2),
        "CauchyCustomExponent": (lambda: E_.CauchyCustomExponent(n0).add(f=fs[0], e=-2).add(f=fs[1], e=1), "n", lambda E, l: n0 + fs[0] / l ** 2 + fs[1] * l),
        "Polynomial": (lambda: E_.Polynomial(n0).add(f=fs[0], e=-4).add(f=fs[1], e=2), "eps", lambda E, l: n0 + fs[0] / l ** 4 + fs[1] * l ** 2),
        "Sellmeier": (lambda: E_.Sellmeier().add(*ps[0][:2]).add(*ps[1][:2]), "eps",
                      lambda E, l: 1 + sum(p[0] * (l / 1000) ** 2 / ((l / 1000) ** 2 - p[1]) for p in ps)),
        "SellmeierCustomExponent": (lambda: E_.SellmeierCustomExponent().add(fs[0], 2, ps[0][0], 2).add(fs[1], -2, ps[1][0], 1), "eps",
                                    lambda E, l: fs[0] * (l / 1000) ** 2 / ((l / 1000) ** 2 - ps[0][0] ** 2) + fs[1] / (l / 1000) ** 2 / ((l / 1000) ** 2 - ps[1][0])),
        "DrudeEnergy": (lambda: E_.DrudeEnergy(n0, ps[0][0]), "eps", lambda E, l: n0 / (E ** 2 - 1j * ps[0][0] * E)),
        "DrudeResistivity": (lambda: E_.DrudeResistivity(*ps[0][:2]), "eps",
                             lambda E, l: hbar ** 2 / (e0 * ps[0][0] * (ps[0][1] * E ** 2 - 1j * hbar * E))),
        "LorentzEnergy": (lambda: both(E_.LorentzEnergy), "eps", lambda E, l: 1 + two(lambda E, l, A, c, g: A / (c ** 2 - E ** 2 - 1j * g * E))(E, l)),
        "LorentzLambda": (lambda: both(E_.LorentzLambda), "eps", lambda E, l: 1 + two(lambda E, l, A, c, g: A * l ** 2 / (l ** 2 - c ** 2 - 1j * g * l))(E, l)),
        "Poles": (lambda: E_.Poles(n0, n1, ps[0][0]), "eps", lambda E, l: n0 / E ** 2 + n1 / (ps[0][0] ** 2 - E ** 2)),
        "ConstantRefractiveIndex": (lambda: E_.ConstantRefractiveIndex(n0 + 1j * n1), "n", lambda E, l: n0 + 1j * n1 + 0 * l),
        "EpsilonInf": (lambda: E_.EpsilonInf(n0), "eps", lambda E, l: n0 + 0 * l),
        "FormulaIndex": (lambda: E_.FormulaIndex("n = n0 + B * lam**e", "lam", {"n0": 2, "B": 10000, "e": -2}, {}), "n", lambda E, l: 2 + 10000 / l ** 2),
        "Formula": (lambda: E_.Formula("eps = 1 + sum[A * lam**e]", "lam", {}, {"A": [3, 10000], "e": [0, -2]}), "eps", lambda E, l: 4 + 10000 / l ** 2),
    }


PLAIN = ("Cauchy", "CauchyCustomExponent", "Polynomial", "Sellmeier", "SellmeierCustomExponent", "DrudeEnergy", "DrudeResistivity", "LorentzEnergy",
         "LorentzLambda", "Poles", "ConstantRefractiveIndex", "EpsilonInf", "FormulaIndex", "Formula")
for model in PLAIN:
    @R.case(name="spectrum", model=model)
    def spectrum(h, model):
        """long spectra of given wavelengths, in any order, with repetitions, as floating-point or integer arrays, on a grid; and alone"""
        mk, kind, formula = plain_models(h)[model]
        d = mk()
        f = d.get_dielectric if kind == "eps" else d.get_refractive_index
        full = lambda x: x + 0 * h.np.asarray(l)
        grids = {"integer": h.ints(range(400, 800, 20)), "one integer": h.ints([633]), "descending": h.np.linspace(900.0, 300.0, 25),
                 "unordered": h.np.array([500.0, 400.0, 500.0, 1200.0, 10.5, 633.0] * 12), "far": h.np.array([1e-3, 1.0, 1e5, 1e9])}
        for nm, l in grids.items():
            if nm == "far" and model.startswith("Formula"):
                continue
            keep = [float(x) for x in l]
            want = [formula(hc(h) / h.const(x), h.const(x)) for x in keep]
            h.eq(nm, full(f(l)), want)
            h.eq(nm + " kept", l, keep)
        for nm, l in (("list", [400.0, 500.0, 633.0]), ("tuple", (400.0, 500.0)), ("list of integers", [400, 500, 633]), ("one in a list", [633.0])):
            h.eq(nm, full(f(l)), [formula(hc(h) / h.const(float(x)), h.const(float(x))) for x in l])
        h.eq("one of them", f(h.np.array([633.0])) + 0 * h.np.zeros(1), [formula(hc(h) / 633, h.const(633.0))])


MANY = ("CauchyCustomExponent", "Polynomial", "Sellmeier", "SellmeierCustomExponent", "LorentzEnergy", "LorentzLambda", "Gaussian", "TaucLorentz")
for model in MANY:
    @R.case(name="many", model=model)
    def many(h, model):
        """a dozen oscillators, several of them at the same place, some of them equal, some of zero or negative strength"""
        E_ = h.elli
        A = [h.real(f"A{i}", sample=(-2.0, 2.0)) for i in range(9)]
        A = A[:5] + [A[0], 0, 1, -A[1]] + A[5:] + [A[2], A[8]]
        at = [3, 3, 2, 3, 0.5, 3, 4, 5, 2, 0.25, 7, 6, 3, 2, 6]
        wd = [0.5, 0.5, 1, 0.25, 1, 0.5, 2, 1, 1, 1, 0.125, 3, 0.25, 1, 1]
        n0 = h.real("n0", sample=(1.0, 2.0))
        place = [h.const(x) for x in at]
        if model == "CauchyCustomExponent":
            mk, const, term, ps = lambda: E_.CauchyCustomExponent(n0), lambda E, l: n0, lambda E, l, f, e: f * l ** e, [(a, int(2 * x) - 6) for a, x in zip(A, at)]
        elif model == "Polynomial":
            mk, const, term, ps = lambda: E_.Polynomial(n0), lambda E, l: n0, lambda E, l, f, e: f * l ** e, [(a, int(2 * x) - 6) for a, x in zip(A, at)]
        elif model == "Sellmeier":
            mk, const, term, ps = E_.Sellmeier, lambda E, l: 1, lambda E, l, a, b: a * (l / 1000) ** 2 / ((l / 1000) ** 2 - b), list(zip(A, place))
        elif model == "SellmeierCustomExponent":
            mk, const = E_.SellmeierCustomExponent, lambda E, l: 0
            term = lambda E, l, a, ea, b, eb: a * (l / 1000) ** ea / ((l / 1000) ** 2 - b ** eb)
            ps = [(a, int(4 * w) % 5 - 2, x, 1 + int(4 * w) % 3) for a, x, w in zip(A, place, wd)]
        elif model == "LorentzEnergy":
            mk, const, term = E_.LorentzEnergy, lambda E, l: 1, lambda E, l, a, c, g: a / (c ** 2 - E ** 2 - 1j * g * E)
            ps = [(a, x, h.const(g)) for a, x, g in zip(A, place, wd)]
        elif model == "LorentzLambda":
            mk, const, term = E_.LorentzLambda, lambda E, l: 1, lambda E, l, a, c, g: a * l ** 2 / (l ** 2 - c ** 2 - 1j * g * l)
            ps = [(a, 100 * x, 20 * h.const(g)) for a, x, g in zip(A, place, wd)]
        elif model == "Gaussian":
            mk, const = E_.Gaussian, lambda E, l: 0
            k = 2 * h.np.sqrt(h.np.log(2))
            D = lambda x: h.special("dawsn", x)
            term = lambda E, l, a, c, g: (2 * a / h.np.sqrt(h.np.pi) * (D(k * (E + c) / g) - D(k * (E - c) / g))
                                          + 1j * a * (h.np.exp(-(k * (E - c) / g) ** 2) - h.np.exp(-(k * (E + c) / g) ** 2)))
            h.exp(-h.np.log(2) / 4)
            ps = [(a, h.const(int(x + 0.75)), h.const(min(max(g, 1), 2))) for a, x, g in zip(A, at, wd)]
        else:
            mk, const = lambda: E_.TaucLorentz(1), lambda E, l: 0
            term = None
            ps = [(a, max(x, 2) + 0 * place[0], h.const(g)) for a, x, g in zip(A, at, wd)]
        E = [h.const(x) for x in (1.5, 4.5)]
        l = [hc(h) / x for x in E]
        view = lambda d: d.refractive_index if "Cauchy" in model else d.dielectric_function
        n = len(ps) if model not in ("Gaussian", "TaucLorentz") else 9
        d = mk()
        for i in range(n):
            d.add(*ps[i])
            if i + 1 not in (5, 8, n):
                continue
            if term is not None:
                want = [const(e, x) + sum((term(e, x, *p) for p in ps[:i + 1]), 0) for e, x in zip(E, l)]
            else:
                want = sum(h.np.asarray(mk().add(*p).dielectric_function(h.arr(l))) for p in ps[:i + 1])
            h.eq(f"{i + 1} terms", view(d)(h.arr(l)), want)
            h.eq(f"{i + 1} terms at one", view(d)(l[1]), want[1])
        h.same("kept", [list(p.values())[1:] == list(q)[1:] for p, q in zip(d.rep_params, ps)], [True] * n)


@R.case()
def drude_energy(h):
    A, g = re(h, "A", "gamma")
    compare(h, h.elli.DrudeEnergy(A, g), Wave(h), "eps", lambda E, l: A / (E ** 2 - 1j * g * E))


@R.case()
def drude_resistivity(h):
    rho, tau = pos(h, "rho", "tau")
    hbar = h.sci("Planck constant in eV/Hz") / 2 / h.np.pi
    e0 = h.sci("vacuum electric permittivity") / 100
    compare(h, h.elli.DrudeResistivity(rho, tau), Wave(h), "eps", lambda E, l: hbar ** 2 / (e0 * rho * (tau * E ** 2 - 1j * hbar * E)))


@R.case()
def lorentz_energy(h):
    w = Wave(h)
    ps = [re(h, f"A{i}", f"E0{i}", f"g{i}") for i in range(3)]
    added(h, h.elli.LorentzEnergy, ps, None, w, "eps", lambda E, l: 1, lambda E, l, A, E0, g: A / (E0 ** 2 - E ** 2 - 1j * g * E))


@R.case()
def lorentz_lambda(h):
    w = Wave(h, energy=False)
    ps = [re(h, f"A{i}", f"l0{i}", f"g{i}") for i in range(3)]
    added(h, h.elli.LorentzLambda, ps, None, w, "eps", lambda E, l: 1, lambda E, l, A, l0, g: A * l ** 2 / (l ** 2 - l0 ** 2 - 1j * g * l))


@R.case()
def poles(h):
    a, b, c = re(h, "A_ir", "A_uv", "E_uv")
    compare(h, h.elli.Poles(a, b, c), Wave(h), "eps", lambda E, l: a / E ** 2 + b / (c ** 2 - E ** 2))


@R.case()
def constants(h):
    n, = re(h, "n")
    k, = re(h, "k")
    for v in (n, n + 1j * k):
        for x in (500.0, h.np.array([500.0, 600.0])):
            h.eq("index", h.elli.ConstantRefractiveIndex(v).refractive_index(x), v)
            h.eq("index squared", h.elli.ConstantRefractiveIndex(v).dielectric_function(x), v * v)
            h.eq("eps", h.elli.EpsilonInf(v).dielectric_function(x), v)


@R.case()
def gaussian(h):
    w = Wave(h)
    ps = [pos(h, f"A{i}", f"E0{i}", f"s{i}") for i in range(3)]
    D = lambda x: h.special("dawsn", x)
    ln2 = h.np.log(2)
    k = 2 * h.np.sqrt(ln2)

    def term(E, l, A, E0, s):
        m, p = (E - E0) / s, (E + E0) / s
        return (2 * A / h.np.sqrt(h.np.pi) * (D(k * p) - D(k * m))
                + 1j * A * (h.np.exp(-(k * m) ** 2) - h.np.exp(-(k * p) ** 2)))

    added(h, h.elli.Gaussian, ps, None, w, "eps", lambda E, l: 0, term)


@R.case(side="above", osc=1)
@R.case(side="below", osc=1)
@R.case(side="above", osc=2, quick=False)
@R.case(side="below", osc=2, quick=False)
def tauc_lorentz(h, side, osc):
    Eg, = pos(h, "Eg")
    e = [h.real(f"dE{i}", positive=True, sample=(0.2, 1.0)) for i in range(3 - osc)]
    w = Wave.__new__(Wave)
    w.h = h
    if side == "above":
        w.E = [Eg + x for x in e]
    else:
        w.E = [Eg * x / (1 + x) for x in e]
    w.l = [hc(h) / x for x in w.E]
    ps = []
    for i in range(osc):
        A, C = pos(h, f"A{i}", f"C{i}")
        al = h.real(f"al{i}", positive=True, sample=(0.3, 2.0))
        # alpha^2 = 4 E0^2 - C^2
        E0 = h.sqrt(al * al + C * C) / 2
        h.hint(al)
        ps.append((A, E0, C))
    ln, at, pi = h.np.log, h.np.arctan, h.np.pi

    def term(E, l, A, E0, C):
        al = h.sqrt(4 * E0 ** 2 - C ** 2)
        g2 = E0 ** 2 - C ** 2 / 2
        z4 = (E ** 2 - g2) ** 2 + al ** 2 * C ** 2 / 4
        aln = (Eg ** 2 - E0 ** 2) * E ** 2 + Eg ** 2 * C ** 2 - E0 ** 2 * (E0 ** 2 + 3 * Eg ** 2)
        aat = (E ** 2 - E0 ** 2) * (E0 ** 2 + Eg ** 2) + Eg ** 2 * C ** 2
        d = E - Eg if side == "above" else Eg - E
        e1 = (A * C * aln / (2 * pi * z4 * al * E0) * ln((E0 ** 2 + Eg ** 2 + al * Eg) / (E0 ** 2 + Eg ** 2 - al * Eg))
              - A * aat / (pi * z4 * E0) * (pi - at((2 * Eg + al) / C) + at((al - 2 * Eg) / C))
              + 2 * A * E0 * Eg / (pi * z4 * al) * (E ** 2 - g2) * (pi + 2 * at(2 / (al * C) * (g2 - Eg ** 2)))
              - A * E0 * C * (E ** 2 + Eg ** 2) / (pi * z4 * E) * ln(d / (E + Eg))
              + 2 * A * E0 * C * Eg / (pi * z4) * ln(d * (E + Eg) / h.sqrt((E0 ** 2 - Eg ** 2) ** 2 + Eg ** 2 * C ** 2)))
        e2 = A * E0 * C * d * d / (((E ** 2 - E0 ** 2) ** 2 + C ** 2 * E ** 2) * E) if side == "above" else 0
        return e1 + 1j * e2

    for n in range(1, osc + 1):
        d = h.elli.TaucLorentz(Eg)
        for p in ps[:n]:
            d.add(*p)
        want = [sum(term(E, l, *p) for p in ps[:n]) for E, l in zip(w.E, w.l)]
        h.eq(f"{n} oscillators", d.dielectric_function(w.arr()), want)
        h.eq(f"{n} again", d.dielectric_function(w.arr()), want)
        h.eq(f"{n} scalar", d.dielectric_function(w.l[0]), want[0])


@R.case(dim=2)
@R.case(dim=3)
@R.case(dim=2.25)
def tanguy(h, dim):
    A, gam, Rb, Eg = pos(h, "A", "gamma", "R", "Eg")
    a, b = re(h, "a", "b")
    w = Wave(h, 1)
    pi = h.np.pi
    dg, G = (lambda x: h.special("digamma", x)), (lambda x: h.special("gamma", x))

    def xi(z):
        return h.mod("numpy.lib.scimath").sqrt(Rb / (Eg - z)) if not h.sym else h.sqrt(Rb / (Eg - z))

    def g(x):
        if dim == 2:
            return 2 * h.np.log(x) - 2 * dg(h.const(0.5) - x)
        if dim == 3:
            return 2 * h.np.log(x) - 2 * dg(1 - x) - 1 / x
        D2 = h.const((dim - 1) / 2)
        return (2 * pi * G(D2 + x) / (G(D2) ** 2 * G(1 - D2 + x) * x ** (dim - 2))
                * (1 / h.np.tan(pi * (D2 - x)) - 1 / h.np.tan(pi * (dim - 1))))

    def f(E, l):
        z = E + 1j * gam
        return 1 + a / (b - E ** 2) + A * Rb ** (dim / 2 - 1) / z ** 2 * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0 * E)))

    d = h.elli.Tanguy(A, dim, gam, Rb, Eg, a, b)
    want = [f(E, l) for E, l in zip(w.E, w.l)]
    h.eq("array", d.dielectric_function(w.arr()), want)
    h.eq("scalar", d.dielectric_function(w.l[0]), want[0])


def coarse_grid(h):
    """replace the internal integration grid of the model by 3 points (this process only)"""
    old = h.np.linspace
    pts = [h.const(x) for x in (2000, 6000, 10000)]
    new = lambda a, b, num=50, *r, **k: h.arr(pts) if num == 1000 else old(a, b, num, *r, **k)
    if h.sym:
        h.np._over["linspace"] = new
    else:
        h.np.linspace = new
    return pts


@R.case(at=1, opts={"timeout": 100})
@R.case(at=2, opts={"timeout": 100})
@R.case(at=0, opts={"timeout": 100})
def cody_lorentz(h, at):
    """imaginary part for all parameters, real part as Maclaurin's sum of it over the (coarsened) grid"""
    Eg, A, gamma, Ep, E0, Eu = (h.real(k, positive=True, sample=(0.5, 2.0)) for k in ("Eg", "A", "gamma", "Ep", "E0", "Eu"))
    Et = h.real("Et", lo=0.13, hi=0.2)  # between the energies of the last two grid points
    grid = coarse_grid(h)
    h.exp(hc(h) / 30000 / Eu)
    G = lambda x: (x - Eg) ** 2 / ((x - Eg) ** 2 + Ep ** 2)
    L = lambda x: A * E0 * gamma * x / ((x ** 2 - E0 ** 2) ** 2 + gamma ** 2 * x ** 2)
    E = [hc(h) / l for l in grid]
    e2 = [G(x) * L(x) for x in E[:2]] + [Et * G(Et) * L(Et) / E[2] * h.np.exp((E[2] - Et) / Eu)]
    kk = 0
    for j in range(1 - at % 2, 3, 2):
        kk = kk + e2[j] / (grid[j] * (1 - grid[j] ** 2 / grid[at] ** 2))
    kk = 4 * (grid[1] - grid[0]) / h.np.pi * kk
    d = h.elli.CodyLorentz(Eg, A, Et, gamma, Ep, E0, Eu)
    got = d.dielectric_function(grid[at])
    h.eq("imaginary", h.np.imag(got), e2[at])
    h.eq("real", h.np.real(got), kk)
    if at == 0:
        got = d.dielectric_function(h.arr([(grid[0] + grid[1]) * 3 / 4 - 3000, grid[1]]))
        x = hc(h) / ((grid[0] + grid[1]) * 3 / 4 - 3000)
        h.eq("array imaginary", h.np.imag(got), [G(x) * L(x), e2[1]])
