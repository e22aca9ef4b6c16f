"""C22 Passive oscillator models never amplify light."""
from symx.harness import Registry

from .C21 import Wave, coarse_grid, hc

R = Registry()
ASSUMPTIONS = "the fact e^x >= 1 + x about the exponential is given to the solver as an axiom (for one exponent per oscillator)"
BOUNDS = ("all non-negative strengths and widths, all positive energies and wavelengths; single terms and sums of two oscillators, arrays of two wavelengths; "
          "Cody-Lorentz on an integration grid coarsened to 3 points (its imaginary part does not depend on the grid)")
OUTSIDE = ("the Tanguy model (digamma/gamma functions), arguments exactly on an undamped pole; facts about exp used by the solver: e^x > 0, e^x >= 1 + x, e^(a+b) = e^a e^b")


def im(h, z):
    return h.np.imag(z)


def nonneg(h, *names):
    return [h.real(n, nonneg=True, sample=(0.3, 2.0)) for n in names]


def pos(h, *names):
    return [h.real(n, positive=True, sample=(0.3, 2.0)) for n in names]


def passive(h, d, w, what=""):
    e = d.dielectric_function(w.arr())
    h.le(what + "eps2", 0, im(h, e))
    h.le(what + "eps2 scalar", 0, im(h, d.dielectric_function(w.l[0])))
    h.le(what + "eps2 complex", 0, im(h, d.get_dielectric(w.arr())))
    return e


@R.case(n=1)
@R.case(n=2)
def lorentz_energy(h, n):
    w = Wave(h, 3 - n)
    d = h.elli.LorentzEnergy()
    for i in range(n):
        A, = nonneg(h, f"A{i}")
        E0, g = pos(h, f"E0{i}", f"g{i}")
        d.add(A, E0, g)
    passive(h, d, w)


@R.case(n=1)
@R.case(n=2)
def lorentz_lambda(h, n):
    w = Wave(h, 3 - n, energy=False)
    d = h.elli.LorentzLambda()
    for i in range(n):
        A, = nonneg(h, f"A{i}")
        l0, g = pos(h, f"l0{i}", f"g{i}")
        d.add(A, l0, g)
    passive(h, d, w)


@R.case()
def lorentz_undamped(h):
    """zero width: transparent away from the resonance"""
    w = Wave(h, 1)
    A, = nonneg(h, "A")
    E0, = pos(h, "E0")
    h.assume(w.E[0] != E0)
    h.eq("energy", im(h, h.elli.LorentzEnergy().add(A, E0, 0).dielectric_function(w.arr())), 0)
    h.assume(w.l[0] != E0)
    h.eq("lambda", im(h, h.elli.LorentzLambda().add(A, E0, 0).dielectric_function(w.arr())), 0)


@R.case()
def drude(h):
    w = Wave(h)
    A, g = nonneg(h, "A", "g")
    passive(h, h.elli.DrudeEnergy(A, g), w, "energy ")
    h.eq("undamped", im(h, h.elli.DrudeEnergy(A, 0).dielectric_function(w.arr())), 0)
    rho, tau = pos(h, "rho", "tau")
    passive(h, h.elli.DrudeResistivity(rho, tau), w, "resistivity ")


@R.case(n=1)
@R.case(n=2)
def gaussian(h, n):
    w = Wave(h, 1)
    d = h.elli.Gaussian()
    ln2 = h.np.log(2)
    for i in range(n):
        A, = nonneg(h, f"A{i}")
        E0, s = pos(h, f"E0{i}", f"s{i}")
        # e^x >= 1 for x = 16 ln2 E E0 / s^2 >= 0 is what separates the two Gaussians
        x = 8 * ln2 * w.E[0] * E0 / s ** 2
        h.lemma("x", x >= 0)
        h.assume(h.exp(x) >= 1 + x)
        d.add(A, E0, s)
    passive(h, d, w)


@R.case(n=1)
@R.case(n=2)
def tauc_lorentz_above(h, n):
    Eg, = pos(h, "Eg")
    dE, = nonneg(h, "dE")
    E = Eg + dE
    d = h.elli.TaucLorentz(Eg)
    for i in range(n):
        A, = nonneg(h, f"A{i}")
        al, C = pos(h, f"al{i}", f"C{i}")
        E0 = h.sqrt(al * al + C * C) / 2
        h.hint(al)
        d.add(A, E0, C)
    h.assume(dE > 0)
    l = hc(h) / E
    h.le("eps2", 0, im(h, d.dielectric_function(h.arr([l]))))
    h.le("eps2 scalar", 0, im(h, d.dielectric_function(l)))


@R.case()
def tauc_lorentz_gap(h):
    """no absorption below the gap, whatever the oscillators"""
    Eg, t = pos(h, "Eg", "t")
    E = Eg * t / (1 + t)
    d = h.elli.TaucLorentz(Eg)
    for i in range(2):
        A, = nonneg(h, f"A{i}")
        al, C = pos(h, f"al{i}", f"C{i}")
        E0 = h.sqrt(al * al + C * C) / 2
        h.hint(al)
        d.add(A, E0, C)
    l = hc(h) / E
    h.eq("eps2", im(h, d.dielectric_function(h.arr([l, 2 * l]))), 0)


@R.case()
def tauc_lorentz_zero(h):
    Eg, al, C, dE = pos(h, "Eg", "al", "C", "dE")
    E0 = h.sqrt(al * al + C * C) / 2
    h.hint(al)
    d = h.elli.TaucLorentz(Eg).add(0, E0, C)
    h.eq("above", d.dielectric_function(hc(h) / (Eg + dE)), 0)
    h.eq("below", d.dielectric_function(hc(h) / (Eg * dE / (1 + dE))), 0)


@R.case(tail=True, opts={"timeout": 100})
@R.case(tail=False, opts={"timeout": 100})
def cody_lorentz(h, tail):
    A, = nonneg(h, "A")
    Eg, gamma, Ep, E0, Eu = pos(h, "Eg", "gamma", "Ep", "E0", "Eu")
    Et = h.real("Et", lo=0.13, hi=0.2)
    grid = coarse_grid(h)
    h.exp(hc(h) / 30000 / Eu)
    d = h.elli.CodyLorentz(Eg, A, Et, gamma, Ep, E0, Eu)
    for l in (grid[2:] if tail else grid[:2]):
        h.le("eps2", 0, im(h, d.dielectric_function(l)))


@R.case()
def urbach(h):
    n0, B, C, D = nonneg(h, "n0", "B", "C", "D")
    Eg, Eu = pos(h, "Eg", "Eu")
    w = Wave(h)
    d = h.elli.CauchyUrbach(n0, B, C, D, Eg, Eu)
    n = d.refractive_index(w.arr())
    h.le("k", 0, im(h, n))
    h.le("eps2", 0, im(h, d.dielectric_function(w.arr())))
    t = h.elli.CauchyUrbach(n0, B, C, 0, Eg, Eu)
    h.eq("transparent", im(h, t.refractive_index(w.arr())), 0)
    # less absorption the further below the edge
    e = h.exp((w.E[1] - w.E[0]) / Eu)
    h.eq("tail slope", im(h, n)[1], im(h, n)[0] * e)


@R.case()
def cauchy(h):
    n0, n1, n2, k0, k1, k2 = nonneg(h, "n0", "n1", "n2", "k0", "k1", "k2")
    w = Wave(h, energy=False)
    d = h.elli.Cauchy(n0, n1, n2, k0, k1, k2)
    h.le("k", 0, im(h, d.refractive_index(w.arr())))
    h.le("eps2", 0, im(h, d.dielectric_function(w.arr())))
    h.eq("transparent", im(h, h.elli.Cauchy(n0, n1, n2).refractive_index(w.arr())), 0)


@R.case()
def transparent_models(h):
    w = Wave(h, energy=False)
    a, b, c = (h.real(k, sample=(-2.0, 2.0)) for k in "abc")
    for nm, d in (("sellmeier", h.elli.Sellmeier().add(a, b).add(c, a)), ("poles", h.elli.Poles(a, b, c)), ("polynomial", h.elli.Polynomial(a).add(b, 2).add(c, -2)),
                  ("eps inf", h.elli.EpsilonInf(a)), ("index", h.elli.ConstantRefractiveIndex(a)), ("custom", h.elli.CauchyCustomExponent(a).add(b, -2))):
        for l in w.l:
            h.eq(nm, im(h, d.dielectric_function(l)), 0)


@R.case()
def zero_strength(h):
    w = Wave(h)
    E0, g, s = pos(h, "E0", "g", "s")
    x = w.arr()
    h.eq("lorentz energy", h.elli.LorentzEnergy().add(0, E0, g).dielectric_function(x), 1)
    h.eq("lorentz lambda", h.elli.LorentzLambda().add(0, E0, g).dielectric_function(x), 1)
    h.eq("drude", h.elli.DrudeEnergy(0, g).dielectric_function(x), 0)
    h.eq("gaussian", h.elli.Gaussian().add(0, E0, s).dielectric_function(x), 0)
    h.eq("sellmeier", h.elli.Sellmeier().add(0, E0).dielectric_function(x), 1)


@R.case()
def sum_of_models(h):
    """passive terms stay passive when added to a transparent background"""
    w = Wave(h, 1)
    A, B, g0 = nonneg(h, "A", "B", "g0")
    E0, g = pos(h, "E0", "g")
    e, = pos(h, "e")
    s = h.elli.EpsilonInf(e) + h.elli.LorentzEnergy().add(A, E0, g) + h.elli.DrudeEnergy(B, g0)
    h.le("eps2", 0, im(h, s.dielectric_function(w.arr())))
    h.le("eps2 reversed", 0, im(h, (h.elli.DrudeEnergy(B, g0) + 2 + h.elli.LorentzEnergy().add(A, E0, g)).dielectric_function(w.arr())))
