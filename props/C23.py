"""C23 Index and permittivity views of a dispersion agree."""
from symx.harness import Registry

from .common import lin_disp, table_disp, lams

R = Registry()
BOUNDS = ("all complex permittivities and indices (user-defined dispersions of arbitrary values, tables, constants, sums, built-in models), scalars and arrays of up to "
          "three wavelengths, default range of 801 points and of the table")
OUTSIDE = "the root of a permittivity on the negative real axis is i*sqrt|eps|"


def root_checks(h, tag, eps, n):
    """n is the root of eps with non-negative extinction (in the upper half plane of eps)"""
    eps, n = list(eps), list(n)
    h.eq(tag + " squared", [a * a for a in n], eps)
    h.le(tag + " real part", 0, h.np.real(h.arr(n)))


@R.case(n=1)
@R.case(n=3)
def eps_model(h, n):
    v = [h.cplx(f"e{i}") for i in range(n)]
    for z in v:
        h.assume(h.np.imag(z) > 0)
    d = table_disp(h, v)
    x = h.np.array(lams(n))
    h.eq("eps", d.get_dielectric(x), v)
    m = d.get_refractive_index(x)
    root_checks(h, "index", v, m)
    h.le("extinction", 0, h.np.imag(m))
    h.eq("kept", x, lams(n))
    s = d.get_refractive_index(100.0)
    h.eq("scalar", s, m[0])
    h.eq("scalar eps", d.get_dielectric(100.0), v[0])
    i = d.as_index()
    h.eq("as index", i.get_refractive_index(x), m)
    h.eq("as index eps", i.get_dielectric(x), v)
    h.eq("as index dielectric function", i.dielectric_function(x), v)


@R.case()
def eps_real(h):
    """transparent media and ideal metals"""
    a = h.real("a", positive=True)
    b = h.real("b", positive=True)
    h.hint(a, b)
    d = table_disp(h, [a * a, -b * b, 0 * a])
    n = d.get_refractive_index(h.np.array(lams(3)))
    h.eq("index", n, [a, 1j * b, 0])
    for mk in (h.elli.EpsilonInf,):
        h.eq("constant", mk(a * a).get_refractive_index(500.0), a)
        h.eq("constant negative", mk(-b * b).get_refractive_index(500.0), 1j * b)
        h.eq("constant array", h.np.asarray(mk(a * a).get_refractive_index(h.np.array([500.0, 600.0]))) + h.np.zeros(2), [a, a])


@R.case(n=1)
@R.case(n=3)
def index_model(h, n):
    v = [h.cplx(f"n{i}") for i in range(n)]
    base = h.mod("elli.dispersions.base_dispersion").IndexDispersion

    class Tab(base):
        single_params_template = {}
        rep_params_template = {}

        def refractive_index(self, lbda):
            import numpy

            a = numpy.asarray(lbda, dtype=float)
            if a.ndim == 0:
                return h.np.asarray(v[int(round(float(a) / 100)) - 1])
            return h.arr([v[int(round(float(y) / 100)) - 1] for y in a])

    d = Tab()
    x = h.np.array(lams(n))
    h.eq("index", d.get_refractive_index(x), v)
    h.eq("eps", d.get_dielectric(x), [z * z for z in v])
    h.eq("dielectric function", d.dielectric_function(x), [z * z for z in v])
    h.eq("scalar", d.get_refractive_index(100.0), v[0])
    h.eq("scalar eps", d.get_dielectric(100.0), v[0] * v[0])
    frames(h, d, x, [z * z for z in v], v)


def frames(h, d, x, eps, n):
    f = d.get_dielectric_df(x)
    h.same("columns", list(f.columns), ["ϵ1", "ϵ2"])
    h.same("index name", f.index.name, "Wavelength")
    h.eq("wavelengths", list(f.index), list(x))
    e, m = h.arr(list(eps)), h.arr(list(n))
    h.eq("eps1", list(f["ϵ1"]), h.np.real(e))
    h.eq("eps2", list(f["ϵ2"]), h.np.imag(e))
    c = d.get_dielectric_df(x, conjugate=True)
    h.eq("eps1 conj", list(c["ϵ1"]), h.np.real(e))
    h.eq("eps2 conj", list(c["ϵ2"]), -h.np.imag(e))
    c = d.get_dielectric_df(x, conjugate=False)
    h.eq("eps2 no conj", list(c["ϵ2"]), h.np.imag(e))
    f = d.get_refractive_index_df(x)
    h.same("columns n", list(f.columns), ["n", "k"])
    h.same("index name n", f.index.name, "Wavelength")
    h.eq("wavelengths n", list(f.index), list(x))
    h.eq("n", list(f["n"]), h.np.real(m))
    h.eq("k", list(f["k"]), h.np.imag(m))
    c = d.get_refractive_index_df(x, conjugate=True)
    h.eq("n conj", list(c["n"]), h.np.real(m))
    h.eq("k conj", list(c["k"]), -h.np.imag(m))


@R.case()
def frames_eps(h):
    v = [h.cplx(f"n{i}") for i in range(3)]
    for z in v:
        h.assume(h.np.real(z) > 0)
        h.hint(z)
    d = table_disp(h, [z * z for z in v])
    frames(h, d, h.np.array(lams(3)), [z * z for z in v], v)


@R.case()
def frames_constant(h):
    """models whose value is a plain number fill the whole frame"""
    a = h.real("a", positive=True)
    h.hint(a)
    x = h.np.array([400.0, 500.0])
    frames(h, h.elli.EpsilonInf(a * a), x, [a * a] * 2, [a] * 2)
    frames(h, h.elli.ConstantRefractiveIndex(a), x, [a * a] * 2, [a] * 2)
    frames(h, h.elli.Polynomial(a * a), x, [a * a] * 2, [a] * 2)
    z = h.cplx("z")
    frames(h, h.elli.ConstantRefractiveIndex(z), x, [z * z] * 2, [z] * 2)


@R.case()
def default_range(h):
    a = h.real("a", positive=True, sample=(1.0, 2.0))
    b = h.real("b", positive=True, sample=(0.001, 0.002))
    d = lin_disp(h, a, b, index=True)
    w = [200.0 + i for i in range(801)]
    f = d.get_dielectric_df()
    g = d.get_refractive_index_df()
    h.same("rows", (len(f.index), len(g.index)), (801, 801))
    h.eq("range eps", list(f.index), w)
    h.eq("range n", list(g.index), w)
    for i in (0, 1, 400, 800):
        n = a + b * w[i]
        h.eq(f"n {i}", list(g["n"])[i], n)
        h.eq(f"eps {i}", list(f["ϵ1"])[i], n * n)
    h.eq("no argument n", d.get_refractive_index()[5], a + b * 205)
    h.eq("no argument eps", d.get_dielectric()[5], (a + b * 205) * (a + b * 205))


@R.case(kind="eps")
@R.case(kind="n")
def table_range(h, kind):
    """tables default to their own wavelengths"""
    xs = [300.0, 350.0, 500.0]
    v = [h.cplx(f"n{i}") for i in range(3)]
    for z in v:
        h.assume(h.np.real(z) > 0)
        h.hint(z)
    sq = [z * z for z in v]
    d = h.elli.TableEpsilon(h.np.array(xs), h.arr(sq)) if kind == "eps" else h.elli.Table(h.np.array(xs), h.arr(v))
    h.eq("eps", d.get_dielectric(), sq)
    h.eq("n", d.get_refractive_index(), v)
    f, g = d.get_dielectric_df(), d.get_refractive_index_df()
    h.eq("index", list(f.index), xs)
    h.eq("index n", list(g.index), xs)
    h.eq("eps2", list(f["ϵ2"]), h.np.imag(h.arr(sq)))
    h.eq("k", list(g["k"]), h.np.imag(h.arr(v)))
    h.eq("conj", list(d.get_dielectric_df(conjugate=True)["ϵ2"]), -h.np.imag(h.arr(sq)))
    h.eq("conj k", list(d.get_refractive_index_df(conjugate=True)["k"]), -h.np.imag(h.arr(v)))
    # other objects keep the usual range
    h.same("default", len(h.elli.EpsilonInf(2.0).get_dielectric_df().index), 801)


@R.case(kind="eps")
@R.case(kind="n")
def material(h, kind):
    """get_mat gives the isotropic material with these values"""
    v = [h.cplx(f"n{i}") for i in range(2)]
    for z in v:
        h.assume(h.np.real(z) > 0)
        h.assume(h.np.imag(z) > 0)
        h.hint(z)
    xs = [300.0, 500.0]
    d = h.elli.TableEpsilon(h.np.array(xs), h.arr([z * z for z in v])) if kind == "eps" else h.elli.Table(h.np.array(xs), h.arr(v))
    m = d.get_mat()
    h.true("isotropic", isinstance(m, h.elli.IsotropicMaterial))
    x = h.np.array(xs)
    t = m.get_tensor(x)
    h.eq("tensor", t, [[[z * z if i == j else 0 for j in range(3)] for i in range(3)] for z in v])
    h.eq("one wavelength", h.np.reshape(m.get_tensor(500.0), (3, 3)), [[v[1] * v[1] if i == j else 0 for j in range(3)] for i in range(3)])
    n = m.get_refractive_index(x)
    h.eq("index", n, [[[z if i == j else 0 for j in range(3)] for i in range(3)] for z in v])


@R.case()
def builtin_views(h):
    """the views of built-in models agree"""
    E = h.elli
    a, b, c = (h.real(k, positive=True, sample=(0.5, 2.0)) for k in "abc")
    x = h.np.array([2.0, 3.0])
    for nm, d in (("sellmeier", E.Sellmeier().add(a, b)), ("lorentz", E.LorentzLambda().add(a, b, c)), ("drude", E.DrudeEnergy(a, b)), ("polynomial", E.Polynomial(a).add(b, 1)),
                  ("sum", E.EpsilonInf(a) + E.LorentzLambda().add(b, c, a))):
        n = d.get_refractive_index(x)
        h.eq(nm + " n^2", n * n, d.dielectric_function(x))
        h.eq(nm + " get", d.get_dielectric(x), d.dielectric_function(x))
    for nm, d in (("cauchy", E.Cauchy(a, b, c, b, a, c)), ("custom", E.CauchyCustomExponent(a).add(b, 1)), ("sum", E.Cauchy(a, b) + E.Cauchy(b, c))):
        n = d.refractive_index(x)
        h.eq(nm + " eps", d.dielectric_function(x), n * n)
        h.eq(nm + " get n", d.get_refractive_index(x), n)
        h.eq(nm + " get eps", d.get_dielectric(x), n * n)
    x = h.np.array([300.0, 600.0])
    h.exp(h.sci("speed of light in vacuum") * h.sci("Planck constant in eV/Hz") * 10 ** 9 / 600 / c)
    d = E.CauchyUrbach(a, b, c, a, b, c)
    n = d.refractive_index(x)
    h.eq("urbach eps", d.dielectric_function(x), n * n)
    h.eq("urbach get eps", d.get_dielectric(x), n * n)
