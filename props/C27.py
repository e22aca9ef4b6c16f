"""C27 Unit conversions are mutually consistent and self-inverse."""
import itertools

from symx.harness import Registry

from .common import table_disp, lin_disp

R = Registry()
BOUNDS = "all positive real values (numbers and arrays of up to 3 values, of any shape up to 2x2); all complex indices for the quarter-wave thickness, isotropic, uniaxial, biaxial and rotated by quarter turns"
OUTSIDE = "rounding in the last digits; zero and negative values"


def u(h):
    return h.mod("elli.utils")


def funcs(h):
    m = u(h)
    return {
        ("nm", "eV"): m.conversion_wavelength_energy, ("eV", "nm"): m.conversion_wavelength_energy,
        ("nm", "Hz"): m.conversion_wavelength_frequency, ("Hz", "nm"): m.conversion_wavelength_frequency,
        ("nm", "1/cm"): m.conversion_wavelength_wavenumber, ("1/cm", "nm"): m.conversion_wavelength_wavenumber,
        ("Hz", "eV"): m.conversion_frequency2energy, ("eV", "Hz"): m.conversion_energy2frequency,
    }


def table(h):
    c, hev = h.sci("speed of light in vacuum"), h.sci("Planck constant in eV/Hz")
    return {
        ("nm", "eV"): lambda v: hev * c * 10**9 / v, ("eV", "nm"): lambda v: hev * c * 10**9 / v,
        ("nm", "Hz"): lambda v: c * 10**9 / v, ("Hz", "nm"): lambda v: c * 10**9 / v,
        ("nm", "1/cm"): lambda v: 10**7 / v, ("1/cm", "nm"): lambda v: 10**7 / v,
        ("Hz", "eV"): lambda v: hev * v, ("eV", "Hz"): lambda v: v / hev,
    }


SAMPLE = {"nm": (100.0, 2000.0), "eV": (0.5, 6.0), "Hz": (1e14, 1e15), "1/cm": (1e3, 1e5)}


@R.case()
def values(h):
    """each conversion by definition, with the exact constants of the SI"""
    T = table(h)
    for (a, b), f in funcs(h).items():
        v = [h.real(f"v{a}{b}{i}", positive=True, sample=SAMPLE[a]) for i in range(3)]
        g = T[a, b]
        h.eq(f"{a} to {b}", f(v[0]), g(v[0]), tol=1e-10)
        x = h.arr(v)
        h.eq(f"{a} to {b} array", f(x), [g(q) for q in v], tol=1e-10)
        h.eq(f"{a} to {b} array kept", x, v)
        y = h.arr(v[:1] + v[:1] + v[1:]).reshape(2, 2)
        h.eq(f"{a} to {b} matrix", f(y), h.arr([g(q) for q in v[:1] + v[:1] + v[1:]]).reshape(2, 2), tol=1e-10)
        h.eq(f"{a} to {b} again", f(v[0]), f(v[0]))
        # numbers which are integers
        k = h.integer(f"k{a}{b}", 1, 1000)
        h.eq(f"{a} to {b} integer", f(k), g(k), tol=1e-10)
        h.eq(f"{a} to {b} integer array", f(h.arr([k, 2 * k])), [g(k), g(2 * k)], tol=1e-10)


@R.case()
def inverses(h):
    F = funcs(h)
    for (a, b), f in F.items():
        v = h.real(f"v{a}{b}", positive=True, sample=SAMPLE[a])
        h.eq(f"{a} {b} {a}", F[b, a](f(v)), v, tol=1e-10)
        h.eq(f"{a} {b} {a} array", F[b, a](f(h.arr([v, 2 * v]))), [v, 2 * v], tol=1e-10)


@R.case()
def paths(h):
    """every way from one unit to another gives the same value"""
    F = funcs(h)
    units = ("nm", "eV", "Hz", "1/cm")
    n = 0
    for a, b in itertools.permutations(units, 2):
        v = h.real(f"p{a}{b}", positive=True, sample=SAMPLE[a])
        res = []
        for k in (0, 1, 2):
            for mid in itertools.permutations([q for q in units if q not in (a, b)], k):
                chain = (a,) + mid + (b,)
                if all(s in F for s in zip(chain, chain[1:])):
                    w = v
                    for s in zip(chain, chain[1:]):
                        w = F[s](w)
                    res.append((chain, w))
        for chain, w in res[1:]:
            h.eq(" > ".join(chain), w, res[0][1], tol=1e-10)
            n += 1
    h.true("paths compared", n >= 6)


@R.case()
def monotonic(h):
    F = funcs(h)
    for (a, b), f in F.items():
        v = h.real(f"v{a}{b}", positive=True, sample=SAMPLE[a])
        s = h.real(f"s{a}{b}", positive=True, sample=(0.5, 2.0))
        h.le(f"{a} {b} positive", 0, f(v))
        if "nm" in (a, b):
            h.eq(f"{a} {b} reciprocal", f(s * v) * s, f(v), tol=1e-10)
        else:
            h.eq(f"{a} {b} proportional", f(s * v), f(v) * s, tol=1e-10)


@R.case()
def quarter_wave(h):
    g = u(h).get_qwp_thickness
    l = h.real("l", positive=True, sample=(100.0, 1000.0))
    n = h.real("n", positive=True, sample=(1.0, 3.0))
    k = h.real("k", nonneg=True, sample=(0.0, 1.0))
    el = h.elli
    m = el.ConstantRefractiveIndex(n + 1j * k).get_mat()
    d = g(m, l)
    h.eq("constant", d, l / (4 * n))
    h.eq("quarter of a turn", n * d / l, h.const(0.25))
    h.eq("constant at 500", g(m, 500), 125 / n)
    c = h.real("c", nonneg=True, sample=(0.0, 0.001))
    m = lin_disp(h, n, c, index=True).get_mat()
    h.eq("dispersive", g(m, l), l / (4 * (n + c * l)))
    for i, w in enumerate((150.0, 300.0)):
        y = [h.real(f"y{i}{j}", positive=True, sample=(1.0, 3.0)) for j in range(3)]
        t = h.elli.Table(h.np.array([100.0, 200.0, 300.0]), h.arr(y)).get_mat()
        h.eq(f"table {i}", g(t, w), w / (4 * ((y[0] + y[1]) / 2 if i == 0 else y[2])))
    h.eq("kept", m.get_refractive_index(l)[0, 1, 1], n + c * l)


@R.case()
def quarter_wave_in_stack(h):
    """a layer of that thickness delays by a quarter of a turn"""
    n = h.real("n", positive=True, sample=(1.0, 3.0))
    l = h.real("l", positive=True, sample=(100.0, 1000.0))
    el = h.elli
    m = el.ConstantRefractiveIndex(n).get_mat()
    d = u(h).get_qwp_thickness(m, l)
    r = el.Structure(m, [el.Layer(m, d)], m).evaluate(h.arr([l]), 0, solver=el.Solver2x2)
    t = r.jones_matrix_t
    h.eq("power", r.T_pp, [1])
    h.eq("two quarter turns", [t[0, 0, 0] ** 2], [-1])
    h.eq("four quarter turns", [t[0, 1, 1] ** 4], [1])
    h.eq("a quarter forward", [t[0, 0, 0]], [1j])
