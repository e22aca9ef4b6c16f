"""C24 Tabulated dispersions interpolate the given data."""
import itertools
import os
import shutil
import tempfile

from symx.harness import Registry

from .C21 import hc

R = Registry()
BOUNDS = ("all complex table values and all strictly ordered real wavelengths, tables of 2 to 4 rows (thorough: 5) in every row order, every query wavelength inside and outside, scalar and array queries; tables of 5 to 40 rows on six given wavelength grids with every table value; "
          "pseudo-dielectric tables of 4 rows at their wavelengths; SpectraRay files with fixed numbers, queried at every wavelength")
OUTSIDE = "interpolation kinds other than linear between the rows (at the rows they pass through the data); repeated wavelengths in a table; the text of a SpectraRay file is concrete"


def axis(h, n):
    x = [h.real("x0", positive=True, sample=(100.0, 200.0))]
    for i in range(1, n):
        x.append(x[-1] + h.real(f"dx{i}", positive=True, sample=(10.0, 100.0)))
    return x


def make(h, what, x, y, **kw):
    if what == "eps":
        return h.elli.TableEpsilon(x, y, **kw)
    return h.elli.Table(x, y, **kw)


def value(d, kind, q):
    return d.dielectric_function(q) if kind == "eps" else d.refractive_index(q)


def line(x, y, k, t):
    return y[k - 1] + (y[k] - y[k - 1]) * t


@R.case(kind="eps", n=2)
@R.case(kind="n", n=2)
@R.case(kind="eps", n=3)
@R.case(kind="n", n=3)
@R.case(kind="eps", n=4)
@R.case(kind="n", n=4)
@R.case(kind="eps", n=5, quick=False)
@R.case(kind="n", n=5, quick=False)
def inside(h, kind, n):
    x = axis(h, n)
    y = [h.cplx(f"y{i}") for i in range(n)]
    d = make(h, kind, h.arr(x), h.arr(y))
    h.eq("at rows", value(d, kind, h.arr(x)), y)
    t = h.real("t", lo=0, hi=1)
    for k in range(1, n):
        q = x[k - 1] + (x[k] - x[k - 1]) * t
        want = line(x, y, k, t)
        h.eq(f"between {k}", value(d, kind, q), want)
        h.eq(f"between {k} array", value(d, kind, h.arr([q])), [want])
        h.eq(f"between {k} eps", d.get_dielectric(h.arr([q])), [want if kind == "eps" else want * want])
        if kind == "n":
            h.eq(f"between {k} n", d.get_refractive_index(h.arr([q])), [want])
    # a query array in any order
    qs = [x[-1], x[0] + (x[1] - x[0]) * t, x[0]]
    h.eq("mixed array", value(d, kind, h.arr(qs)), [y[-1], line(x, y, 1, t), y[0]])
    h.eq("query kept", h.arr(qs), qs)
    # the declared data is what is stored
    h.eq("rows", value(d, kind, d.single_params["lbda"]), y)


GRIDS = {"equal": [300.0 + 10 * i for i in range(40)], "growing": [round(1600 * 1.0625**i) / 8 for i in range(30)], "seam": [200.0 + 5 * i for i in range(12)] + [260.0 + 20 * i for i in range(12)],
         "close": [500.0, 500.0009765625, 500.001953125, 501.0, 2000.0], "infrared": [1000.0 * i for i in range(1, 25)], "integers": list(range(400, 421))}


@R.case(kind="eps", grid="equal")
@R.case(kind="n", grid="equal")
@R.case(kind="eps", grid="growing")
@R.case(kind="n", grid="seam")
@R.case(kind="n", grid="close")
@R.case(kind="eps", grid="infrared")
@R.case(kind="n", grid="integers")
def long(h, kind, grid):
    """long tables on given wavelengths, increasing, decreasing and shuffled"""
    x = GRIDS[grid]
    n = len(x)
    y = [h.cplx(f"y{i}") for i in range(n)]
    t = h.real("t", lo=0, hi=1)
    for nm, p in (("up", range(n)), ("down", range(n)[::-1]), ("shuffled", [(7 * i + 3) % n for i in range(n)] if n % 7 else [(5 * i + 3) % n for i in range(n)])):
        xs = h.ints([x[i] for i in p]) if grid == "integers" else h.np.array([x[i] for i in p])
        d = make(h, kind, xs, h.arr([y[i] for i in p]))
        h.eq(f"{nm} at rows", value(d, kind, h.np.array([float(v) for v in x])), y)
        h.eq(f"{nm} quarters", value(d, kind, h.np.array([x[k] + (x[k + 1] - x[k]) * 0.25 for k in range(n - 1)])), [y[k] + (y[k + 1] - y[k]) / 4 for k in range(n - 1)])
        h.eq(f"{nm} backwards", value(d, kind, h.np.array([x[k] + (x[k + 1] - x[k]) * 0.75 for k in range(n - 1)][::-1])), [y[k] + (y[k + 1] - y[k]) * 3 / 4 for k in range(n - 1)][::-1])
        for k in (1, n // 2, n - 1):
            h.eq(f"{nm} between {k}", value(d, kind, x[k - 1] + (x[k] - x[k - 1]) * t), line(x, y, k, t))
        for q in (x[0] - 1, x[-1] + 1, x[0] / 2, 2 * x[-1]):
            h.raises(f"{nm} outside {q}", ValueError, lambda: value(d, kind, h.np.array([x[0], q])))


@R.case(kind="eps")
@R.case(kind="n")
def row_order(h, kind):
    n = 3
    x = axis(h, n)
    y = [h.cplx(f"y{i}") for i in range(n)]
    t = h.real("t", lo=0, hi=1)
    for p in itertools.permutations(range(n)):
        d = make(h, kind, h.arr([x[i] for i in p]), h.arr([y[i] for i in p]))
        h.eq(f"{p} rows", value(d, kind, h.arr(x)), y)
        for k in range(1, n):
            h.eq(f"{p} {k}", value(d, kind, x[k - 1] + (x[k] - x[k - 1]) * t), line(x, y, k, t))
        # the default range is the given table, in its order
        f = d.get_dielectric_df() if kind == "eps" else d.get_refractive_index_df()
        col = f["ϵ1"] if kind == "eps" else f["n"]
        h.eq(f"{p} frame index", list(f.index), [x[i] for i in p])
        h.eq(f"{p} frame", list(col), [h.np.real(y[i]) for i in p])


@R.case(kind="eps")
@R.case(kind="n")
def outside(h, kind):
    n = 3
    x = axis(h, n)
    y = [h.cplx(f"y{i}") for i in range(n)]
    e = h.real("e", positive=True, sample=(0.1, 50.0))
    for order in ((0, 1, 2), (2, 1, 0), (1, 0, 2)):
        d = make(h, kind, h.arr([x[i] for i in order]), h.arr([y[i] for i in order]))
        for nm, q in (("below", x[0] - e), ("above", x[-1] + e)):
            h.raises(nm, ValueError, lambda: value(d, kind, q))
            h.raises(nm + " array", ValueError, lambda: value(d, kind, h.arr([x[0], q, x[1]])))
            h.raises(nm + " dielectric", ValueError, lambda: d.get_dielectric(h.arr([q])))
            h.raises(nm + " index", ValueError, lambda: d.get_refractive_index(h.arr([q])))


@R.case(kind="eps")
@R.case(kind="n")
def rejected(h, kind):
    bad = h.mod("elli.dispersions.base_dispersion").InvalidParameters
    x = axis(h, 3)
    y = [h.cplx(f"y{i}") for i in range(3)]
    h.raises("empty", bad, lambda: make(h, kind, h.np.array([]), h.np.array([])))
    h.raises("empty lists", bad, lambda: make(h, kind, [], []))
    h.raises("empty wavelengths", bad, lambda: make(h, kind, h.np.array([]), h.arr(y)))
    h.raises("empty values", bad, lambda: make(h, kind, h.arr(x), h.np.array([])))
    for a, b in itertools.product(range(1, 4), repeat=2):
        if a != b:
            h.raises(f"lengths {a} {b}", bad, lambda: make(h, kind, h.arr(x[:a]), h.arr(y[:b])))
    # lists are as good as arrays
    d = make(h, kind, list(x), list(y))
    h.eq("lists", value(d, kind, h.arr(x)), y)


@R.case(kind="eps")
@R.case(kind="n")
def kinds(h, kind):
    """other interpolations pass through the rows and the option reaches the right object"""
    n = 4
    x = [100.0, 200.0, 350.0, 400.0]
    y = [h.cplx(f"y{i}") for i in range(n)]
    for k in ("cubic", "quadratic", "linear"):
        d = make(h, kind, h.np.array(x), h.arr(y), kind=k)
        h.eq(k, value(d, kind, h.np.array(x)), y)
    d = make(h, kind, h.np.array(x), h.arr(y))
    h.eq("default linear", value(d, kind, 150.0), (y[0] + y[1]) / 2)
    h.eq("linear in the data", value(make(h, kind, h.np.array(x), h.arr([2 * v for v in y])), kind, 375.0), y[2] + y[3])


@R.case()
def declared_quantity(h):
    """the same numbers as index or as permittivity"""
    x = axis(h, 2)
    y = [h.cplx(f"y{i}") for i in range(2)]
    a, b = make(h, "eps", h.arr(x), h.arr(y)), make(h, "n", h.arr(x), h.arr(y))
    h.eq("eps table", a.get_dielectric(h.arr(x)), y)
    h.eq("n table", b.get_refractive_index(h.arr(x)), y)
    h.eq("n table eps", b.get_dielectric(h.arr(x)), [v * v for v in y])
    t = h.real("t", lo=0, hi=1)
    q = x[0] + (x[1] - x[0]) * t
    m = y[0] + (y[1] - y[0]) * t
    h.eq("n table eps between", b.get_dielectric(h.arr([q])), [m * m])
    h.eq("eps table between", a.get_dielectric(h.arr([q])), [m])


@R.case()
def isolated(h):
    """tables do not share data, and later changes to the arrays given do not matter to other tables"""
    x = axis(h, 2)
    y = [h.cplx(f"y{i}") for i in range(4)]
    a = make(h, "eps", h.arr(x), h.arr(y[:2]))
    b = make(h, "eps", h.arr(x), h.arr(y[2:]))
    h.eq("a", a.dielectric_function(h.arr(x)), y[:2])
    h.eq("b", b.dielectric_function(h.arr(x)), y[2:])
    h.eq("a again", a.dielectric_function(h.arr(x)), y[:2])


@R.case(perm=0)
@R.case(perm=1)
def pseudo(h, perm):
    """the pseudo-dielectric table at its own wavelengths"""
    xs = [300.0, 400.0, 500.0, 650.0]
    order = [(0, 1, 2, 3), (2, 0, 3, 1)][perm]
    th = h.acute("th")
    ps = [h.real(f"p{i}", positive=True, sample=(0.2, 0.6)) for i in range(4)]  # tan psi
    de = [h.angle(f"d{i}", sample=(0.3, 2.8)) for i in range(4)]
    psi = [h.deg(h.np.arctan(p)) for p in ps]
    rho = [p * h.exp(-1j * d) for p, d in zip(ps, de)]
    s, c = h.np.sin(th), h.np.cos(th)
    for r in rho:
        h.assume(h.np.real((1 + r) * h.conj(1 + r)) > 0)
    want = [s * s * (1 + s * s / (c * c) * ((1 - r) / (1 + r)) ** 2) for r in rho]
    d = h.elli.PseudoDielectricFunction(h.deg(th), h.np.array([xs[i] for i in order]), h.arr([psi[i] for i in order]), h.arr([h.deg(de[i]) for i in order]))
    h.eq("values", d.dielectric_function(h.np.array(xs)), want)
    h.eq("get", d.get_dielectric(h.np.array(xs)), want)
    h.eq("scalar", d.dielectric_function(400.0), want[1])
    k = h.elli.PseudoDielectricFunction(delta=h.arr([h.deg(v) for v in de]), psi=h.arr(psi), lbda=h.np.array(xs), angle=h.deg(th))
    h.eq("keywords", k.dielectric_function(h.np.array(xs)), want)
    for q in (299.0, 651.0):
        h.raises(f"outside {q}", ValueError, lambda: d.dielectric_function(q))


FILE = """*** comment ***
Name=Test
Units={unit},eps1,eps2
Begin of array
{rows}
End of array
trailing text
"""


@R.case(unit="Wavelength")
@R.case(unit="Energy")
def spectraray(h, unit):
    rows = [(2.0, 2.25, 0.5), (4.0, 3.5, 0.25), (5.0, 1.5, 1.0)]
    if unit == "Wavelength":
        rows = [(300.0, 2.25, 0.5), (400.0, 3.5, 0.25), (600.0, 1.5, 1.0)]
    d = tempfile.mkdtemp()
    try:
        with open(os.path.join(d, "m.mat"), "w", encoding="utf8") as f:
            f.write(FILE.format(unit=unit, rows="\n".join(f"{a}\t{b}\t{c}" for a, b, c in rows)))
        t = h.mod("elli.dispersions.table_spectraray").TableSpectraRay(d + "/").load_dispersion_table("m.mat")
    finally:
        shutil.rmtree(d)
    x = [h.const(r[0]) if unit == "Wavelength" else hc(h) / r[0] for r in rows]
    y = [r[1] + 1j * r[2] for r in rows]
    # inside by a hair, since the wavelengths are converted with rounding
    w = h.real("t", lo=0.001, hi=0.999)
    for k in (1, 2):
        h.eq(f"between {k}", t.dielectric_function(x[k - 1] + (x[k] - x[k - 1]) * w), y[k - 1] + (y[k] - y[k - 1]) * w)
    e = h.real("e", positive=True, sample=(1.0, 50.0))
    lo, hi = (x[0], x[2]) if unit == "Wavelength" else (x[2], x[0])
    h.raises("below", ValueError, lambda: t.dielectric_function(lo - 1 - e))
    h.raises("above", ValueError, lambda: t.dielectric_function(hi + 1 + e))
