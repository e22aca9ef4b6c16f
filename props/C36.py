"""C36 Optical-model files give the dispersions and materials they describe."""
import h5py
import numpy

from symx.harness import Registry

from .C35 import scratch, text

R = Registry()
BOUNDS = ("all parameter, index and permittivity values (tables of 2 to 3 rows queried everywhere inside, and of 40 rows at all rows and inside four parts), every query wavelength; formulas of eight forms in index and permittivity representation with 0 to 3 repeated parameters and five units; "
          "1 to 3 axes, 1 to 3 and 12 dispersions per axis, up to 12 repeated parameters and 12 materials per file")
OUTSIDE = "longer tables and sums; files with dispersion_y only; sums of dispersions of different representation; formula texts in general (C25); wavelength units other than nm in tables (known finding)"
ASSUMPTIONS = ["a number in a file stands for the symbolic value it was written for wherever the code reads it"]


def fl(h, v):
    return float(h.numeral(v))


def func(g, h, name, rep, formula, single=None, repeated=None, unit="nm", ident="lambda", extra=True):
    d = g.create_group(name)
    d.attrs["NX_class"] = "NXdispersion_function"
    d["wavelength_identifier"] = text(ident)
    d["wavelength_unit"] = 1
    d["wavelength_unit"].attrs["units"] = unit
    d["representation"] = text(rep)
    d["formula"] = text(formula)
    if extra:
        d["convention"] = text("n + ik")
        d["wavelength_min"] = 0.3
        d["model_name"] = text("model")
    for i, (k, v) in enumerate((single or {}).items()):
        p = d.create_group(f"s{i}_{k}" if i % 2 else k)
        p.attrs["NX_class"] = "NXdispersion_single_parameter"
        p["name"] = text(k)
        p["value"] = fl(h, v)
    for i, (k, v) in enumerate((repeated or {}).items()):
        p = d.create_group(f"r{i}_{k}" if i % 2 else k)
        p.attrs["NX_class"] = "NXdispersion_repeated_parameter"
        p["name"] = text(k)
        p["values"] = numpy.array([fl(h, x) for x in v])
        if extra:
            p["parameter_units"] = numpy.array([b""] * len(v))


def tab(g, h, name, kind, x, y, axis="wavelength"):
    d = g.create_group(name)
    d.attrs["NX_class"] = "NXdispersion_table"
    d["convention"] = text("n + ik")
    d[axis] = numpy.array(x)
    d[axis].attrs["units"] = "nm" if axis == "wavelength" else "eV"
    d[{"n": "refractive_index", "eps": "dielectric_function"}[kind]] = numpy.array([fl(h, h.np.real(v)) + 1j * fl(h, h.np.imag(v)) for v in y])


def axis(e, ax):
    g = e.create_group(f"dispersion_{ax}")
    g.attrs["NX_class"] = "NXdispersion"
    g["model_name"] = text("x")
    p = g.create_group("plot")
    p.attrs["NX_class"] = "NXdata"
    p["refractive_index"] = numpy.array([1.0, 2.0])
    return g


def read(h, build):
    def write(p):
        with h5py.File(p, "w") as f:
            build(f)

    return scratch(h, write, lambda p: h.mod("elli.importer.nexus").read_nexus_materials(p), "a.nxs")


def entry(f, name="entry"):
    e = f.create_group(name)
    e["definition"] = text("NXdispersive_material")
    e.create_group("sample")["chemical_formula"] = text("Si")
    return e


FORMS = {
    "constant": ("A", lambda l, s, r: s["A"] + 0 * l),
    "cauchy": ("A + B/lambda**2 + C/lambda**4", lambda l, s, r: s["A"] + s["B"] / l**2 + s["C"] / l**4),
    "sellmeier": ("A + sum[P*lambda**2/(lambda**2+Q)]", lambda l, s, r: s["A"] + sum(p * l**2 / (l**2 + q) for p, q in zip(r["P"], r["Q"]))),
    "sum_only": ("sum[P*lambda**2]", lambda l, s, r: sum(p * l**2 for p in r["P"])),
    "drude": ("A - B*lambda/(1j*lambda + C)", lambda l, s, r: s["A"] - s["B"] * l / (1j * l + s["C"])),
}
UNITS = {"nm": 1, "micrometer": 1000, "angstrom": 0.1, "meter": 10**9, "um": 1000}


@R.case(rep="eps", n=2)
@R.case(rep="n", n=2)
@R.case(rep="eps", n=1)
@R.case(rep="n", n=3)
def functions(h, rep, n):
    l = h.real("l", positive=True, sample=(0.3, 3.0))
    s = {k: h.real(f"s{k}", positive=True, sample=(0.5, 2.0)) for k in "ABC"}
    r = {k: [h.real(f"r{k}{i}", positive=True, sample=(0.5, 2.0)) for i in range(n)] for k in "PQ"}
    for form, (t, f) in FORMS.items():
        used = {k: v for k, v in s.items() if k in t}
        rused = {k: v for k, v in r.items() if k in t}
        for unit, u in UNITS.items() if form in ("cauchy", "sellmeier") else (("nm", 1),):
            for ident in ("lambda", "wl") if form == "cauchy" else ("lambda",):
                m = read(h, lambda file: func(axis(entry(file), "x"), h, form, rep, f"{rep} = {t.replace('lambda', ident)}", used, rused, unit, ident))
                h.same(f"{form} {unit} entries", sorted(m), ["entry"])
                mat = m["entry"]
                h.same(f"{form} {unit} type", type(mat).__name__, "IsotropicMaterial")
                q = h.const(u) * l if isinstance(u, int) else l / 10
                want = f(l, s, r)
                d = mat.get_tensor(h.arr([q]))
                e = want if rep == "eps" else want * want
                h.eq(f"{form} {unit} {ident}", d, [[[e, 0, 0], [0, e, 0], [0, 0, e]]])


@R.case(kind="n", by="wavelength")
@R.case(kind="eps", by="wavelength")
@R.case(kind="n", by="energy")
@R.case(kind="eps", by="energy")
def tables(h, kind, by):
    E = h.mod("elli.utils").conversion_wavelength_energy
    t = h.real("t", lo=0.01, hi=0.99) if by == "energy" else h.real("t", lo=0, hi=1)  # energies become rounded wavelengths
    for i, rows in enumerate(((300.0, 450.0), (300.0, 450.0, 500.0), (500.0, 300.0)) if by == "wavelength" else ((2.0, 3.5), (4.0, 2.5), (1.5, 3.0, 2.25))):
        y = [h.cplx(f"y{i}{j}") for j in range(len(rows))]
        m = read(h, lambda file: tab(axis(entry(file), "x"), h, "dispersion_table_nk", kind, rows, y, by))["entry"]
        h.same(f"type {i}", type(m).__name__, "IsotropicMaterial")
        x = [(v if by == "wavelength" else E(v), w) for v, w in sorted(zip(rows, y), key=lambda r: r[0])]
        for k, ((x0, y0), (x1, y1)) in enumerate(zip(x, x[1:])):
            w = y0 + (y1 - y0) * t
            h.eq(f"table {i} part {k}", m.get_tensor(h.arr([x0 + (x1 - x0) * t]))[0, 0, 0], w if kind == "eps" else w * w)


@R.case(kind="n")
@R.case(kind="eps")
def long_table(h, kind):
    """40 rows in increasing, decreasing and mixed order"""
    t = h.real("t", lo=0, hi=1)
    b = [h.cplx(f"y{i}") for i in range(3)]
    n = 40
    x = [300.0 + 12.5 * i for i in range(n)]
    y = [b[i % 3] * (1 + i // 3) for i in range(n)]
    for order in (range(n), range(n)[::-1], [(7 * i + 3) % n for i in range(n)]):
        m = read(h, lambda file: tab(axis(entry(file), "x"), h, "dispersion_table_nk", kind, [x[i] for i in order], [y[i] for i in order]))["entry"]
        q, w = list(x), list(y)
        for k in (0, 1, 17, 38):
            q.append(x[k] + 12.5 * t)
            w.append(y[k] + (y[k + 1] - y[k]) * t)
        got = m.get_tensor(h.arr(q))[:, 0, 0]
        h.eq(f"{order[0]}", got, w if kind == "eps" else [v * v for v in w])


@R.case(rep="n")
@R.case(rep="eps")
def long_sums(h, rep):
    """a dozen dispersions of an axis, and a dozen repeated parameters of a dispersion"""
    l = h.real("l", positive=True, sample=(310.0, 790.0))
    h.assume(l >= 300)
    h.assume(l <= 800)
    a = [h.real(f"a{i}", positive=True, sample=(0.5, 2.0)) for i in range(12)]

    def build(file):
        g = axis(entry(file), "x")
        for i in range(12):
            if i == 4:
                tab(g, h, f"d{i}", rep, (300.0, 800.0), [a[i], a[i]])
            else:
                func(g, h, f"d{i}", rep, f"{rep} = A*lambda**{i % 3}", {"A": a[i]})

    m = read(h, build)["entry"]
    w = sum(a[i] * (l ** (i % 3) if i != 4 else 1) for i in range(12))
    h.eq("dispersions", m.get_tensor(h.arr([l]))[0, 1, 1], w if rep == "eps" else w * w)
    m = read(h, lambda file: func(axis(entry(file), "x"), h, "f", rep, f"{rep} = sum[P*lambda**Q]", {}, {"P": a, "Q": [h.const(i % 4 - 2) for i in range(12)]}))["entry"]
    w = sum(a[i] * l ** (i % 4 - 2) for i in range(12))
    h.eq("parameters", m.get_tensor(h.arr([l]))[0, 1, 1], w if rep == "eps" else w * w)


@R.case()
def many_entries(h):
    """a file with many materials"""
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(12)]

    def build(file):
        for i in (5, 0, 11, 3, 1, 2, 4, 10, 6, 7, 9, 8):
            g = entry(file, f"entry{i}")
            for j, ax in enumerate("xyz"[:1 + i % 3] if i % 3 != 1 else "xz"):
                func(axis(g, ax), h, "c", "n", "n = V", {"V": n[(i + j) % 12]})

    m = read(h, build)
    h.same("entries", sorted(m), sorted(f"entry{i}" for i in range(12)))
    for i in range(12):
        d = [n[(i + j) % 12] ** 2 for j in range((1, 2, 3)[i % 3])]
        d = [[d[0]] * 3, [d[0], d[0], d[-1]], d][i % 3]
        h.eq(f"tensor {i}", m[f"entry{i}"].get_tensor(h.arr([h.const(500)])), [[[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]])


@R.case(known="F30")
def table_units(h, known):
    """a table whose wavelengths are given in micrometres"""
    y = [h.cplx("y0"), h.cplx("y1")]

    def build(file):
        e = entry(file)
        tab(axis(e, "x"), h, "t", "n", (0.3, 0.5), y)
        e["dispersion_x/t/wavelength"].attrs["units"] = "micrometer"

    m = read(h, build)["entry"]
    try:
        got = m.get_tensor(h.arr([300.0, 500.0]))
    except ValueError:
        h.true("micrometre table at 300 nm", False)
        return
    h.eq("micrometre table values", [got[0, 0, 0], got[1, 0, 0]], [y[0] * y[0], y[1] * y[1]])


@R.case(axes="x")
@R.case(axes="xz")
@R.case(axes="xyz")
def axes(h, axes):
    """one tensor element per axis, in a file with several materials"""
    l = h.real("l", positive=True, sample=(300.0, 800.0))
    n = {(e, a): h.real(f"n{e}{a}", positive=True, sample=(1.0, 3.0)) for e in ("entry", "other") for a in "xyz"}

    def build(file):
        for e, ax in (("entry", axes), ("other", "xz" if axes == "x" else "x")):
            g = entry(file, e)
            for a in reversed(ax):
                func(axis(g, a), h, "const", "n" if a == "x" else "eps", ("n" if a == "x" else "eps") + " = V", {"V": n[e, a]})

    m = read(h, build)
    h.same("entries", sorted(m), ["entry", "other"])
    for e, ax in (("entry", axes), ("other", "xz" if axes == "x" else "x")):
        t = m[e].get_tensor(h.arr([l]))
        v = {a: n[e, a] ** 2 if a == "x" else n[e, a] for a in ax}
        x = v["x"]
        d = [x, v.get("y", x), v.get("z", x)]
        h.same(f"{e} type", type(m[e]).__name__, {1: "IsotropicMaterial", 2: "UniaxialMaterial", 3: "BiaxialMaterial"}[len(ax)])
        h.eq(f"{e} tensor", t, [[[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]])


@R.case(rep="n")
@R.case(rep="eps")
def sums(h, rep):
    """several dispersions of an axis add up, tables included, in any order of names"""
    t = h.real("t", lo=0, hi=1, sample=(0.1, 0.9))
    l = 300 + 200 * t
    y = [h.cplx("y0"), h.cplx("y1")]
    a, b, c = (h.real(k, positive=True, sample=(0.5, 2.0)) for k in "abc")
    parts = {
        "table": (lambda g, name: tab(g, h, name, rep, (300.0, 500.0), y), y[0] + (y[1] - y[0]) * t),
        "first": (lambda g, name: func(g, h, name, rep, f"{rep} = A*lambda", {"A": a}), a * l),
        "second": (lambda g, name: func(g, h, name, rep, f"{rep} = sum[B*lambda**2]", {}, {"B": [b, c]}), (b + c) * l * l),
    }
    for order in (("table", "first"), ("first", "table"), ("first", "second"), ("table", "first", "second"), ("first", "second", "table"), ("second", "table", "first")):
        def build(file):
            g = axis(entry(file), "x")
            for i, k in enumerate(order):
                parts[k][0](g, f"d{i}")

        m = read(h, build)["entry"]
        w = sum(parts[k][1] for k in order)
        h.eq(f"{order}", m.get_tensor(h.arr([l]))[0, 1, 1], w if rep == "eps" else w * w)


@R.case()
def rejected(h):
    v = h.real("v", positive=True)
    C = ("n = V", {"V": v})

    def bad(name, exc, change, ax="x"):
        def build(file):
            e = entry(file)
            g = axis(e, ax)
            func(g, h, "f", "n", *C)
            change(e, g)

        h.raises(name, exc, lambda: read(h, build))

    def rep(e, g):
        del g["f/representation"]
        g["f/representation"] = text("chi")

    def mismatch(e, g):
        del g["f/representation"]
        g["f/representation"] = text("eps")

    def energy(e, g):
        g["f/energy_identifier"] = text("E")

    def empty(e, g):
        tab(g, h, "t", "n", [], [])

    def noaxis(e, g):
        tab(g, h, "t", "n", [300.0, 400.0], [v, v])
        del g["t/wavelength"]

    def novalues(e, g):
        tab(g, h, "t", "n", [300.0, 400.0], [v, v])
        del g["t/refractive_index"]

    def lengths(e, g):
        tab(g, h, "t", "n", [300.0, 400.0, 500.0], [v, v])

    def lengths_eps(e, g):
        del g["f"]
        tab(g, h, "t", "eps", [300.0, 400.0, 500.0], [v, v])

    bad("only z", ValueError, lambda e, g: None, "z")
    bad("representation", ValueError, rep)
    bad("formula of another representation", ValueError, mismatch)
    bad("energy", NotImplementedError, energy)
    I = h.mod("elli.dispersions.base_dispersion").InvalidParameters
    bad("empty table", I, empty)
    bad("no axis", ValueError, noaxis)
    bad("no values", ValueError, novalues)
    bad("lengths", I, lengths)
    bad("lengths eps", I, lengths_eps)
