"""C30 Refractive-index-database formulas evaluate their published equations."""
import os
import pathlib
import shutil
import tempfile

from symx.harness import Registry

R = Registry()
BOUNDS = ("formulas 1-5 with up to 4 terms (thorough: 5; formula 4: 6) and every coefficient symbolic, 8 terms with every strength symbolic, the square root up to 3 terms, exponents from fixed sets of integers and halves, any positive wavelength and arrays of 3 (square roots there where eps > 0); "
          "tables with up to 4 rows of symbolic n and k, all wavelengths between the rows; every combination of a formula with a k table")
OUTSIDE = "the content of the real database (absent in this build); exponents other than the listed ones; the catalogue search; formulas 6-9, which the package does not support"
ASSUMPTIONS = ["a scratch catalogue takes the place of the database folder; a numeral in its files stands for the symbolic number wherever the code turns it into a number"]

CATALOG = """
- SHELF: main
  name: "MAIN - simple inorganic materials"
  content:
    - DIVIDER: "Ag - Silver"
    - BOOK: Ag
      name: "Ag (Silver)"
      content:
        - DIVIDER: "Experimental data"
        - PAGE: Other
          name: "Other and Author 1998: n,k 0.300-2.00 \\u00b5m"
          data: "main/Ag/Other.yml"
    - BOOK: Xx
      name: "Xx"
      content:
        - PAGE: First
          name: "First 1972: n,k 0.188-1.94 \\u00b5m"
          data: "main/Xx/First.yml"
        - DIVIDER: "Models"
        - PAGE: Entry
          name: "Entry et al. 2014: Thin film; n 0.25-1.0 \\u00b5m; 25 C"
          data: "main/Xx/Entry.yml"
        - PAGE: Twice
          name: "unusual name"
          data: "main/Xx/First.yml"
- DIVIDER: "Glasses"
- SHELF: glass
  name: "GLASS"
  content:
    - BOOK: Xx
      name: "Xx glass"
      content:
        - PAGE: Twice
          name: "unusual name"
          data: "main/Xx/First.yml"
"""

OTHER = """REFERENCES: "other reference"
COMMENTS: "other comment"
DATA:
  - type: tabulated nk
    data: |
        0.2 9.0 8.0
        0.9 9.5 8.5
"""


def database(h, entry):
    """an RII object on a scratch database"""
    d = tempfile.mkdtemp()
    try:
        for path, text in (("catalog-nk.yml", CATALOG), ("main/Ag/Other.yml", OTHER), ("main/Xx/First.yml", OTHER), ("main/Xx/Entry.yml", entry)):
            f = os.path.join(d, path if "/" not in path else "data/" + path)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf8") as o:
                o.write(text)
        m = h.mod("elli.database.refractive_index_info")
        m.files = lambda *a: pathlib.Path(d)
        rii = m.RII()
        return d, rii
    except BaseException:
        shutil.rmtree(d)
        raise


def load(h, entry, what="get_dispersion"):
    d, rii = database(h, entry)
    try:
        return getattr(rii, what)("Xx", "Entry")
    finally:
        shutil.rmtree(d)


HEAD = 'REFERENCES: "A. Author, J. Journal 1, 2 (2014)"\nCOMMENTS: "25 C"\nDATA:\n'


def formula_text(h, number, coeffs):
    return f"  - type: formula {number}\n    wavelength_range: 0.25 1.0\n    coefficients: " + " ".join(h.numeral(c) for c in coeffs) + "\n"


def table_text(h, kind, rows):
    return f"  - type: tabulated {kind}\n    data: |\n" + "".join("        " + " ".join(h.numeral(v) for v in r) + "\n" for r in rows)


EXP = [-2, 2, -4, 1, -6, 4, -8, 3]
E4 = [(0, 2, 2, 1), (2, 2, 0, 2), (1, 1, 2, 2)]


FIXED = [0.0625, -0.125, 0.25, -0.28125, 0.3125, 0.09375, 0.15625, -0.1875]


def formula(h, number, terms, lam, fixed=False):
    """coefficients, and eps(lam) (formula 5: n(lam)) with denominators cleared: (value, factor)"""
    c = [h.real("c0", lo=0, hi=4)]
    mu = [x / 1000 for x in lam]
    if number in (1, 2):
        for i in range(terms):
            c += [h.real(f"a{i}", lo=0, hi=3), h.const(FIXED[i]) if fixed else h.real(f"b{i}", lo=-1, hi=1, sample=(0.01, 0.04))]
        pole = [x * x if number == 1 else x for x in c[2::2]]
        out = []
        for m in mu:
            den = [m * m - p for p in pole]
            for q in den:
                h.assume(q * q > 0)
            out.append(1 + c[0] + sum(a * m * m / q for a, q in zip(c[1::2], den)))
        return c, out
    if number in (3, 5):
        for i in range(terms):
            c += [h.real(f"a{i}", lo=-1, hi=1, sample=(0.001, 0.01)), h.const(EXP[i])]
        return c, [c[0] + sum(c[1 + 2 * i] * m ** EXP[i] for i in range(terms)) for m in mu]
    out = [c[0]] * len(mu)
    n = min(terms, 2)
    for i in range(n):
        e1, e2 = E4[(i + terms) % 3][:2], E4[(i + terms) % 3][2:]
        p, q = (e1[0], e2[0])
        a, b = h.real(f"a{i}", lo=0, hi=3), h.real(f"b{i}", lo=0, hi=1, sample=(0.01, 0.1))
        c += [a, h.const(p), b, h.const(2 if i == 0 else 1)]
        r = 2 if i == 0 else 1
        for k, m in enumerate(mu):
            den = m**2 - b**r
            h.assume(den * den > 0)
            out[k] = out[k] + a * m**p / den
    for i in range(terms - n):
        f = h.real(f"f{i}", lo=-1, hi=1, sample=(0.001, 0.01))
        c += [f, h.const(EXP[i])]
        out = [o + f * m ** EXP[i] for o, m in zip(out, mu)]
    return c, out


def wavelengths(h, array):
    return [h.real(f"l{i}", lo=100, hi=5000, sample=(300, 900)) for i in range(int(array) or 1)]


def cases(fn):
    for number in range(1, 6):
        for terms, array in ((1, 0), (2, 3), (3, 0), (4, 0)) + (((6, 0),) if number == 4 else ()):
            fn = R.case(number=number, terms=terms, array=array)(fn)
        fn = R.case(number=number, terms=8, array=0, fixed=number < 3)(fn)
        for terms, array in ((5, 0), (6, 3)):
            fn = R.case(number=number, terms=terms, array=array, fixed=number < 3 and terms > 5, quick=False)(fn)
    return fn


@cases
def formulas(h, number, terms, array, fixed=False):
    lam = wavelengths(h, array)
    c, want = formula(h, number, terms, lam, fixed)
    d = load(h, HEAD + formula_text(h, number, c))
    at = h.np.array(lam) if array else lam[0]
    got = d.get_refractive_index(at) if number == 5 else d.get_dielectric(at)
    h.eq("published equation", list(got) if array else [got], want)
    if number == 5:
        got = d.get_dielectric(at)
        h.eq("squared", list(got) if array else [got], [w * w for w in want])
    elif terms < 4:
        for w in want:
            # both signs at one wavelength
            h.assume(w > 0 if array else w * w > 0)
        got = d.get_refractive_index(at)
        h.eq("root", [g * g for g in got] if array else [got * got], want)


@R.case(number=1)
@R.case(number=2)
@R.case(number=3)
@R.case(number=4)
@R.case(number=5)
def formula_with_k(h, number):
    """refractive index of the formula, extinction of the table, in any order of the two"""
    rows = [(h.const(x), h.real(f"k{i}", lo=0, hi=2)) for i, x in enumerate((0.25, 0.5, 1))]
    t = h.real("t", lo=0, hi=1)
    for part, (lo, hi) in enumerate(((250, 500), (500, 1000))):
        lam = lo + (hi - lo) * t
        k = rows[part][1] + (rows[part + 1][1] - rows[part][1]) * t
        if part == 0:
            c, want = formula(h, number, 1, [lam])
        else:
            break
        a, b = formula_text(h, number, c), table_text(h, "k", rows)
        for order, text in (("formula first", a + b), ("table first", b + a)):
            d = load(h, HEAD + text)
            n = d.get_refractive_index(lam) - 1j * k
            if number == 5:
                h.eq(order, n, want[0])
            else:
                h.assume(want[0] > 0)
                h.eq(order, n * n, want[0])
                h.le(f"{order} positive", 0, h.np.real(n))


@R.case(kind="nk", n=2)
@R.case(kind="nk", n=4)
@R.case(kind="n", n=3)
@R.case(kind="k", n=3)
@R.case(kind="n and k", n=3)
@R.case(kind="k and n", n=2)
def tables(h, kind, n):
    lam = [0.25, 0.5, 1, 2.5][:n]
    nk = [(h.real(f"n{i}", lo=0, hi=4), h.real(f"k{i}", lo=0, hi=2)) for i in range(n)]
    tn = table_text(h, "n", [(h.const(x), a) for x, (a, _) in zip(lam, nk)])
    tk = table_text(h, "k", [(h.const(x), b) for x, (_, b) in zip(lam, nk)])
    text = {"nk": table_text(h, "nk", [(h.const(x), a, b) for x, (a, b) in zip(lam, nk)]), "n": tn, "k": tk, "n and k": tn + tk, "k and n": tk + tn}[kind]
    d = load(h, HEAD + text)
    val = [(a if "n" in kind else 0) + (1j * b if "k" in kind else 0) for a, b in nk]
    at = [1000 * x for x in lam]
    h.eq("at the rows", [d.get_refractive_index(x) for x in at], val)
    h.eq("array", list(d.get_refractive_index(h.np.array(at))), val)
    t = h.real("t", lo=0, hi=1)
    for i in range(n - 1):
        h.eq(f"between {i}", d.get_refractive_index(at[i] + (at[i + 1] - at[i]) * t), val[i] + (val[i + 1] - val[i]) * t)
    h.eq("permittivity", [d.get_dielectric(x) for x in at], [v * v for v in val])
    e = h.real("e", positive=True, sample=(1, 50))
    h.raises("below", ValueError, lambda: d.get_refractive_index(at[0] - e))
    h.raises("above", ValueError, lambda: d.get_refractive_index(at[-1] + e))


@R.case(number=2)
@R.case(number=5)
def material(h, number):
    lam = wavelengths(h, False)
    c, want = formula(h, number, 2, lam)
    m = load(h, HEAD + formula_text(h, number, c), "get_mat")
    t = m.get_tensor(h.np.array(lam))
    e = want[0] * want[0] if number == 5 else want[0]
    h.eq("tensor", t.reshape(-1), [e, 0, 0, 0, e, 0, 0, 0, e])


@R.case()
def rejected(h):
    c = [h.real(f"c{i}", lo=0, hi=3) for i in range(7)]
    for number in (6, 7, 8, 9):
        h.raises(f"formula {number}", ValueError, lambda: load(h, HEAD + formula_text(h, number, c)))
        h.raises(f"formula {number} as material", ValueError, lambda: load(h, HEAD + formula_text(h, number, c), "get_mat"))
        h.raises(f"formula {number} after a table", ValueError, lambda: load(h, HEAD + table_text(h, "k", [(0.2, 1), (0.9, 2)]) + formula_text(h, number, c)))
    for other in ("tabulated n2", "formula 10", "formula", "tabulated", "model"):
        h.raises(other, ValueError, lambda: load(h, HEAD + formula_text(h, 1, c).replace("formula 1", other)))
    d, rii = database(h, HEAD + formula_text(h, 1, c))
    try:
        for book, page in (("foo", "bar"), ("Xx", "Other"), ("Ag", "Entry"), ("Entry", "Xx"), ("xx", "Entry"), ("Xx", "entry"), ("Xx", ""), ("", "Entry"), ("X", "Entry"), ("Xx", "Twice")):
            for fn in (rii.get_dispersion, rii.get_mat, rii.get_reference, rii.get_comment):
                h.raises(f"{book} {page}", ValueError, lambda: fn(book, page))
        h.same("reference", rii.get_reference("Xx", "Entry"), "A. Author, J. Journal 1, 2 (2014)")
        h.same("comment", rii.get_comment("Xx", "Entry"), "25 C")
        h.same("other reference", rii.get_reference("Ag", "Other"), "other reference")
        h.eq("other entry", rii.get_dispersion("Ag", "Other").get_refractive_index(h.np.array([200.0, 900.0])), [9 + 8j, 9.5 + 8.5j])
        r = rii.catalog[(rii.catalog["book"] == "Xx") & (rii.catalog["page"] == "Entry")].iloc[0]
        h.same("catalogue row", [str(r["shelf"]), str(r["author"]), int(r["year"]), str(r["comment"]), float(r["lower_range"]), float(r["upper_range"])], ["main", "Entry et al.", 2014, "Thin film 25 C", 250.0, 1000.0])
        h.same("pages", len(rii.catalog), 5)
    finally:
        shutil.rmtree(d)
