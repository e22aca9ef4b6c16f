"""C34 Measurement-file rows are recognised and scaled correctly."""
import logging
import os
import shutil
import tempfile

import pandas as pd

from symx.harness import Registry

R = Registry()
BOUNDS = ("every ASCII text of the row formats, of any length (z3 string theory), and every text that is none of them; files of up to 4 (and of 100 and 150) rows with symbolic psi and delta of either sign; "
          "every wavelength under 15 unit names")
OUTSIDE = "non-ASCII digits and blanks; numbers with exponents; a negative last error column in WVASE files (the format has none); encodings"
ASSUMPTIONS = ["re.search, match and fullmatch decide membership in the regular language of their expression (translated to z3 from Python's own parse of it)",
               "a numeral in a file stands for the symbolic number wherever the code turns it into a number"]

NUM = r"-?\d+\.\d+"
SP = r"[ \t]+"
W_NUM = r"-?(\d+\.\d*|\.\d+)"
W_ROW = rf"{W_NUM}({SP}{W_NUM}){{4}}{SP}(\d+\.\d*|\.\d+)\n?"
CE_ROW = rf"[a-zA-Z]+({SP}{NUM}){{6}}\n?"
# generous: anything a reader could take for such a row
NUMLIKE = r"[-+.\deE]*"
W_LIKE = rf"\s*{NUMLIKE}(\s+{NUMLIKE}){{5}}\s*"
CE_LIKE = rf"\s*\S+(\s+{NUMLIKE}){{6}}\s*"
TRIG = r"[a-zA-Z]+[ \t]+TRIG[ \t]*\n?"


def mod(h):
    return h.mod("elli.importer.woollam")


@R.case(form="wvase")
@R.case(form="complete_ease")
@R.case(form="tan_cos")
def rows(h, form):
    m = mod(h)
    if not all(hasattr(m, n) for n in ("_is_wvase_tabular", "_is_complete_ease_tabular", "_is_tan_cos_format")):
        return  # internal helpers; the file cases decide the readers as a whole
    w, c, t = m._is_wvase_tabular, m._is_complete_ease_tabular, m._is_tan_cos_format
    if form == "wvase":
        s = (W_ROW, "300.0\t65.00\t-12.1\t1.5\t-0.3\t3.4\n")
        h.text("WVASE row", lambda line: w(line), True, {"line": s})
        h.text("not another format", lambda line: c(line) or t(line), False, {"line": s})
        h.text("short row", lambda line: w(line), False, {"line": (rf"({W_NUM}{SP}){{0,4}}{W_NUM}\n?", "300.0\t65.00\n")})
        h.text("long row", lambda line: w(line), False, {"line": (rf"({W_NUM}{SP}){{6,9}}{W_NUM}\n?", "300.0\t65.00\t1.0\t2.0\t3.0\t4.0\t5.0\n")})
        h.text("other line", lambda line: w(line), False, {"line": (("and", r"[^\n]*\n?", ("not", W_LIKE)), "Original[a.dat]\n")})
    elif form == "complete_ease":
        s = (CE_ROW, "E\t1930.0\t50.0\t40.1\t-142.5\t0.1\t0.2\n")
        h.text("CompleteEASE row", lambda line: c(line), True, {"line": s})
        h.text("not another format", lambda line: w(line) or t(line), False, {"line": s})
        h.text("short row", lambda line: c(line), False, {"line": (rf"[a-zA-Z]+({SP}{NUM}){{0,5}}\n?", "E\t300.0\t65.00\n")})
        h.text("long row", lambda line: c(line), False, {"line": (rf"[a-zA-Z]+({SP}{NUM}){{7,9}}\n?", "E\t1.0\t2.0\t3.0\t4.0\t5.0\t6.0\t7.0\n")})
        h.text("other line", lambda line: c(line), False, {"line": (("and", r"[^\n]*\n?", ("not", CE_LIKE)), "VASEmethod[Type=4]\n")})
    else:
        s = (TRIG, "nm  TRIG\n")
        h.text("tan/cos header", lambda line: t(line), True, {"line": s})
        h.text("not a row", lambda line: w(line) or c(line), False, {"line": s})
        h.text("other line", lambda line: t(line), False, {"line": (("and", r"[^\n]*\n?", ("not", r"[^\n]*TRIG[^\n]*\n?")), "nm\n")})


@R.case()
def header(h):
    """units, comments and titles without columns of numbers are neither"""
    m = mod(h)
    if not all(hasattr(m, n) for n in ("_is_wvase_tabular", "_is_complete_ease_tabular")):
        return
    f = lambda line: m._is_wvase_tabular(line) or m._is_complete_ease_tabular(line)
    h.text("unit", f, False, {"line": (r"[a-zA-Z]+\n?", "Angstroms\n")})
    h.text("title", f, False, {"line": (r"[a-zA-Z0-9 ,/]*[a-zA-Z]\n?", "2nm SiO2 on Si on RC2\n")})
    h.text("method", f, False, {"line": (r"[a-zA-Z]+\[[^\n]*\]\n?", "VASEmethod[EllipsometerType=4 , CompleteEASE=6.37, AcqTime=15.000]\n")})
    h.text("depolarisation", lambda line: m._is_wvase_tabular(line) or m._is_complete_ease_tabular(line), False, {"line": (rf"[a-zA-Z]+({SP}{NUM}){{4}}\n?", "dpolE\t300.0\t55.0\t1.3\t0.9\n")})


@R.case()
def numbers(h):
    m = mod(h)
    h.text("decimal", lambda s: m.is_float(s), True, {"s": (r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?", "-12.5")})
    h.text("label", lambda s: m.is_float(s), False, {"s": (r"[^\d]*", "dpolE")})
    v = h.real("v", lo=-1000, hi=1000)
    h.true("number", m.is_float(v))
    h.true("integer", m.is_float(h.integer("i", -5, 5)))
    for other in (None, [], (1.0,), {}):
        h.true(f"{other}", not m.is_float(other))


UNITS = {"nm": 1, "Angstroms": 0.1, "angstrom": 0.1, "um": 1000, "micrometer": 1000, "micron": 1000, "m": 1e9, "mm": 1e6, "cm": 1e7, "pm": 0.001, "nanometer": 1, "Mm": None, "µm": 1000, "km": 1e12, "Å": 0.1}
OTHER = ("foo", "kg", "")


@R.case(n=1)
@R.case(n=3)
def scale(h, n):
    m = mod(h)
    logging.disable(logging.CRITICAL)
    lam = [h.real(f"l{i}", lo=1 + i, hi=1.9 + i) for i in range(n)]
    val = [[h.real(f"v{i}{j}") for j in (0, 1)] for i in range(2 * n)]

    def table():
        idx = pd.MultiIndex(levels=[[50.0, 70.0], pd.Index(lam)], codes=[[0] * n + [1] * n, list(range(n)) * 2], names=["Angle of Incidence", "Wavelength"])
        return pd.DataFrame({"Ψ": [v[0] for v in val], "Δ": [v[1] for v in val]}, index=idx)

    def check(name, t, f):
        if f is None:
            # the factor of Mm comes out of pint with a rounding error
            for k, (i, x) in enumerate(zip(t.index, lam * 2)):
                h.le(f"{name} wavelength {k} from", 1e15 * (1 - 1e-12) * x, i[1])
                h.le(f"{name} wavelength {k} to", i[1], 1e15 * (1 + 1e-12) * x)
        else:
            h.eq(f"{name} wavelengths", [i[1] for i in t.index], [f * x for x in lam] * 2)
        h.same(f"{name} angles", [i[0] for i in t.index], [50.0] * n + [70.0] * n)
        h.eq(f"{name} values", [x for r in t.to_numpy() for x in r], [x for r in val for x in r])
        h.same(f"{name} names", list(t.index.names) + list(t.columns), ["Angle of Incidence", "Wavelength", "Ψ", "Δ"])

    for unit, f in UNITS.items():
        for u in (unit, unit + "\n"):
            check(repr(u), m.scale_to_nm(u, table()), f and h.const(f))
    for u in OTHER:
        check(u, m.scale_to_nm(u, table()), 1)


def text(h, head, unit, rows, form, trailer):
    out = [*head, unit]
    for i, (a, l, p, d) in enumerate(rows):
        # CompleteEASE writes negative errors as well
        e = ("-0.370710", "0.0") if form == "complete_ease" and i % 2 == 0 else ("-0.370710", "3.460240") if i % 3 == 1 else ("0.000000", "3.460240")
        cols = [f"{l:.6f}", f"{a:.6f}", h.numeral(p), h.numeral(d), *e]
        out.append("\t".join((["E"] if form == "complete_ease" else []) + cols))
    return "\n".join(out + trailer) + "\n"


HEADS = (["title 12/100", "VASEmethod[EllipsometerType=5, WVASE=3.688]", "Original[a_1.dat]"], ["2nm SiO2"], [])
TRAIL = {"wvase": ["dpolE\t300.000000\t55.000000\t1.30314\t0.978814", "dpolE\t400.000000\t55.000000\t1.30314\t0.978814"],
         "complete_ease": ["uR\t300.000000\t55.000000\tinf\t1.000000", "dpolE\t300.000000\t55.000000\t0.1\t0.2"]}


@R.case(form="wvase", unit="nm", f=1, lam=(300.0, 400.0), aoi=(65.0,))
@R.case(form="wvase", unit="nm", f=1, lam=(400.0, 300.0), aoi=(65.0, 55.5))
@R.case(form="wvase", unit="Angstroms", f=0.1, lam=(3000.0, 4000.0), aoi=(50.0, 60.0))
@R.case(form="wvase", unit="um", f=1000, lam=(0.25, 0.5, 0.75), aoi=(65.0,), quick=False)
@R.case(form="complete_ease", unit="Angstroms", f=0.1, lam=(1930.0, 1940.0), aoi=(50.0, 55.0))
@R.case(form="complete_ease", unit="nm", f=1, lam=(300.0, 500.0, 400.0), aoi=(70.0,))
@R.case(form="wvase", unit="nm", f=1, lam="50 190 7.5", aoi=(65.0, 75.0))
@R.case(form="complete_ease", unit="nm", f=1, lam="50 1700 -7.5", aoi=(45.0, 90.0, 0.0))
def files(h, form, unit, f, lam, aoi):
    """every row of the file, and only those, with its angle and wavelength"""
    m = mod(h)
    if isinstance(lam, str):
        n, start, step = (float(x) for x in lam.split())
        lam = [start + step * i for i in range(int(n))]
    base = {(i, j): (h.real(f"p{i}{j}", lo=0, hi=90), h.real(f"d{i}{j}", lo=-180, hi=360)) for i in range(len(aoi)) for j in range(min(len(lam), 4))}
    val = {(a, l): (base[i, j % 4][0] / (1 + j // 4), base[i, j % 4][1] / (1 + j // 4)) for i, a in enumerate(aoi) for j, l in enumerate(lam)}
    rows = [(a, l, *val[a, l]) for l in lam for a in aoi] if form == "wvase" else [(a, l, *val[a, l]) for a in aoi for l in lam]
    for k, head in enumerate(HEADS):
        for trailer in ([], TRAIL[form]):
            d = tempfile.mkdtemp()
            try:
                p = os.path.join(d, "a.dat")
                with open(p, "w", encoding="ascii") as o:
                    o.write(text(h, head, unit, rows, form, trailer))
                t = m.read_woollam_psi_delta(p)
            finally:
                shutil.rmtree(d)
            name = f"head {k} trailer {len(trailer)}"
            h.same(f"{name} columns", list(t.columns) + list(t.index.names), ["Ψ", "Δ", "Angle of Incidence", "Wavelength"])
            h.true(f"{name} rows", len(t) == len(val))
            seen = set()
            for q in range(len(t)):
                a, l = t.index[q]
                key = [(x, y) for x, y in val if abs(float(a) - x) < 1e-9 and abs(float(l) - y * f) < 1e-9 * y * f]
                h.true(f"{name} row {q} is in the file once", len(key) == 1 and key[0] not in seen)
                seen.update(key)
                for x in key:
                    h.eq(f"{name} row {q}", [t.iloc[q, 0], t.iloc[q, 1]], list(val[x]))


@R.case(form="wvase")
@R.case(form="complete_ease")
def rho_file(h, form):
    m = mod(h)
    ps, de = h.real("p", positive=True, sample=(0.2, 1.5)), h.angle("d", sample=(-3.0, 3.0))
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "a.dat")
        with open(p, "w", encoding="ascii") as o:
            o.write(text(h, HEADS[0], "nm", [(65.0, 300.0, h.deg(h.np.arctan(ps)), h.deg(de))], form, []))
        t = m.read_woollam_rho(p)
    finally:
        shutil.rmtree(d)
    h.eq("rho", list(t), [ps * h.exp(-1j * de)])
    h.same("index", [float(x) for x in t.index[0]], [65.0, 300.0])


@R.case()
def rejected(h):
    m = mod(h)
    d = tempfile.mkdtemp()
    try:
        for name, body, exc in (("tan/cos", "nm  TRIG\n300 70  .245    .123\n", NotImplementedError), ("no rows", "title\nnm\nsomething else\n", ValueError), ("short rows", "nm\n300.0\t65.0\t1.0\t2.0\n", ValueError)):
            p = os.path.join(d, "a.dat")
            with open(p, "w", encoding="ascii") as o:
                o.write(body)
            h.raises(name, exc, lambda: m.read_woollam_psi_delta(p))
            h.raises(f"{name} rho", exc, lambda: m.read_woollam_rho(p))
    finally:
        shutil.rmtree(d)
