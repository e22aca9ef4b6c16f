"""C35 Measurement files of SpectraRay, Accurion and NeXus are read without loss or mix-up."""
import os
import shutil
import tempfile

import h5py
import numpy

from symx.harness import Registry

R = Registry()
BOUNDS = ("files of up to 3 angles and 3 wavelengths in any order, every symbolic psi, delta and Mueller element; files of 60 to 180 rows with all values different (from fewer symbols); several separators, decimal marks, column orders, headers, "
          "group names and both NeXus application definitions")
OUTSIDE = "files of more than 180 rows; encodings; repeated angles; numbers of the index other than the listed ones; NeXus files with further data types"
ASSUMPTIONS = ["a numeral in a file stands for the symbolic number wherever the code turns it into a number"]


def scratch(h, write, read, name="a.dat"):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, name)
        write(p)
        return read(p)
    finally:
        shutil.rmtree(d)


def put(text, p, encoding="ascii"):
    with open(p, "w", encoding=encoding) as o:
        o.write(text)


def table(h, name, t, want, cols=("Ψ", "Δ"), turn=True):
    """want: {(angle, wavelength): values}"""
    h.same(f"{name} columns", list(t.columns), list(cols))
    h.same(f"{name} index names", list(t.index.names), ["Angle of Incidence", "Wavelength"])
    h.true(f"{name} number of rows", len(t) == len(want))
    seen = set()
    for q in range(len(t)):
        a, l = t.index[q]
        key = [(x, y) for x, y in want if abs(float(a) - x) < 1e-9 and abs(float(l) - y) < 1e-9 * y]
        h.true(f"{name} row {q} is in the file once", len(key) == 1 and key[0] not in seen)
        seen.update(key)
        for k in key:
            p, d = want[k]
            h.eq(f"{name} psi {q}", t.iloc[q, 0], p)
            g = t.iloc[q, 1]
            if not turn:
                h.eq(f"{name} delta {q}", g, d)
                continue
            h.le(f"{name} delta {q} from -180", -180, g)
            h.le(f"{name} delta {q} to 180", g, 180)
            i = (g - d) / 360
            h.true(f"{name} delta {q} by whole turns", sum_or(h, i))


def sum_or(h, i):
    r = None
    for k in (-2, -1, 0, 1, 2):
        c = h.np.abs(i - k) < 1e-12 if not h.sym else i == k
        r = c if r is None else h.np.logical_or(r, c)
    return r


def values(h, aoi, lam, lo=-540, hi=720):
    return {(a, l): (h.real(f"p{i}{j}", lo=0, hi=90), h.real(f"d{i}{j}", lo=lo, hi=hi)) for i, a in enumerate(aoi) for j, l in enumerate(lam)}


def spread(lam):
    """wavelengths of a long file"""
    if not isinstance(lam, str):
        return lam
    n, start, step = (float(x) for x in lam.split())
    return tuple(start + step * i for i in range(int(n)))


def many_values(h, aoi, lam):
    """values of a long file: all different, from a few symbols"""
    n = 3
    b = {(i, j): (h.real(f"p{i}{j}", lo=0, hi=90), h.real(f"d{i}{j}", lo=-150, hi=150)) for i in range(len(aoi)) for j in range(n)}
    return {(a, l): (b[i, j % n][0] / (1 + j // n), b[i, j % n][1] + h.const(j // n) / 64) for i, a in enumerate(aoi) for j, l in enumerate(lam)}


# ---------------------------------------------------------------- SpectraRay
def num(h, x, decimal):
    return (h.numeral(x) if not isinstance(x, str) else x).replace(".", decimal)


def spectraray(h, want, aoi, lam, gap, decimal, tail):
    out = [gap.join([";", "WAVELENGTH"] + [num(h, f"{a:.5f}", decimal) for a in aoi for _ in (0, 1)]) + tail]
    for l in lam:
        out.append(gap.join([num(h, f"{l:.5f}", decimal)] + [num(h, v, decimal) for a in aoi for v in want[a, l]]) + tail)
    return "\n".join(out) + "\n"


@R.case(aoi=(50.2, 60.2), lam=(190.13558, 191.5))
@R.case(aoi=(70.0, 50.0), lam=(400.0, 300.0))
@R.case(aoi=(65.0,), lam=(500.0, 300.0, 400.0))
@R.case(aoi=(70.0, 50.0, 60.0), lam=(400.0,))
@R.case(aoi=(45.0, 50.0, 55.0, 60.0, 65.0, 70.0), lam="30 190.5 7.25")
@R.case(aoi=(65.5,), lam="60 1000.125 -5.5")
def spectraray_psi_delta(h, aoi, lam):
    long, lam = isinstance(lam, str), spread(lam)
    want = many_values(h, aoi, lam) if long else values(h, aoi, lam)
    for gap, tail, decimal, args in ((" ", " ", ".", ()), ("\t", "", ",", ("\t", ","))) if long else ((" ", " ", ".", ()), ("\t", "", ".", ("\t",)), ("\t", "\t", ",", ("\t", ",")), (" ", "", ",", (r"\s+", ","))):
        t = scratch(h, lambda p: put(spectraray(h, want, aoi, lam, gap, decimal, tail), p), lambda p: h.elli.read_spectraray_psi_delta(p, *args))
        table(h, f"{gap!r}{tail!r}{decimal}", t, want)


@R.case(decimal=".")
@R.case(decimal=",")
def spectraray_rho(h, decimal):
    aoi, lam = (70.0, 50.0), (400.0, 300.0)
    tan = {k: (h.real(f"t{i}", positive=True, sample=(0.2, 1.5)), h.angle(f"a{i}", sample=(-3.0, 3.0))) for i, k in enumerate((a, l) for a in aoi for l in lam)}
    want = {k: (h.deg(h.np.arctan(t)), h.deg(a)) for k, (t, a) in tan.items()}
    t = scratch(h, lambda p: put(spectraray(h, want, aoi, lam, " ", decimal, " "), p), lambda p: h.elli.read_spectraray_rho(p, decimal=decimal))
    h.true("rows", len(t) == len(want))
    for (a, l), (s, d) in tan.items():
        h.eq(f"rho {a} {l}", t.loc[(a, l)], s * h.exp(-1j * d))


@R.case(n=1)
@R.case(n=3)
def spectraray_mueller(h, n):
    lam = (400.0, 300.0, 350.5)[:n]
    m = [[h.real(f"m{i}{j}", lo=-1, hi=1) for j in range(16)] for i in range(n)]
    for decimal in ".,":
        out = [" ".join([";", "WAVELENGTH"] + ["70.20000".replace(".", decimal)] * 16) + " "]
        out += [" ".join([num(h, f"{l:.5f}", decimal)] + [num(h, v, decimal) for v in r]) + " " for l, r in zip(lam, m)]
        t = scratch(h, lambda p: put("\n".join(out) + "\n", p), lambda p: h.elli.read_spectraray_mmatrix(p, decimal=decimal))
        h.same("names", list(t.columns) + [t.index.name], [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)] + ["Wavelength"])
        h.true("rows", len(t) == n)
        for l, r in zip(lam, m):
            k = [q for q in range(len(t)) if abs(float(t.index[q]) - l) < 1e-9]
            h.true(f"{l} once", len(k) == 1)
            for q in k:
                h.eq(f"elements at {l}", [t.iloc[q, j] for j in range(16)], r)


# ---------------------------------------------------------------- Accurion
COLS = {"#ROIidx": ("-", "0"), "AOI": ("deg", None), "Lambda": ("nm", None), "Bandwidth": ("nm", "6.1"), "ExposureTime": ("us", "115908"), "Delta": ("deg", None), "Psi": ("deg", None)}
ORDERS = (("#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "Delta", "Psi"), ("#ROIidx", "Psi", "Delta", "Lambda", "AOI"), ("Delta", "Lambda", "AOI", "Psi", "ExposureTime"))


def accurion(h, rows, order):
    out = ["\t".join(order), "#-" + "\t".join(COLS[c][0] for c in order)[1:] if order[0] == "#ROIidx" else "\t".join(COLS[c][0] for c in order)]
    for a, l, p, d in rows:
        val = {"AOI": f"{a:.3f}", "Lambda": f"{l:.1f}", "Psi": h.numeral(p), "Delta": h.numeral(d)}
        out.append("\t".join(val.get(c, COLS[c][1]) for c in order))
    return "\n".join(out) + "\n"


@R.case(order=0, aoi=(40.0, 50.0), lam=(365.0, 370.0))
@R.case(order=1, aoi=(60.0, 50.0), lam=(400.0, 370.5))
@R.case(order=2, aoi=(60.0,), lam=(400.0, 300.0, 500.0))
@R.case(order=0, aoi=(45.0, 50.0, 60.0, 55.0), lam="30 900 -15.5")
def accurion_psi_delta(h, order, aoi, lam):
    long, lam = isinstance(lam, str), spread(lam)
    want = many_values(h, aoi, lam) if long else values(h, aoi, lam)
    for rows in ([(a, l) for a in aoi for l in lam], [(a, l) for l in lam for a in aoi]):
        t = scratch(h, lambda p: put(accurion(h, [(*k, *want[k]) for k in rows], ORDERS[order]), p), lambda p: h.elli.read_accurion_psi_delta(p))
        table(h, f"{rows[1]}", t[["Ψ", "Δ"]], want)


@R.case(known="F28")
def accurion_two_regions(h, known):
    """two regions of interest: what is returned for an angle and wavelength lies between the values measured there"""
    p1, p2 = h.real("p1", lo=20, hi=40), h.real("p2", lo=20, hi=40)
    h.assume(p1 < p2)
    d = h.real("d", lo=0, hi=90)
    t = scratch(h, lambda p: put(accurion(h, [(50.0, 400.0, p1, d), (50.0, 400.0, p2, d)], ORDERS[0]), p), lambda p: h.elli.read_accurion_psi_delta(p))
    for q in range(len(t)):
        g = t["Ψ"].iloc[q]
        h.le("not below", p1, g)
        h.le("not above", g, p2)


# ---------------------------------------------------------------- NeXus
def text(s):
    return numpy.bytes_(s.encode())


def legacy(h, want, aoi, lam, names=("entry", "sample", "instrument"), kind="psi/delta"):
    e, s, i = names

    def write(p):
        with h5py.File(p, "w") as f:
            f[f"{e}/{s}/data_type"] = text(kind)
            f[f"{e}/{i}/angle_of_incidence"] = numpy.array(aoi)
            f[f"{e}/{i}/spectrometer/wavelength"] = numpy.array([l * 10 for l in lam])
            f[f"{e}/{s}/measured_data"] = numpy.array([[[[[float(h.numeral(want[a, l][k])) for l in lam] for k in (0, 1)] for a in aoi]]])

    return write


def nx_opt(h, want, aoi, lam, names=("entry", "sample", "instrument"), kind="Psi/Delta"):
    e, _, i = names

    def write(p):
        with h5py.File(p, "w") as f:
            f[f"{e}/data_collection/data_type"] = text(kind)
            f[f"{e}/{i}/angle_of_incidence"] = numpy.array(aoi)
            f[f"{e}/data_collection/wavelength_spectrum"] = numpy.array([l * 10 for l in lam])
            f[f"{e}/data_collection/measured_data"] = numpy.array([[[float(h.numeral(want[a, l][k])) for l in lam] for k in (0, 1)] for a in aoi])

    return write


FORMS = {"legacy": legacy, "nx_opt": nx_opt}


@R.case(form="legacy")
@R.case(form="nx_opt")
def nexus_psi_delta(h, form):
    for i, (aoi, lam) in enumerate((((50, 60, 70), (300.0, 400.0)), ((70.0, 50.0), (400.0, 350.0, 300.0)), ((65.5,), (300.0, 500.0, 400.0)), ((70, 60), (400.0,)))):
        want = {(a, l): (h.real(f"p{i}{j}{k}", lo=0, hi=90), h.real(f"d{i}{j}{k}", lo=-180, hi=360)) for j, a in enumerate(aoi) for k, l in enumerate(lam)}
        t = scratch(h, FORMS[form](h, want, aoi, lam), lambda p: h.elli.read_nexus_psi_delta(p), "a.nxs")
        table(h, f"{aoi}{lam}", t, want, turn=False)


@R.case(form="legacy")
@R.case(form="nx_opt")
def nexus_long(h, form):
    aoi, lam = (45.0, 50.0, 60.0, 55.0), spread("40 240 12.5")
    want = many_values(h, aoi, lam)
    t = scratch(h, FORMS[form](h, want, aoi, lam), lambda p: h.elli.read_nexus_psi_delta(p), "a.nxs")
    table(h, "long", t, want, turn=False)


@R.case(form="legacy")
@R.case(form="nx_opt")
def nexus_groups(h, form):
    """files with other group names"""
    G = h.mod("elli.importer.nexus").NexusGroupNames
    aoi, lam = (50.0, 70.0), (300.0, 400.0)
    want = values(h, aoi, lam)
    for i, names in enumerate((("run", "sample", "instrument"), ("entry", "sample", "ellipsometer"), ("entry", "wafer", "instrument"), ("run2", "wafer", "m2000"))):
        n = FORMS[form](h, want, aoi, lam, names)
        t = scratch(h, n, lambda p: h.elli.read_nexus_psi_delta(p, G(*names)), "a.nxs")
        table(h, f"{names}", t, want, turn=False)
        for other in ((G(), None) if form == "legacy" else ()):
            h.raises(f"{names} as {other}", (ValueError, KeyError), lambda: scratch(h, n, lambda p: h.elli.read_nexus_psi_delta(p, other), "a.nxs"))


@R.case(form="legacy")
@R.case(form="nx_opt")
def nexus_rho(h, form):
    aoi, lam = (70.0, 50.0), (400.0, 300.0)
    tan = {k: (h.real(f"t{i}", positive=True, sample=(0.2, 1.5)), h.angle(f"a{i}", sample=(-3.0, 3.0))) for i, k in enumerate((a, l) for a in aoi for l in lam)}
    want = {k: (h.deg(h.np.arctan(t)), h.deg(a)) for k, (t, a) in tan.items()}
    t = scratch(h, FORMS[form](h, want, aoi, lam), lambda p: h.elli.read_nexus_rho(p), "a.nxs")
    h.true("rows", len(t) == len(want))
    for (a, l), (s, d) in tan.items():
        h.eq(f"rho {a} {l}", t.loc[(a, l)], s * h.exp(-1j * d))


@R.case()
def nexus_rejected(h):
    aoi, lam = (50.0,), (300.0, 400.0)
    want = values(h, aoi, lam)
    read = lambda g=None: (lambda p: h.elli.read_nexus_psi_delta(p, *([g] if g is not None else [])))
    for kind in ("Jones matrix", "PSI/DELTA", "Mueller matrix", "intensity", ""):
        for form in FORMS:
            h.raises(f"{form} {kind}", NotImplementedError, lambda: scratch(h, FORMS[form](h, want, aoi, lam, kind=kind), read(), "a.nxs"))

    def nothing(p):
        with h5py.File(p, "w") as f:
            f["entry/sample/other"] = text("psi/delta")

    h.raises("no data type", ValueError, lambda: scratch(h, nothing, read(), "a.nxs"))
    for bad in ("entry", {"entry": "entry"}, ("entry", "sample", "instrument"), 0):
        h.raises(f"group names {bad}", ValueError, lambda: scratch(h, legacy(h, want, aoi, lam), read(bad), "a.nxs"))
