"""C29 Isotropic Mueller conversion of psi/delta equals the simulated matrix."""
import pandas as pd

from symx.harness import Registry

from .common import make_result

R = Registry()
BOUNDS = "all psi strictly between 0 and 90 degrees, all delta, tables of 1 to 3 angles by 1 to 2 wavelengths (thorough: 3 by 3), of 7 by 4 and 1 by 60 (thorough: 5 by 60) with multiples of fewer symbols, rows in any order, extra columns; the simulated matrix of every diagonal Jones matrix with non-zero elements"
OUTSIDE = "tables with missing rows or other columns names"

COLS = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


def table(h, aois, lams, order=None, extra=False, cols=("Ψ", "Δ")):
    keys = [(a, l) for a in aois for l in lams]
    if len(keys) <= 9:
        t = {k: h.real(f"t{i}", positive=True, sample=(0.2, 2.0)) for i, k in enumerate(keys)}
        d = {k: h.angle(f"d{i}", sample=(-3.0, 3.0)) for i, k in enumerate(keys)}
    else:
        # long tables: different multiples of a few symbolic values
        ts, ds = [h.real(f"t{i}", positive=True, sample=(0.2, 2.0)) for i in range(4)], [h.angle(f"d{i}", sample=(-3.0, 3.0)) for i in range(3)]
        t = {k: ts[i % 4] * (1 + i % 17) for i, k in enumerate(keys)}
        d = {k: ds[i % 3] * (1 + i % 2) for i, k in enumerate(keys)}
    rows = [keys[i] for i in order] if order else keys
    val = {"Ψ": [h.deg(h.np.arctan(t[k])) for k in rows], "Δ": [h.deg(d[k]) for k in rows]}
    df = pd.DataFrame({c: val[c] for c in cols}, index=pd.MultiIndex.from_tuples(rows, names=["Angle of Incidence", "Wavelength"]))
    if extra:
        df.insert(0, "err", [0.5] * len(rows))
    return t, d, df


def expected(h, t, d):
    n, c, s = (1 - t * t) / (1 + t * t), 2 * t * h.np.cos(d) / (1 + t * t), 2 * t * h.np.sin(d) / (1 + t * t)
    return [1, -n, 0, 0, -n, 1, 0, 0, 0, 0, c, s, 0, 0, -s, c]


def conv(h, df):
    return h.mod("elli.utils").convert_psi_delta_to_isotropic_mueller_matrix(df)


@R.case(na=1, nl=1, order=None)
@R.case(na=1, nl=2, order=None)
@R.case(na=2, nl=2, order=None)
@R.case(na=3, nl=1, order=None)
@R.case(na=2, nl=2, order=(3, 0, 2, 1))
@R.case(na=1, nl=3, order=(2, 0, 1))
@R.case(na=3, nl=3, order=None, quick=False)
@R.case(na=7, nl=4, order="reversed")
@R.case(na=1, nl=60, order=None)
@R.case(na=5, nl=60, order="reversed", quick=False)
def elements(h, na, nl, order):
    aois, lams = [70.0, 55.0, 60.0, 65.0, 50.0, 45.0, 75.0][:na], [500.0, 400.0, 632.8, *(200.0 + 1.5 * i for i in range(100))][:nl]
    order = None if order is None else range(na * nl)[::-1] if order == "reversed" else order
    t, d, df = table(h, aois, lams, order)
    before = {k: (df.loc[k]["Ψ"], df.loc[k]["Δ"]) for k in t}
    names = list(df.columns)
    M = conv(h, df)
    h.same("columns", list(M.columns), COLS)
    h.true("rows", len(M.index) == len(t) and set(M.index) == set(t))
    h.same("levels", list(M.index.names), ["Angle of Incidence", "Wavelength"])
    for k in t:
        h.eq(f"{k}", list(M.loc[k]), expected(h, t[k], d[k]))
        for c, w in zip(COLS, expected(h, t[k], d[k])):
            h.eq(f"{k} {c}", M.loc[k, c], w)
    # the table given stays as it was
    h.true("columns of the table kept", list(df.columns) == names and len(df.index) == len(t))
    for k, (p, q) in before.items():
        h.eq(f"kept {k}", [df.loc[k]["Ψ"], df.loc[k]["Δ"]], [p, q])
    N = conv(h, df)
    h.eq("again", [v for k in t for v in N.loc[k]], [v for k in t for v in M.loc[k]])


@R.case()
def columns(h):
    """columns are taken by name"""
    t, d, df = table(h, [70.0], [500.0, 400.0], cols=("Δ", "Ψ"), extra=True)
    M = conv(h, df)
    for k in t:
        h.eq(f"{k}", list(M.loc[k]), expected(h, t[k], d[k]))


@R.case()
def simulated(h):
    """the matrix of the table of psi and delta reported for an isotropic sample is the reported matrix"""
    a, b = h.cplx("rp"), h.cplx("rs")
    for z in (a, b):
        h.assume(h.np.real(z * h.conj(z)) > 0)
    h.assume(h.np.imag(a * h.conj(b)) != 0)
    r = make_result(h, [[[a, 0], [0, b]]], [[[1, 0], [0, 1]]])
    df = pd.DataFrame({"Ψ": list(r.psi), "Δ": list(r.delta)}, index=pd.MultiIndex.from_tuples([(70.0, 500.0)], names=["Angle of Incidence", "Wavelength"]))
    M = conv(h, df)
    W = r.mueller_matrix
    h.eq("matrix", list(M.loc[(70.0, 500.0)]), list(W.reshape(-1)))


@R.case()
def properties(h):
    """consequences: real, non-depolarising, block form"""
    t, d, df = table(h, [70.0], [500.0])
    k = (70.0, 500.0)
    M = h.np.array(list(conv(h, df).loc[k])).reshape(4, 4)
    h.eq("norm", (M * M).sum(), 4)
    h.eq("N2+C2+S2", M[0, 1] * M[0, 1] + M[2, 2] * M[2, 2] + M[2, 3] * M[2, 3], 1)
    # fully polarised light stays so
    u = h.np.array([1, 0, 1, 0])
    o = M @ u
    h.eq("diagonal light", o[0] * o[0] - o[1] * o[1] - o[2] * o[2] - o[3] * o[3], 0)
    h.eq("diagonal light out", list(o), [1, M[1, 0], M[2, 2], M[3, 2]])
