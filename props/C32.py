"""C32 Fit residuals compare model and data in matching order."""
import pandas as pd

from props.common import jones, make_result
from props.gui import stubs
from symx.harness import Registry

R = Registry()
BOUNDS = "data sets of up to 3 wavelengths in increasing and other order (psi/delta residuals also of 40 and 60, Mueller tables of 30, model tables of 12, with all values different but from fewer symbols); every psi, delta, rho and Mueller matrix; models given by arbitrary Jones matrices, three parameter sets (start, fitted, other)"
OUTSIDE = "the minimiser itself (its call is intercepted and the residual function it is given is evaluated for several parameter sets); drawing of the figures and widgets"
ASSUMPTIONS = ["plotly figures and ipywidgets are replaced by objects that record the tables, curves and values they are given"]


def intercept(h, modname, other):
    """the residuals at the start and at other parameters"""
    calls = []

    def minimize(fcn, params, method="leastsq", args=(), kws=None, **k):
        class Res:
            pass

        calls.append((fcn(params, *args, **(kws or {})), fcn(other, *args, **(kws or {})), params, method, k))
        r = Res()
        r.params = other
        return r

    h.mod(modname).minimize = minimize
    return calls


LAM = {"increasing": [300.0, 400.0, 650.0, *(652.0 + 2.5 * i for i in range(60))],
       "decreasing": [650.0, 400.0, 300.0, *(298.0 - 2.5 * i for i in range(60))],
       "unordered": [400.0, 300.0, 650.0, *(651.0 + 7.0 * ((11 * i + 5) % 60) for i in range(60))]}


class Setup:
    """a model with Jones matrices J0 + a J1, and parameters a"""

    def __init__(self, h, n, full):
        self.h, self.n = h, n
        self.a = [h.real(f"a{i}", lo=-1, hi=1) for i in range(3)]
        if full:
            u, w = jones(h, "u", min(n, 3)), jones(h, "w", min(n, 3))
            self.j0 = [[[x * (1 + i // 3) for x in r] for r in u[i % 3]] for i in range(n)]
            self.j1 = [[[x * (1 + i // 3) for x in r] for r in w[i % 3]] for i in range(n)]
        else:
            u, w = [h.cplx(f"u{i}_0") for i in range(min(n, 3))], [h.cplx(f"w{i}_0") for i in range(min(n, 3))]
            self.j0 = [[[u[i % 3] * (1 + i // 3), 0], [0, 1]] for i in range(n)]
            self.j1 = [[[w[i % 3] * (1 + i // 3), 0], [0, 0]] for i in range(n)]
        P = h.mod("elli.fitting.params_hist").ParamsHist
        self.params = []
        for v in self.a:
            p = P()
            p.add("a", v)
            self.params.append(p)
        self.jt = [[[1, 0], [0, 1]] for _ in range(n)]
        self.lbda = []

    def result(self, a):
        j = [[[self.j0[k][i][m] + a * self.j1[k][i][m] for m in (0, 1)] for i in (0, 1)] for k in range(self.n)]
        return make_result(self.h, j, self.jt)

    def model(self, lbda, params):
        self.lbda.append(list(lbda))
        return self.result(params["a"].value)


def psi_delta(h, n, order, reverse_columns=False):
    t = [h.real(f"t{i}", positive=True, sample=(0.2, 1.5)) for i in range(min(n, 3))]
    d = [h.angle(f"d{i}", sample=(-3.0, 3.0)) for i in range(min(n, 3))]
    t, d = [t[i % 3] * (1 + i // 3) for i in range(n)], [d[i % 3] for i in range(n)]
    cols = {"Ψ": [h.deg(h.np.arctan(v)) for v in t], "Δ": [h.deg(v) for v in d]}
    if reverse_columns:
        cols = dict(reversed(cols.items()))
    table = pd.DataFrame(cols, index=pd.Index(LAM[order][:n], name="Wavelength"))
    return table, [v * h.exp(-1j * w) for v, w in zip(t, d)]


def fit_rho(h, S, table, **k):
    return h.mod("elli.fitting.decorator_psi_delta").FitRho(table, S.params[0], S.model, **k)


def seen(h, S, order):
    h.true("wavelengths in the order of the data", all(w == LAM[order][: S.n] for w in S.lbda))


def re(h, v):
    return [h.np.real(x) for x in v]


def im(h, v):
    return [h.np.imag(x) for x in v]


@R.case(n=1, order="increasing")
@R.case(n=2, order="increasing")
@R.case(n=3, order="unordered")
@R.case(n=2, order="decreasing")
@R.case(n=2, order="increasing", reverse_columns=True)
@R.case(n=3, order="decreasing", quick=False)
@R.case(n=40, order="unordered")
@R.case(n=60, order="decreasing", reverse_columns=True)
def rho_residual(h, n, order, reverse_columns=False):
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order, reverse_columns)
    F = fit_rho(h, S, table)
    calls = intercept(h, "elli.fitting.decorator_psi_delta", S.params[1])
    res = F.fit()
    want = lambda a: [rho[k] - (S.j0[k][0][0] + a * S.j1[k][0][0]) for k in range(n)]
    h.true("one minimisation of the parameters", len(calls) == 1 and calls[0][2] is S.params[0] and calls[0][3] == "leastsq")
    for name, got, a in (("start", calls[0][0], S.a[0]), ("other", calls[0][1], S.a[1])):
        w = want(a)
        h.eq(name, list(got), re(h, w) + im(h, w))
    h.true("fitted parameters", res.params is S.params[1] and F.fitted_params is S.params[1])
    # directly, for any measured rho
    x = [h.cplx(f"x{k}") for k in range(n)]
    got = F.fit_function(S.params[2], h.np.array(LAM[order][:n]), h.np.array(re(h, x)), h.np.array(im(h, x)))
    w = [x[k] - (S.j0[k][0][0] + S.a[2] * S.j1[k][0][0]) for k in range(n)]
    h.eq("direct", list(got), re(h, w) + im(h, w))
    seen(h, S, order)
    h.true("start parameters kept", F.params is S.params[0])
    h.eq("start value kept", S.params[0]["a"].value, S.a[0])


@R.case(n=1)
@R.case(n=2)
def vanishes_for_the_right_model(h, n):
    """a model that gives back the measured psi and delta has no residual"""
    stubs(h)
    S = Setup(h, n, False)
    true = S.result(S.a[0])
    for k in range(n):
        h.assume(true.rho[k] * h.conj(true.rho[k]) > 0)
    table = pd.DataFrame({"Ψ": list(true.psi), "Δ": list(true.delta)}, index=pd.Index(LAM["increasing"][:n]))
    F = fit_rho(h, S, table)
    calls = intercept(h, "elli.fitting.decorator_psi_delta", S.params[1])
    F.fit()
    h.eq("residual", list(calls[0][0]), [0] * (2 * n))


@R.case(n=1, order="increasing")
@R.case(n=2, order="decreasing")
@R.case(n=12, order="unordered")
def rho_tables(h, n, order):
    """the model data as tables, of the fitted and of given parameters"""
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order)
    F = fit_rho(h, S, table)
    intercept(h, "elli.fitting.decorator_psi_delta", S.params[1])
    lam = LAM[order][:n]
    for fitted in (0, 1):
        for given in (None, 2):
            a = S.a[fitted if given is None else given]
            p = None if given is None else S.params[2]
            desc = "fit" if given is None else "model"
            r = S.result(a)
            for append in (False, True):
                name = f"fitted {fitted} given {given} append {append}"
                t = F.get_model_data(p, append_exp_data=append)
                h.same(f"{name} columns", [str(c) for c in t.columns], (["Ψ", "Δ"] if append else []) + [f"Ψ_{desc}", f"Δ_{desc}"])
                h.same(f"{name} index", list(t.index), lam)
                h.eq(f"{name} psi", list(t[f"Ψ_{desc}"]), list(r.psi))
                h.eq(f"{name} delta", list(t[f"Δ_{desc}"]), list(r.delta))
                if append:
                    h.eq(f"{name} data", list(t["Ψ"]) + list(t["Δ"]), list(table["Ψ"]) + list(table["Δ"]))
                t = F.get_model_data(p, repr="rho", append_exp_data=append)
                h.same(f"{name} rho index", list(t.index), lam)
                h.eq(f"{name} rho", list(t[f"ρ_{desc}"]), [S.j0[k][0][0] + a * S.j1[k][0][0] for k in range(n)])
                if append:
                    h.eq(f"{name} rho data", list(t.iloc[:, 0]), rho)
        F.fit()
    h.raises("unknown representation", ValueError, lambda: F.get_model_data(repr="nk"))
    seen(h, S, order)


@R.case(n=2, order="decreasing")
def rho_file(h, n, order):
    """the file holds the same table"""
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order)
    F = fit_rho(h, S, table)
    written = []
    pd.DataFrame.to_csv = lambda self, f, *a, **k: written.append((self, f, a, k))
    for p in (None, S.params[2]):
        for append in (False, True):
            F.to_csv(fname="out.csv", params=p, append_exp_data=append, sep=";")
            got, f, a, k = written.pop()
            want = F.get_model_data(p, append_exp_data=append)
            h.true("file and options", f == "out.csv" and a == () and k == {"sep": ";"})
            h.same("columns", list(got.columns), list(want.columns))
            h.eq("values", [x for c in got.columns for x in got[c]], [x for c in want.columns for x in want[c]])


def curves(h, F, i):
    return list(F.fig.data[i].y)


@R.case(n=1, order="increasing", opts={"timeout": 400})
@R.case(n=2, order="unordered", opts={"timeout": 400})
def rho_curves(h, n, order):
    """the displayed curves are those of data and model with the current parameters"""
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order)
    f = h.deg(h.acute_cot("f"))
    F = fit_rho(h, S, table, angle=f)
    r = S.result(S.a[0])
    model = [S.j0[k][0][0] + S.a[0] * S.j1[k][0][0] for k in range(n)]
    F.set_psi_delta(update_exp=True, update_names=True)
    h.eq("psi, delta", curves(h, F, 0) + curves(h, F, 1) + curves(h, F, 2) + curves(h, F, 3), list(table["Ψ"]) + list(table["Δ"]) + list(r.psi) + list(r.delta))
    F.set_rho(update_exp=True, update_names=True)
    h.eq("rho", curves(h, F, 0) + curves(h, F, 1) + curves(h, F, 2) + curves(h, F, 3), re(h, rho) + im(h, rho) + re(h, model) + im(h, model))
    F.set_residual(update_exp=True, update_names=True)
    d = [a - b for a, b in zip(rho, model)]
    h.eq("residuals of psi and delta", curves(h, F, 0) + curves(h, F, 1), [a - b for a, b in zip(table["Ψ"], r.psi)] + [a - b for a, b in zip(table["Δ"], r.delta)])
    h.eq("residuals of rho", curves(h, F, 2) + curves(h, F, 3), re(h, d) + im(h, d))
    seen(h, S, order)


@R.case(n=1, order="increasing", opts={"timeout": 400})
@R.case(n=2, order="unordered", opts={"timeout": 400})
def pseudo_curves(h, n, order):
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order)
    u = h.acute_cot("f")
    model = [S.j0[k][0][0] + S.a[0] * S.j1[k][0][0] for k in range(n)]
    for v in rho + model:
        h.assume((1 + v) * h.conj(1 + v) > 0)
    F = fit_rho(h, S, table, angle=h.deg(u))
    F.set_pseudo_diel(update_exp=True, update_names=True)
    s, t = h.np.sin(u), h.np.tan(u)
    for name, v, i in (("data", rho, 0), ("model", model, 2)):
        # eps = sin^2 (1 + tan^2 ((1 - rho)/(1 + rho))^2), without the division
        got = [a + 1j * b for a, b in zip(curves(h, F, i), curves(h, F, i + 1))]
        h.eq(f"pseudo permittivity of {name}", [g * (1 + x) ** 2 for g, x in zip(got, v)], [s**2 * ((1 + x) ** 2 + t**2 * (1 - x) ** 2) for x in v])
    seen(h, S, order)


@R.case(n=2, order="increasing")
def rho_figures(h, n, order):
    """figures of the fit hold data and fitted model"""
    stubs(h)
    S = Setup(h, n, False)
    table, rho = psi_delta(h, n, order)
    F = fit_rho(h, S, table)
    # the start figure
    r = S.result(S.a[0])
    n0 = [str(t.name) for t in F.fig.data]
    h.same("start curves", n0, ["Ψ", "Δ", "Ψ_calc", "Δ_calc"])
    F.update_selection()
    h.eq("shown", curves(h, F, 2) + curves(h, F, 3), list(r.psi) + list(r.delta))
    intercept(h, "elli.fitting.decorator_psi_delta", S.params[1])
    F.fit()
    model = [S.j0[k][0][0] + S.a[1] * S.j1[k][0][0] for k in range(n)]
    g = F.plot_rho()
    h.same("rho curves", [str(t.name) for t in g.data], ["ρr", "ρi", "ρcr", "ρci"])
    h.eq("rho values", [x for t in g.data for x in t.y], re(h, rho) + im(h, rho) + re(h, model) + im(h, model))


# ------------------------------------------------------------------ Mueller matrices

COLS = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]


def mueller_table(h, n, order):
    b = [[[h.real(f"m{k}_{i}{j}", lo=-1, hi=1) for j in range(4)] for i in range(4)] for k in range(min(n, 3))]
    m = [[[x / (1 + k // 3) for x in r] for r in b[k % 3]] for k in range(n)]
    t = pd.DataFrame({c: [m[k][int(c[1]) - 1][int(c[2]) - 1] for k in range(n)] for c in COLS}, index=pd.Index(LAM[order][:n], name="Wavelength"))
    return t, m


def flat(m):
    return [x for a in m for b in a for x in b]


@R.case(n=1, order="increasing")
@R.case(n=3, order="decreasing")
@R.case(n=30, order="unordered")
def table(h, n, order):
    """element ij under Mij, row k at wavelength k"""
    conv = h.mod("elli.fitting.decorator_mmatrix").mmatrix_to_dataframe
    exp, m = mueller_table(h, n, order)
    x = [[[h.real(f"x{k}_{i}{j}", lo=-1, hi=1) for j in range(4)] for i in range(4)] for k in range(min(n, 3))]
    x = [[[v / (1 + k // 3) for v in r] for r in x[k % 3]] for k in range(n)]
    for ident in (None, "fit"):
        t = conv(exp, h.arr(x), ident) if ident else conv(exp, h.arr(x))
        h.same(f"{ident} columns", [str(c) for c in t.columns], [c if ident is None else f"{c}_{ident}" for c in COLS])
        h.same(f"{ident} index", list(t.index), LAM[order][:n])
        for c in COLS:
            i, j = int(c[1]) - 1, int(c[2]) - 1
            h.eq(f"{ident} {c}", list(t[c if ident is None else f"{c}_{ident}"]), [x[k][i][j] for k in range(n)])
    h.eq("data kept", flat(m), [exp[f"M{i}{j}"].iloc[k] for k in range(n) for i in range(1, 5) for j in range(1, 5)])


def mueller_setup(h, n, order, single=True, **k):
    stubs(h)
    S = Setup(h, n, True)
    exp, m = mueller_table(h, n, order)
    F = h.mod("elli.fitting.decorator_mmatrix").FitMuellerMatrix(exp, S.params[0], S.model, display_single=single, **k)
    return S, exp, m, F


@R.case(n=1, order="increasing")
@R.case(n=2, order="decreasing")
@R.case(n=3, order="unordered", quick=False)
@R.case(n=7, order="unordered", quick=False)
def mueller_residual(h, n, order):
    S, exp, m, F = mueller_setup(h, n, order)
    calls = intercept(h, "elli.fitting.decorator_mmatrix", S.params[1])
    res = F.fit()
    h.true("one minimisation of the parameters", len(calls) == 1 and calls[0][2] is S.params[0] and calls[0][3] == "leastsq")
    for name, got, a in (("start", calls[0][0], S.a[0]), ("other", calls[0][1], S.a[1])):
        M = S.result(a).mueller_matrix
        h.eq(name, list(h.np.asarray(got).reshape(-1)), [m[k][i][j] - M[k][i][j] for k in range(n) for i in range(4) for j in range(4)])
    h.true("fitted parameters", res.params is S.params[1] and F.fitted_params is S.params[1])
    for given in (None, 2):
        a = S.a[1 if given is None else given]
        desc = "fit" if given is None else "model"
        M = S.result(a).mueller_matrix
        for append in (False, True):
            t = F.get_model_data(None if given is None else S.params[2], append_exp_data=append)
            h.same(f"{desc} {append} columns", [str(c) for c in t.columns], (COLS if append else []) + [f"{c}_{desc}" for c in COLS])
            h.same(f"{desc} {append} index", list(t.index), LAM[order][:n])
            h.eq(f"{desc} {append}", [t[f"M{i}{j}_{desc}"].iloc[k] for k in range(n) for i in range(1, 5) for j in range(1, 5)], flat(M))
            if append:
                h.eq(f"{desc} data", [t[f"M{i}{j}"].iloc[k] for k in range(n) for i in range(1, 5) for j in range(1, 5)], flat(m))
    seen(h, S, order)


@R.case(n=1, single=True)
@R.case(n=2, single=False)
def mueller_curves(h, n, single):
    """two curves for every element: the data and the model"""
    S, exp, m, F = mueller_setup(h, n, "increasing", single)

    def show(name, M, sign):
        h.true(f"{name} number of curves", len(F.fig.data) == 32)
        for q, c in enumerate(COLS):
            i, j = q // 4, q % 4
            h.eq(f"{name} data {c}", curves(h, F, 2 * q), [m[k][i][j] for k in range(n)])
            h.eq(f"{name} model {c}", curves(h, F, 2 * q + 1), [M[k][i][j] - (m[k][i][j] if sign else 0) for k in range(n)])
            for t in F.fig.data[2 * q : 2 * q + 2]:
                h.true(f"{name} label {c}", t.name.startswith(c))
                h.same(f"{name} wavelengths", list(t.x), LAM["increasing"][:n])
                if not single:
                    h.true(f"{name} place {c}", (t.row, t.col) == (i + 1, j + 1))

    M = S.result(S.a[0]).mueller_matrix
    show("start", M, False)
    F.update_selection()
    show("again", M, False)
    F.show_residual = True
    F.update_selection()
    show("residual", M, True)
    F.show_residual = False
    F.params["a"].value = S.a[2]
    F.update_selection()
    show("changed", S.result(S.a[2]).mueller_matrix, False)


@R.case(n=1)
def mueller_plots(h, n):
    S, exp, m, F = mueller_setup(h, n, "increasing")
    intercept(h, "elli.fitting.decorator_mmatrix", S.params[1])
    F.fit()
    M = S.result(S.a[1]).mueller_matrix
    g = F.plot()
    for q in range(16):
        h.eq(f"plot data {COLS[q]}", list(g.data[2 * q].y), [m[0][q // 4][q % 4]])
        h.eq(f"plot fit {COLS[q]}", list(g.data[2 * q + 1].y), [M[0][q // 4][q % 4]])
    g = F.plot_residual()
    h.true("one curve for every element", len(g.data) == 16)
    for q in range(16):
        h.eq(f"plot residual {COLS[q]}", list(g.data[q].y), [M[0][q // 4][q % 4] - m[0][q // 4][q % 4]])


@R.case()
def default_display(h):
    """the display options are optional"""
    stubs(h)
    S = Setup(h, 1, True)
    exp, m = mueller_table(h, 1, "increasing")
    F = h.mod("elli.fitting.decorator_mmatrix").fit_mueller_matrix(exp, S.params[0])(S.model)
    h.true("all curves", len(F.fig.data) == 32)
    table, rho = psi_delta(h, 1, "increasing")
    T = Setup.__new__(Setup)
    G = h.mod("elli.fitting.decorator_psi_delta").fit(table, S.params[0], 65.0)(S.model)
    h.true("angle", G.angle == 65.0 and len(G.fig.data) == 4)
