"""C28 The pseudo-dielectric function inverts the bulk ellipsometric response."""
import pandas as pd

from symx.harness import Registry

from .stack import Front, evaluate, solver, iso, eps_disp

R = Registry()
BOUNDS = "bulk in air, every angle strictly between 0 and 90 degrees, every absorbing or lossless permittivity with a propagating refracted wave, 1 or 2 wavelengths, both solvers; all outputs; tables of 1 to 3 (and 40) rows for rho, psi and delta, of 2 and 60 rows of rho, through the pseudo-dielectric dispersion with 4 rows"
OUTSIDE = "rho = -1 (no bulk in air gives it below 90 degrees), psi of exactly 0 or 90 degrees for the way through psi/delta; rounding"


def air(h):
    f = object.__new__(Front)
    f.h, f.normal = h, False
    f.theta = h.acute_cot("cot")
    f.s, f.c = h.np.sin(f.theta), h.np.cos(f.theta)
    f.K, f.q, f.n, f.eps = f.s, f.c, 1, 1
    h.hint(f.c)
    return f


def bulk(h, kind, n, name="p"):
    f = air(h)
    return f, [f.medium(f"{name}{i}", kind) for i in range(n)]


def simulate(h, f, ms, lam, sol):
    E = h.elli
    st = E.Structure(E.AIR, [], E.IsotropicMaterial(eps_disp(h, [m.eps for m in ms])))
    return st.evaluate(lam, f.deg, **solver(h, sol))


def forms(h, rho, f, ms):
    """every output of the conversion"""
    P = h.mod("elli.utils").calc_pseudo_diel
    idx = list(rho.index)
    want = [m.eps for m in ms]
    a = P(rho, f.deg)
    h.same("columns", list(a.columns), ["ϵ1", "ϵ2"])
    h.same("index", list(a.index), idx)
    h.eq("eps1", list(a["ϵ1"]), [h.np.real(v) for v in want])
    h.eq("eps2", list(a["ϵ2"]), [h.np.imag(v) for v in want])
    b = P(rho, f.deg, output="epsi")
    h.same("index epsi", list(b.index), idx)
    h.eq("epsi", list(b), want)
    b = P(rho, f.deg, "eps")
    h.eq("eps named", list(b["ϵ1"]) + list(b["ϵ2"]), [h.np.real(v) for v in want] + [h.np.imag(v) for v in want])
    c = P(rho, f.deg, output="n")
    h.same("columns n", list(c.columns), ["n", "k"])
    h.same("index n", list(c.index), idx)
    h.eq("n", list(c["n"]), [h.np.real(m.n) for m in ms])
    h.eq("k", list(c["k"]), [h.np.imag(m.n) for m in ms])


@R.case(sol="2x2", kind="abs", n=1)
@R.case(sol="2x2", kind="real", n=1)
@R.case(sol="4x4", kind="abs", n=1)
@R.case(sol="4x4", kind="real", n=1)
@R.case(sol="2x2", kind="abs", n=2)
@R.case(sol="2x2", kind="real", n=2)
@R.case(sol="4x4", kind="abs", n=2, quick=False)
def closed_loop(h, sol, kind, n):
    f, ms = bulk(h, kind, n)
    lam = [500.0, 400.0][:n]
    r = simulate(h, f, ms, h.np.array(lam), sol)
    rho = pd.Series(list(r.rho), index=lam)
    forms(h, rho, f, ms)
    h.eq("rho kept", list(rho), list(r.rho))


@R.case(kind="abs")
@R.case(kind="real")
def through_psi_delta(h, kind):
    """the reported psi and delta as a table, to rho and to the permittivity"""
    f, ms = bulk(h, kind, 1)
    r = simulate(h, f, ms, h.np.array([500.0]), "2x2")
    h.assume(r.rho[0] * h.conj(r.rho[0]) > 0)
    t = pd.DataFrame({"Ψ": list(r.psi), "Δ": list(r.delta)}, index=pd.Index([500.0], name="Wavelength"))
    rho = h.mod("elli.utils").calc_rho(t)
    h.eq("rho", list(rho), list(r.rho))
    h.same("index", list(rho.index), [500.0])
    h.eq("permittivity", list(h.mod("elli.utils").calc_pseudo_diel(rho, f.deg, output="epsi")), [ms[0].eps])


@R.case(n=1)
@R.case(n=3)
@R.case(n=40)
def rho_table(h, n):
    """rho of a table of psi and delta"""
    psi = [h.real(f"t{i}", positive=True, sample=(0.2, 1.5)) for i in range(min(n, 5))]
    de = [h.angle(f"d{i}", sample=(-3.0, 3.0)) for i in range(min(n, 3))]
    psi, de = [psi[i % 5] * (1 + i // 5) for i in range(n)], [de[i % 3] for i in range(n)]
    p, d = [h.deg(h.np.arctan(v)) for v in psi], [h.deg(v) for v in de]
    lam = [300.0, 250.0, 700.0, *(701.0 + i for i in range(100))][:n]
    for cols in (("Ψ", "Δ"), ("Δ", "Ψ")):
        t = pd.DataFrame({c: p if c == "Ψ" else d for c in cols}, index=pd.Index(lam, name="Wavelength"))
        rho = h.mod("elli.utils").calc_rho(t)
        h.eq(f"{cols} rho", list(rho), [a * h.exp(-1j * b) for a, b in zip(psi, de)])
        h.same(f"{cols} index", list(rho.index), lam)
        h.eq(f"{cols} kept", list(t["Ψ"]) + list(t["Δ"]), p + d)
    idx = pd.MultiIndex.from_tuples([(70.0, v) for v in lam], names=["Angle of Incidence", "Wavelength"])
    t = pd.DataFrame({"Ψ": p, "Δ": d}, index=idx)
    rho = h.mod("elli.utils").calc_rho(t)
    h.eq("two levels", list(rho), [a * h.exp(-1j * b) for a, b in zip(psi, de)])
    h.same("two levels index", list(rho.index), list(idx))


@R.case(n=2)
@R.case(n=60)
def direct(h, n):
    """the formula itself for any rho and angle"""
    f = air(h)
    z = [h.cplx(f"z{i}") for i in range(2)]
    for v in z:
        h.assume(h.np.real((1 + v) * h.conj(1 + v)) > 0)
    P = h.mod("elli.utils").calc_pseudo_diel
    z = (z * n)[:n]
    rho = pd.Series(z, index=[500.0 - 5 * i if i != 1 else 400.0 for i in range(n)])
    t = f.s / f.c
    want = [f.s * f.s * (1 + t * t * ((1 - v) / (1 + v)) ** 2) for v in z]
    h.eq("epsi", list(P(rho, f.deg, output="epsi")), want)
    a = P(rho, f.deg)
    h.eq("eps", list(a["ϵ1"]) + list(a["ϵ2"]), [h.np.real(v) for v in want] + [h.np.imag(v) for v in want])
    n = P(rho, f.deg, output="n")
    w = [complex_of(h, x, y) for x, y in zip(n["n"], n["k"])]
    h.eq("n squared", [v * v for v in w], want)
    h.eq("input kept", list(rho), z)


def complex_of(h, x, y):
    return x + 1j * y


@R.case(kind="abs")
def dispersion(h, kind):
    """the pseudo-dielectric dispersion of the simulated psi and delta is the permittivity at the measured wavelengths"""
    f, ms = bulk(h, kind, 1)
    r = simulate(h, f, ms, h.np.array([500.0]), "2x2")
    h.assume(r.rho[0] * h.conj(r.rho[0]) > 0)
    ps, de = r.psi[0], r.delta[0]
    lam = h.np.array([300.0, 400.0, 500.0, 600.0])
    d = h.elli.PseudoDielectricFunction(f.deg, lam, h.arr([ps] * 4), h.arr([de] * 4))
    h.eq("eps", d.get_dielectric(lam), [ms[0].eps] * 4)
    # simulated again, the same rho results
    s = h.elli.Structure(h.elli.AIR, [], d.get_mat()).evaluate(lam, f.deg, solver=h.mod("elli.solver2x2").Solver2x2)
    h.eq("rho again", s.rho, [r.rho[0]] * 4)
