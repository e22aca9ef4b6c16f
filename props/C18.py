"""C18 access by name and result lists"""
from symx.harness import Registry
from .common import jones, make_result

R = Registry()
BOUNDS = "2, 3 and 9 wavelengths, all complex Jones matrices, all documented names; lists of 1 to 3 and 7 results"
OUTSIDE = "longer lists and arrays"

LIN = {"p": 0, "s": 1, "1": 0, "2": 1}
CIR = {"L": 0, "R": 1, "1": 0, "2": 1}
PAIRS_LIN = [("p", "p"), ("p", "s"), ("s", "p"), ("s", "s"), ("1", "2"), ("2", "1")]
PAIRS_CIR = [("L", "L"), ("L", "R"), ("R", "L"), ("R", "R"), ("1", "2")]


def res(h, n, tag="", vec=(1, 1), pow_=True):
    jr, jt = jones(h, tag + "r", n), jones(h, tag + "t", n)
    for m in jr + jt:
        h.assume(m[1][1] != 0)
    pc = [h.real(f"{tag}pc{k}", positive=True) for k in range(n)] if pow_ else None
    return make_result(h, jr, jt, h.arr(list(vec)), power=pc), jr, jt


@R.case(n=2)
@R.case(n=9)
@R.case(n=3, quick=False)
def names(h, n):
    r, jr, jt = res(h, n)
    M = {"r": r.jones_matrix_r, "t": r.jones_matrix_t, "R": r.R_matrix, "T": r.T_matrix, "rho": r.rho_matrix, "psi": r.psi_matrix}
    for nm, m in M.items():
        for a, b in PAIRS_LIN:
            want = [m[k, LIN[a], LIN[b]] for k in range(n)]
            h.eq(f"{nm}_{a}{b}", getattr(r, f"{nm}_{a}{b}"), want)
            h.eq(f"get {nm}_{a}{b}", r.get(f"{nm}_{a}{b}"), want)
    for nm, m in (("rc", r.jones_matrix_rc), ("tc", r.jones_matrix_tc), ("Rc", r.Rc_matrix), ("Tc", r.Tc_matrix)):
        for a, b in PAIRS_CIR:
            h.eq(f"{nm}_{a}{b}", getattr(r, f"{nm}_{a}{b}"), [m[k, CIR[a], CIR[b]] for k in range(n)])
        h.eq(nm, getattr(r, nm), m)
        h.eq("get " + nm, r.get(nm), m)
    for g, l in (("Ψ", "psi"), ("ρ", "rho")):
        h.eq(g, getattr(r, g + "_sp"), getattr(r, l + "_sp"))
        h.eq(g + " reduced", getattr(r, g), getattr(r, l))
    h.eq("get R", r.get("R"), r.R)
    h.eq("get psi", r.get("psi"), r.psi)
    h.eq("r whole", r.r, r.jones_matrix_r)
    h.eq("t whole", r.t, r.jones_matrix_t)
    h.eq("r is the given matrix", r.r, jr)
    h.eq("t is the given matrix", r.t, jt)
    for bad in ("foo", "r_xx", "x_pp", "r_p", "psi_pq", "R_p", "Psi_pp", "r_pps"):
        h.raises("bad name " + bad, (AttributeError, ValueError, TypeError), lambda: getattr(r, bad))


@R.case()
def delta_names(h):
    r, jr, jt = res(h, 2)
    for k in range(2):
        for i, j in ((0, 0), (0, 1), (1, 0)):
            h.assume(jr[k][i][j] != 0)
    d = r.delta_matrix
    for a, b in PAIRS_LIN:
        want = [d[k, LIN[a], LIN[b]] for k in range(2)]
        h.eq(f"delta_{a}{b}", getattr(r, f"delta_{a}{b}"), want)
        h.eq(f"greek delta_{a}{b}", getattr(r, f"Δ_{a}{b}"), want)
    h.eq("delta get", r.get("Δ_ps"), [d[k, 0, 1] for k in range(2)])


@R.case()
def mueller_names(h):
    r, jr, jt = res(h, 2)
    mm = r.mueller_matrix
    for i in range(4):
        for j in range(4):
            h.eq(f"M{i+1}{j+1}", getattr(r, f"mueller_matrix_{i+1}{j+1}"), [mm[k, i, j] for k in range(2)])
    h.eq("get", r.get("mueller_matrix_34"), [mm[k, 2, 3] for k in range(2)])
    h.eq("jones element", r.jones_matrix_r_ps, [m[0][1] for m in jr])
    h.eq("R_matrix element", r.R_matrix_sp, r.R_sp)


@R.case(m=1)
@R.case(m=2)
@R.case(m=7)
@R.case(m=3)
def lists(h, m):
    E = h.elli
    n = 2
    rs = [res(h, n, tag=f"q{i}") for i in range(m)]
    RL = h.mod("elli.result").ResultList
    l = RL()
    h.same("empty", len(l), 0)
    for i, (r, _, _) in enumerate(rs):
        l.append(r)
        h.same("length", len(l), i + 1)
    sq = lambda a: a[0] if m == 1 else a
    h.eq("r_ps in order", l.r_ps, sq([[x[0][1] for x in jr] for _, jr, _ in rs]))
    h.eq("R", l.R, sq([r.R for r, _, _ in rs]))
    h.eq("jones", l.jones_matrix_t, sq([jt for _, _, jt in rs]))
    h.eq("rho", l.rho, sq([r.rho for r, _, _ in rs]))
    k = RL([r for r, _, _ in rs])
    h.eq("from list", k.T_pp, l.T_pp)
    mean = l.mean
    avg = lambda vals: [sum(v[j] for v in vals) / m for j in range(n)]
    h.eq("mean R", mean.R, avg([r.R for r, _, _ in rs]))
    h.eq("mean r_sp", mean.r_sp, avg([r.r_sp for r, _, _ in rs]))
    h.eq("mean rho", mean.rho, avg([r.rho for r, _, _ in rs]))
    h.eq("mean T", mean.T, avg([r.T for r, _, _ in rs]))
    h.eq("mean of matrices", mean.jones_matrix_r, [[[sum(jr[j][a][b] for _, jr, _ in rs) / m for b in (0, 1)] for a in (0, 1)] for j in range(n)])
    h.raises("mean of mean", ValueError, lambda: mean.mean)
    l.append(rs[0][0])
    h.eq("mean after append", l.mean.R, [(sum(r.R[j] for r, _, _ in rs) + rs[0][0].R[j]) / (m + 1) for j in range(n)])
    h.same("separate lists", len(RL()), 0)
    h.eq("members unchanged", rs[0][0].r_ps, [x[0][1] for x in rs[0][1]])
