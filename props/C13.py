"""C13 half-space matrices."""
from symx.harness import Registry
from .stack import Front, solver, evaluate, eps_disp, iso

R = Registry()
BOUNDS = "isotropic half-spaces: lossless, absorbing and evanescent media at every wave number, two wavelengths; exit media with diagonal tensors (isotropic entered as anisotropic, biaxial travelling / evanescent / absorbing), in-plane rotated crystals (by arccos(4/5), larger index on the first axis) at normal incidence; bare interface or one layer in front"
OUTSIDE = "generally oriented exit crystals at oblique incidence; which eigenvectors a numerical eigensolver picks for equal eigenvalues; rounding"


def med(h, f, name, kind):
    m = f.medium(name, kind)
    if kind == "total":
        h.assume(h.np.imag(m.q) > 1e-9)
    return m


def dm(x):
    return [[x[0], 0, 0], [0, x[1], 0], [0, 0, x[2]]]


for kind in ("real", "abs", "total", "front"):
    @R.case(name="isotropic", kind=kind)
    def isotropic(h, kind):
        S4 = h.mod("elli.solver4x4").Solver4x4
        f = Front(h)
        m = med(h, f, "m", kind)
        K, eps = h.arr([f.K]), h.arr([dm([m.eps] * 3)])
        L = S4.transition_matrix_iso_halfspace(K, eps)
        Li = S4.transition_matrix_iso_halfspace(K, eps, inv=True)
        h.same("shape", (tuple(L.shape), tuple(Li.shape)), ((1, 4, 4), (1, 4, 4)))
        unit = [[1 if i == j else 0 for j in range(4)] for i in range(4)]
        h.eq("inverse", h.np.matmul(Li, L)[0], unit)
        h.eq("inverse on the other side", h.np.matmul(L, Li)[0], unit)
        D = S4.build_delta_matrix(K, eps)[0]
        waves = {"s forward": (0, m.q, [0, 1, -m.q, 0]), "s backward": (1, -m.q, [0, 1, m.q, 0]),
                 "p forward": (2, m.q, [m.c, 0, 0, m.n]), "p backward": (3, -m.q, [-m.c, 0, 0, m.n])}
        for w, (j, q, v) in waves.items():
            col = [L[0, i, j] for i in range(4)]
            h.eq(w, col, v)
            h.eq(w + " propagates with its own wave number", [sum(D[i, k] * col[k] for k in range(4)) for i in range(4)],
                 [q * x for x in col])
        h.eq("inputs unchanged", eps, [dm([m.eps] * 3)])


@R.case(name="isotropic_two_wavelengths")
def two(h):
    S4 = h.mod("elli.solver4x4").Solver4x4
    f = Front(h)
    a, b = med(h, f, "a", "real"), med(h, f, "b", "abs")
    eps = [dm([a.eps] * 3), dm([b.eps] * 3)]
    for inv in (False, True):
        L = S4.transition_matrix_iso_halfspace(h.arr([f.K, f.K]), h.arr(eps), inv=inv)
        for k in (0, 1):
            h.eq(f"{inv} {k}", L[k], S4.transition_matrix_iso_halfspace(h.arr([f.K]), h.arr([eps[k]]), inv=inv)[0])


ORDERS = {"as computed": {}, "reordered": {"eig_order": [3, 1, 0, 2]}, "reversed": {"eig_order": [3, 2, 1, 0]}}
for kind in ("real", "abs", "total"):
    for oname, o in ORDERS.items():
        @R.case(name="isotropic_as_crystal", kind=kind, order=oname, quick=oname != "reversed", opts=dict(o, timeout=200))
        def ascrystal(h, kind, order):
            E = h.elli
            f = Front(h)
            b = med(h, f, "t", kind)
            if kind == "abs":
                h.assume(h.np.imag(b.q) > 1e-9)
            l = med(h, f, "l", "real")
            d = h.real("d", lo=0, sample=(1.0, 100.0))
            back = {"uniaxial": E.UniaxialMaterial(eps_disp(h, [b.eps]), eps_disp(h, [b.eps]))}
            for ls, w in (([], "bare "), ([E.Layer(iso(h, l), d)], "layer ")):
                ref = E.Structure(iso(h, f), ls, iso(h, b)).evaluate(500.0, f.deg, **solver(h, "4x4"))
                for n, m in back.items():
                    r = E.Structure(iso(h, f), ls, m).evaluate(500.0, f.deg, **solver(h, "4x4"))
                    h.eq(w + n, r.jones_matrix_r, ref.jones_matrix_r)


def exit_crystal(h, f, kind):
    """(eps_x, eps_y, eps_z), s wave number, p wave number of the outgoing wave; kind: two of r (travelling), t (evanescent),
    or a (absorbing)"""
    K = f.K
    w = h.real("w", positive=True, sample=(1.2, 3.0) if kind[1] != "t" else (0.2, 0.8))
    if kind[0] == "r":
        ps = h.real("s", positive=True, sample=(0.3, 2.0))
    elif kind[0] == "t":
        s = h.real("s", positive=True, sample=(0.2, 0.9))
        h.assume(s < 1)
        ps = 1j * s
    else:
        ps = h.cplx("s", sample=(0.2, 1.5))
    if kind[1] == "r":
        pp = h.real("p", positive=True, sample=(0.3, 2.0))
        h.assume(w > 1)
    elif kind[1] == "t":
        pp = 1j * h.real("p", positive=True, sample=(0.3, 2.0))
        h.assume(w < 1)
    else:
        pp = h.cplx("p", sample=(0.2, 1.5))
        h.assume(w > 1)
    for k, x in zip(kind, (ps, pp)):
        if k == "a":
            h.assume(h.np.real(x) > 0)
            h.assume(h.np.imag(x) > 0)
    h.hint(K * ps, K * pp)
    return (K * K * pp * pp * w / (w - 1), K * K * (1 + ps * ps), K * K * w), K * ps, K * pp


for kind in ("rr", "rt", "tr", "tt", "aa"):
    for oname, o in ORDERS.items():
        @R.case(name="principal_axes", kind=kind, order=oname, quick=oname == "reordered" or kind in ("rt", "aa") and oname != "reversed",
                opts=dict(o, timeout=200))
        def principal(h, kind, order):
            E = h.elli
            f = Front(h)
            e, qs, qp = exit_crystal(h, f, kind)
            m = E.BiaxialMaterial(*[eps_disp(h, [x]) for x in e])
            r = E.Structure(iso(h, f), [], m).evaluate(500.0, f.deg, **solver(h, "4x4"))
            J = r.jones_matrix_r
            Y = e[0] / qp      # Hy/Ex of the outgoing p wave
            h.eq("s", J[0, 1, 1], (f.q - qs) / (f.q + qs))
            h.eq("p", J[0, 0, 0], (Y * f.c - f.n) / (Y * f.c + f.n))
            h.eq("no mixing", [J[0, 0, 1], J[0, 1, 0]], [0, 0])


@R.case(name="rotated_exit", opts={"timeout": 200})
def rotated(h):
    """normal incidence on an in-plane rotated crystal: the reflection is the rotated principal one"""
    E = h.elli
    f = Front(h, True)
    a, c = h.real("na", positive=True, sample=(1.0, 2.0)), h.real("nb", positive=True, sample=(1.0, 2.0))
    h.assume(a > c)
    h.hint(a, c)
    m = E.BiaxialMaterial(*[eps_disp(h, [x]) for x in (a * a, c * c, 2)])
    co, si = 0.8, 0.6
    m.set_rotation(h.arr([[co, -si, 0], [si, co, 0], [0, 0, 1]]))
    J = E.Structure(iso(h, f), [], m).evaluate(500.0, 0.0, **solver(h, "4x4")).jones_matrix_r[0]
    ra, rc = (f.n - a) / (f.n + a), (f.n - c) / (f.n + c)
    # Ex of the p wave changes sign on reflection: r_pp = -(x reflection)
    h.eq("J", J, [[-(ra * co * co + rc * si * si), -(ra - rc) * co * si], [(ra - rc) * co * si, ra * si * si + rc * co * co]])
