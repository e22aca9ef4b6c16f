"""C11 the 4x4 layer matrix is the elimination of Maxwell's equations."""
from symx.harness import Registry
from .stack import Front, solver, eps_disp, iso

R = Registry()
BOUNDS = "two wavelengths, all complex 3x3 tensors with eps_zz != 0, all wave numbers (real; complex for the elimination); through the solver: arbitrary angle, front index and orientation of a biaxial crystal"
OUTSIDE = "eps_zz = 0; rounding"


def maxwell(K, e, ex, ey, hx, hy):
    """d/d(i k0 z) of (Ex, Ey, Hx, Hy) from curl E = i k0 H, curl H = -i k0 eps E, fields ~ exp(i k0 K x)"""
    ez = -(K * hy + e[2][0] * ex + e[2][1] * ey) / e[2][2]    # K Hy = -Dz
    dx = e[0][0] * ex + e[0][1] * ey + e[0][2] * ez
    dy = e[1][0] * ex + e[1][1] * ey + e[1][2] * ez
    hz = K * ey
    return [hy + K * ez, -hx, K * hz - dy, dx]


def tensor(h, name, sym=False):
    e = [[h.cplx(f"{name}{i}{j}") if not (sym and j < i) else None for j in range(3)] for i in range(3)]
    if sym:
        for i in range(3):
            for j in range(i):
                e[i][j] = e[j][i]
    return e


def hermitian(h, name):
    e = [[None] * 3 for _ in range(3)]
    for i in range(3):
        e[i][i] = h.real(f"{name}{i}{i}", sample=(1.0, 3.0))
        for j in range(i):
            e[i][j] = h.cplx(f"{name}{i}{j}")
            e[j][i] = h.conj(e[i][j])
    return e


def act(D, v):
    return [sum(D[i, j] * v[j] for j in range(4)) for i in range(4)]


UNIT = [[1 if i == j else 0 for j in range(4)] for i in range(4)]


@R.case(name="elimination")
def elim(h):
    S4 = h.mod("elli.solver4x4").Solver4x4
    K = [h.cplx("K0"), h.real("K1")]
    e = [tensor(h, "a"), tensor(h, "b")]
    D = S4.build_delta_matrix(h.arr(K), h.arr(e))
    h.same("shape", tuple(D.shape), (2, 4, 4))
    for k in (0, 1):
        for j, v in enumerate(UNIT):
            h.eq(f"wavelength {k}, field {'Ex Ey Hx Hy'.split()[j]}", D[k, :, j], maxwell(K[k], e[k], *v))


@R.case(name="one_wavelength")
def one(h):
    S4 = h.mod("elli.solver4x4").Solver4x4
    K, e = h.real("K"), tensor(h, "a")
    D = S4.build_delta_matrix(h.arr([K]), h.arr([e]))
    h.same("shape", tuple(D.shape), (1, 4, 4))
    v = [h.cplx(n) for n in ("ex", "ey", "hx", "hy")]
    h.eq("fields", act(D[0], v), maxwell(K, e, *v))


@R.case(name="inputs_unchanged")
def unchanged(h):
    S4 = h.mod("elli.solver4x4").Solver4x4
    K, e = [h.real("K")], [tensor(h, "a")]
    Ka, ea = h.arr(K), h.arr(e)
    D = S4.build_delta_matrix(Ka, ea)
    D[0, 0, 0] = 7
    D[0, 3, 3] = 7
    h.eq("wave number", Ka, K)
    h.eq("tensor", ea, e)
    h.eq("again", S4.build_delta_matrix(Ka, ea)[0, 3, 3], -K[0] * e[0][0][2] / e[0][2][2])


@R.case(name="flux")
def flux(h):
    """lossless (Hermitian) tensors: the normal component of the Poynting vector Re(Ex Hy* - Ey Hx*) is conserved"""
    S4 = h.mod("elli.solver4x4").Solver4x4
    K, e = h.real("K"), hermitian(h, "a")
    D = S4.build_delta_matrix(h.arr([K]), h.arr([e]))[0]
    G = {(0, 3): 1, (3, 0): 1, (1, 2): -1, (2, 1): -1}
    for i in range(4):
        for j in range(4):
            a = sum(G.get((i, k), 0) * D[k, j] for k in range(4))
            b = sum(h.conj(D[k, i]) * G.get((k, j), 0) for k in range(4))
            h.eq(f"flux {i}{j}", a, b)


@R.case(name="wave_equation")
def wave(h):
    """normal incidence, symmetric tensor: D^2 acts on (Ex, Ey) as the transverse tensor"""
    S4 = h.mod("elli.solver4x4").Solver4x4
    e = tensor(h, "a", sym=True)
    D = S4.build_delta_matrix(h.arr([0.0]), h.arr([e]))[0]
    D2 = h.np.matmul(D, D)
    for i in (0, 1):
        for j in (0, 1):
            h.eq(f"E{i}{j}", D2[i, j], e[i][j] - e[i][2] * e[2][j] / e[2][2])
            h.eq(f"EH{i}{j}", D2[i, j + 2], 0)


def recorder(h, log):
    P = h.mod("elli.solver4x4").Propagator

    class Rec(P):
        def calculate_propagation(self, delta, thickness, lbda):
            log.append((delta, thickness, lbda))
            return h.arr([[[1 if i == j else 0 for j in range(4)] for i in range(4)]] * len(lbda))

    return Rec()


@R.case(name="in_the_solver", opts={"timeout": 120})
def insolver(h):
    """the layer matrices the solver hands to its propagator: every layer, its own tensor, K = n0 sin(theta)"""
    E = h.elli
    f = Front(h)
    b = f.medium("t", "real")
    g, t = h.angle("phi"), h.angle("tilt")
    eps = [[h.cplx(f"e{k}{i}") for i in range(3)] for k in (0, 1)]
    mats = []
    for k in (0, 1):
        m = E.BiaxialMaterial(*[eps_disp(h, [eps[k][i], eps[1 - k][i]]) for i in range(3)])
        mats.append(m)
    mats[0].set_rotation(E.rotation_euler(h.deg(g), h.deg(t), 30))
    d = [h.real("d0", lo=0), h.real("d1", lo=0)]
    log = []
    S4 = h.mod("elli.solver4x4").Solver4x4
    st = E.Structure(iso(h, f), [E.Layer(m, x) for m, x in zip(mats, d)], iso(h, b))
    lb = h.arr([400.0, 500.0])
    st.evaluate(lb, f.deg, solver=S4, propagator=recorder(h, log))
    h.same("layers", len(log), 2)
    for (D, x, l), m, dd in zip(log[::-1], mats, d):
        h.eq("step", x * x, dd * dd)
        h.eq("wavelengths", l, [400.0, 500.0])
        T = m.get_tensor(lb)
        h.same("shape", tuple(D.shape), (2, 4, 4))
        for k in (0, 1):
            for j, v in enumerate(UNIT):
                h.eq(f"field {j} at {k}", D[k, :, j], maxwell(f.K, T[k], *v))
