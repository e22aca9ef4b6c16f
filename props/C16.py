"""C16 Mueller matrix describes the same polarisation change as the Jones matrix"""
from symx.harness import Registry
from .common import jones, make_result

R = Registry()
BOUNDS = "1, 2 and 20 wavelengths; all complex Jones matrices with non-zero ss element and all complex incident Jones vectors; Stokes vectors taken from the package's own conversion of Jones vectors"
OUTSIDE = "vanishing ss element; longer wavelength arrays"


def stokes(h, ex, ey):
    c = h.conj
    xy = ex * c(ey)
    return [h.np.real(ex * c(ex) + ey * c(ey)), h.np.real(ex * c(ex) - ey * c(ey)), 2 * h.np.real(xy), 2 * h.np.imag(xy)]


def out(m, v):
    return m[0][0] * v[0] + m[0][1] * v[1], m[1][0] * v[0] + m[1][1] * v[1]


def norm2(h, m):
    return sum(h.np.real(m[i][j] * h.conj(m[i][j])) for i in (0, 1) for j in (0, 1)) / 2


@R.case(n=1)
@R.case(n=20)
@R.case(n=2)
def maps_stokes(h, n):
    jr = jones(h, "r", n)
    for m in jr:
        h.assume(m[1][1] != 0)
    v = [h.cplx("jx"), h.cplx("jy")]
    mm = make_result(h, jr, jones(h, "t", n)).mueller_matrix
    s = stokes(h, *v)
    for k in range(n):
        got = [sum(mm[k, i, j] * s[j] for j in range(4)) for i in range(4)]
        want = stokes(h, *out(jr[k], v))
        f = norm2(h, jr[k])
        for i in range(4):
            h.eq(f"S{i}", got[i] * f, want[i])
        h.eq("M11", mm[k, 0, 0], 1)


@R.case()
def package_convention(h):
    """the Stokes vectors are the ones Experiment reports for the Jones vectors"""
    E = h.elli
    jr = jones(h, "r", 1)
    h.assume(jr[0][1][1] != 0)
    v = [h.cplx("jx"), h.cplx("jy")]
    res = make_result(h, jr, jr, h.arr(v))
    s = res.experiment.stokes_vector
    h.eq("incident", s, stokes(h, *v))
    o = out(jr[0], v)
    air = E.IsotropicMaterial(h.elli.ConstantRefractiveIndex(1))
    s2 = E.Experiment(E.Structure(air, [], air), 500.0, 0.0, h.arr(list(o))).stokes_vector
    mm = res.mueller_matrix[0]
    f = norm2(h, jr[0])
    h.eq("mapped", [sum(mm[i, j] * s[j] for j in range(4)) * f for i in range(4)], s2)


@R.case()
def nondepolarising(h):
    jr = jones(h, "r", 1)
    h.assume(jr[0][1][1] != 0)
    mm = make_result(h, jr, jr).mueller_matrix
    h.same("shape", mm.shape, (1, 4, 4))
    h.eq("real", h.np.imag(mm), [[[0] * 4] * 4])
    h.eq("tr(M^T M) = 4", sum(mm[0, i, j] ** 2 for i in range(4) for j in range(4)), 4)


@R.case()
def isotropic_block(h):
    p, s = h.cplx("rp"), h.cplx("rs")
    h.assume(s != 0)
    jr = [[[p, 0], [0, s]]]
    mm = make_result(h, jr, jr).mueller_matrix[0]
    a, b = h.np.real(p * h.conj(p)), h.np.real(s * h.conj(s))
    x = p * h.conj(s)
    N, C, S = (b - a) / (a + b), 2 * h.np.real(x) / (a + b), -2 * h.np.imag(x) / (a + b)
    h.eq("block form", mm, [[1, -N, 0, 0], [-N, 1, 0, 0], [0, 0, C, S], [0, 0, -S, C]])


@R.case()
def isotropic_psi_delta(h):
    """C = sin 2psi cos delta, S = sin 2psi sin delta, N = cos 2psi"""
    p, s = h.cplx("rp"), h.cplx("rs")
    h.assume(s != 0)
    h.assume(p != 0)
    jr = [[[p, 0], [0, s]]]
    r = make_result(h, jr, jr, h.arr([1, 1]))
    mm = r.mueller_matrix[0]
    ps, de = h.np.deg2rad(r.psi[0]), h.np.deg2rad(r.delta[0])
    h.eq("N", mm[0, 1], -h.np.cos(2 * ps))
    h.eq("C", mm[2, 2], h.np.sin(2 * ps) * h.np.cos(de))
    h.eq("S", mm[2, 3], h.np.sin(2 * ps) * h.np.sin(de))
