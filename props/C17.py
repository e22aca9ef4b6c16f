"""C17 circular Jones matrices"""
from symx.harness import Registry
from .common import jones, make_result

R = Registry()
BOUNDS = "1, 2 and 20 wavelengths; all complex Jones matrices, all incident circular amplitudes, symbolic power factor"
OUTSIDE = "longer wavelength arrays (elementwise code)"


def circ(h, aL, aR, sign=1):
    """linear amplitudes (Ep, Es) of aL L + aR R; sign=-1 for the reflected (reversed) direction"""
    i = 1j
    s2 = h.sqrt(2)
    if sign > 0:
        return (aL + aR) / s2, (i * aL - i * aR) / s2
    return -(aL + aR) / s2, (-i * aL + i * aR) / s2


@R.case(n=1)
@R.case(n=20)
@R.case(n=2)
def basis(h, n):
    jr, jt = jones(h, "r", n), jones(h, "t", n)
    res = make_result(h, jr, jt)
    rc, tc = res.jones_matrix_rc, res.jones_matrix_tc
    h.same("shape r", rc.shape, (n, 2, 2))
    h.same("shape t", tc.shape, (n, 2, 2))
    aL, aR = h.cplx("aL"), h.cplx("aR")
    for k in range(n):
        x, y = circ(h, aL, aR)
        for nm, m, mc, sg in (("r", jr[k], rc[k], -1), ("t", jt[k], tc[k], 1)):
            lin = (m[0][0] * x + m[0][1] * y, m[1][0] * x + m[1][1] * y)
            o = (mc[0, 0] * aL + mc[0, 1] * aR, mc[1, 0] * aL + mc[1, 1] * aR)
            back = circ(h, *o, sign=sg)
            h.eq("same field " + nm, list(back), list(lin))
            pw = lambda u: h.np.real(u[0] * h.conj(u[0]) + u[1] * h.conj(u[1]))
            h.eq("power " + nm, pw(o), pw(lin))
    h.eq("linear matrices untouched", res.jones_matrix_r, jr)
    h.eq("linear matrices untouched t", res.jones_matrix_t, jt)


@R.case()
def powers(h):
    jr, jt = jones(h, "r", 2), jones(h, "t", 2)
    pc = [h.real("pc0", positive=True), h.real("pc1", positive=True)]
    res = make_result(h, jr, jt, power=pc)
    rc, tc = res.jones_matrix_rc, res.jones_matrix_tc
    sq = lambda z: h.np.real(z * h.conj(z))
    h.eq("Rc", res.Rc_matrix, [[[sq(rc[k, i, j]) for j in (0, 1)] for i in (0, 1)] for k in (0, 1)])
    h.eq("Tc", res.Tc_matrix, [[[sq(tc[k, i, j]) * pc[k] for j in (0, 1)] for i in (0, 1)] for k in (0, 1)])
    # total power for unpolarised light is basis independent
    for k in (0, 1):
        h.eq("R total", sum(res.Rc_matrix[k, i, j] for i in (0, 1) for j in (0, 1)), sum(sq(jr[k][i][j]) for i in (0, 1) for j in (0, 1)))
        h.eq("T total", sum(res.Tc_matrix[k, i, j] for i in (0, 1) for j in (0, 1)), pc[k] * sum(sq(jt[k][i][j]) for i in (0, 1) for j in (0, 1)))


@R.case()
def power_linear(h):
    jr, jt = jones(h, "r", 2), jones(h, "t", 2)
    pc = [h.real("pc0", positive=True), h.real("pc1", positive=True)]
    res = make_result(h, jr, jt, power=pc)
    sq = lambda z: h.np.real(z * h.conj(z))
    h.eq("R", res.R_matrix, [[[sq(jr[k][i][j]) for j in (0, 1)] for i in (0, 1)] for k in (0, 1)])
    h.eq("T", res.T_matrix, [[[sq(jt[k][i][j]) * pc[k] for j in (0, 1)] for i in (0, 1)] for k in (0, 1)])
    h.eq("R unpolarised", res.R, [(sq(jr[k][0][0]) + sq(jr[k][1][1])) / 2 for k in (0, 1)])
    h.eq("T unpolarised", res.T, [pc[k] * (sq(jt[k][0][0]) + sq(jt[k][1][1])) / 2 for k in (0, 1)])


@R.case()
def mirror(h):
    """p and s amplitudes of a mirror at normal incidence are opposite here: handedness is swapped"""
    r, t = h.cplx("r"), h.cplx("t")
    res = make_result(h, [[[-r, 0], [0, r]]], [[[t, 0], [0, t]]])
    rc, tc = res.jones_matrix_rc[0], res.jones_matrix_tc[0]
    h.eq("no LL", rc[0, 0], 0)
    h.eq("no RR", rc[1, 1], 0)
    sq = lambda z: h.np.real(z * h.conj(z))
    h.eq("LR", sq(rc[0, 1]), sq(r))
    h.eq("RL", sq(rc[1, 0]), sq(r))
    h.eq("t keeps", tc, [[t, 0], [0, t]])
