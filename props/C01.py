"""C01 rotations: proper, orthonormal, right-handed, documented axes/inverses/composition."""
from symx.harness import Registry

R = Registry()
BOUNDS = "all real angles; all axes on the unit sphere except its south pole; 3x3 matrices; rotation vectors of up to 4001 quarter turns (given multiples), down to pi/2^20"
OUTSIDE = "floating point rounding; the axis (0,0,-1) (excluded by the stereographic parametrisation) is a separate case"


def unit_vec(h, n):
    a, b = h.real(n + "a"), h.real(n + "b")
    d = 1 + a * a + b * b
    return [2 * a / d, 2 * b / d, (1 - a * a - b * b) / d]


def Rz(h, t):
    c, s = h.np.cos(t), h.np.sin(t)
    return h.arr([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def Rx(h, t):
    c, s = h.np.cos(t), h.np.sin(t)
    return h.arr([[1, 0, 0], [0, c, -s], [0, s, c]])


def det3(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def proper(h, nm, M):
    h.eq(nm + " orthonormal", M @ M.T, I3)
    h.eq(nm + " orthonormal cols", M.T @ M, I3)
    h.eq(nm + " det", det3(M), 1)


@R.case()
def euler(h):
    ut = h.mod("elli.utils")
    p, n, r = h.angle("p"), h.angle("n"), h.angle("r")
    M = ut.rotation_euler(h.deg(p), h.deg(n), h.deg(r))
    h.same("shape", M.shape, (3, 3))
    proper(h, "euler", M)
    h.eq("z x' z' composition", M, Rz(h, p) @ Rx(h, n) @ Rz(h, r))
    h.eq("documented inverse", ut.rotation_euler(h.deg(-r), h.deg(-n), h.deg(-p)), M.T)
    h.eq("second call", ut.rotation_euler(h.deg(p), h.deg(n), h.deg(r)), M)


@R.case()
def euler_special(h):
    ut = h.mod("elli.utils")
    p, r = h.angle("p"), h.angle("r")
    h.eq("about z only", ut.rotation_euler(h.deg(p), 0, 0), Rz(h, p))
    h.eq("about x only", ut.rotation_euler(0, h.deg(p), 0), Rx(h, p))
    h.eq("third angle about z", ut.rotation_euler(0, 0, h.deg(p)), Rz(h, p))
    h.eq("additive without nutation", ut.rotation_euler(h.deg(p), 0, h.deg(r)), Rz(h, p + r))
    h.eq("identity", ut.rotation_euler(0, 0, 0), I3)
    h.eq("360 deg periodic", ut.rotation_euler(h.deg(p) + 360, h.deg(r) - 360, 720), ut.rotation_euler(h.deg(p), h.deg(r), 0))


@R.case()
def v_theta(h):
    ut = h.mod("elli.utils")
    v = unit_vec(h, "v")
    t, u = h.angle("t"), h.angle("u")
    M = ut.rotation_v_theta(h.arr(v), h.deg(t))
    proper(h, "v_theta", M)
    h.eq("axis fixed", M @ h.arr(v), v)
    w = [h.real("w0"), h.real("w1"), h.real("w2")]
    vw = v[0] * w[0] + v[1] * w[1] + v[2] * w[2]
    perp = [w[i] - vw * v[i] for i in range(3)]
    cr = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
    c, s = h.np.cos(t), h.np.sin(t)
    h.eq("Rodrigues right-handed", M @ h.arr(w), [vw * v[i] + c * perp[i] + s * cr[i] for i in range(3)])
    h.eq("documented inverse", ut.rotation_v_theta(h.arr(v), h.deg(-t)), M.T)
    h.eq("additive", M @ ut.rotation_v_theta(h.arr(v), h.deg(u)), ut.rotation_v_theta(h.arr(v), h.deg(t + u)))
    h.eq("list argument", ut.rotation_v_theta(v, h.deg(t)), M)


@R.case()
def v_theta_axes(h):
    ut = h.mod("elli.utils")
    t = h.angle("t")
    h.eq("about z", ut.rotation_v_theta(ut.E_Z, h.deg(t)), Rz(h, t))
    h.eq("about x", ut.rotation_v_theta(ut.E_X, h.deg(t)), Rx(h, t))
    h.eq("about y", ut.rotation_v_theta(ut.E_Y, h.deg(t)), ut.rotation_euler(90, h.deg(t), -90))
    h.eq("about -z", ut.rotation_v_theta([0, 0, -1], h.deg(t)), Rz(h, -t))
    h.eq("vector form x", ut.rotation_v([t, 0, 0]), Rx(h, t))
    h.eq("vector form -z", ut.rotation_v([0, 0, -t]), Rz(h, -t))


@R.case()
def v_vector(h):
    ut = h.mod("elli.utils")
    v = unit_vec(h, "v")
    t = h.angle("t")
    V = h.arr([t * x for x in v])
    M = ut.rotation_v(V)
    proper(h, "rotation_v", M)
    h.eq("vector = axis/angle", M, ut.rotation_v_theta(h.arr(v), h.deg(t)))
    h.eq("documented inverse", ut.rotation_v(-V), M.T)


@R.case()
def v_long(h):
    """vectors of more than a full turn, by given multiples of a quarter turn about any axis"""
    ut = h.mod("elli.utils")
    v = unit_vec(h, "v")
    for q in (3, 5, 7, 9, 10, 50, 4001):
        V = h.arr([q * h.np.pi / 2 * x for x in v])
        h.eq(f"{q} quarter turns", ut.rotation_v(V), ut.rotation_v_theta(h.arr(v), 90 * (q % 4)))
        h.eq(f"{q} quarter turns back", ut.rotation_v(-V), ut.rotation_v_theta(h.arr(v), -90 * (q % 4)))
        h.eq(f"{90 * q} deg", ut.rotation_v_theta(h.arr(v), 90 * q), ut.rotation_v_theta(h.arr(v), 90 * (q % 4)))
        h.eq(f"{90 * q} deg about z", ut.rotation_euler(90 * q, 0, -90 * q), I3)
        h.eq(f"{90 * q} deg about x", ut.rotation_euler(0, 90 * q, 0), Rx(h, (q % 4) * h.np.pi / 2))


@R.case()
def v_short(h):
    """vectors of small angles: the rotation is exact, no expansion"""
    ut = h.mod("elli.utils")
    v = unit_vec(h, "v")
    for q in (8, 64, 4096, 2 ** 20):
        h.eq(f"pi/{q}", ut.rotation_v(h.arr([h.np.pi * x / q for x in v])), ut.rotation_v_theta(h.arr(v), 180 / q))
