"""C39 stacks of arbitrary anisotropic layers: the 4x4 result solves the boundary problem."""
from symx.harness import Registry
from .common import user_material
from .stack import Front, eps_disp, iso
from .C11 import maxwell

R = Registry()
BOUNDS = ("1 to 3 layers with arbitrary complex tensors (one and two wavelengths, all angles, front indices, thicknesses), stacks of up to 24 layers of given generally oriented tensors, "
          "repetitions and graded members; lossless, absorbing and evanescent isotropic exit media; the linear propagator and user-defined ones (second order, and one that returns any 4x4 matrix)")
OUTSIDE = "exponentials of generally oriented tensors (C12 decides the propagators themselves); anisotropic exit media (C13); rounding"

IN, OUT = {"p": 0, "s": 1}, {"p": 0, "s": 1}


def wave(m, pol, back=False):
    """(Ex, Ey, Hx, Hy) of the unit wave of a polarisation in an isotropic medium"""
    if pol == "s":
        return [0, 1, m.q if back else -m.q, 0]
    return [-m.c if back else m.c, 0, 0, m.n]


def lin(*terms):
    return [sum(c * v[i] for c, v in terms) for i in range(4)]


def step(h, K, e, d, lb, v, order=1):
    """fields at the front side of a layer from the fields v at its rear side"""
    a = -1j * d * (2 * h.np.pi / lb)
    u = lin((1, v), (a, maxwell(K, e, *v)))
    if order == 2:
        w = maxwell(K, e, *maxwell(K, e, *v))
        u = lin((1, u), (a * a / 2, w))
    return u


def propagator(h, kind):
    S4 = h.mod("elli.solver4x4")
    if kind == "linear":
        return S4.PropagatorLinear()

    class Second(S4.Propagator):
        def calculate_propagation(self, delta, thickness, lbda):
            a = h.np.einsum("nij,n->nij", delta, 2j * thickness * h.np.pi / lbda)
            return h.np.identity(4) + a + a @ a / 2

    return Second()


def run(h, f, layers, b, lbs, prop, back=None):
    E = h.elli
    st = E.Structure(iso(h, f), layers, back or iso(h, b))
    return st.evaluate(h.arr(lbs), f.deg, solver=h.mod("elli.solver4x4").Solver4x4, propagator=prop)


def boundary(h, r, k, f, b, chain, name=""):
    """the fields of the incident and reflected waves are those of the transmitted wave carried through the layers"""
    for pin in ("p", "s"):
        rr = [r.jones_matrix_r[k][o, IN[pin]] for o in (0, 1)]
        tt = [r.jones_matrix_t[k][o, IN[pin]] for o in (0, 1)]
        left = lin((1, wave(f, pin)), (rr[0], wave(f, "p", True)), (rr[1], wave(f, "s", True)))
        right = chain(lin((tt[0], wave(b, "p")), (tt[1], wave(b, "s"))))
        h.eq(f"{name}{pin} incident {k}", left, right)


def matt(h, ts):
    return user_material(h, lambda lbda: h.arr(ts[: len(h.np.atleast_1d(lbda))]))


def full(h, tag, sym=False):
    e = [[None] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            e[i][j] = e[j][i] if sym and j < i else h.cplx(f"{tag}{i}{j}", sample=(1.5, 3.0) if i == j else (0.1, 0.5))
    return e


def few(h, tag):
    """one tilted and one given element"""
    return sym3(2.25, 2.5, 2, 0.25, h.cplx(tag + "xz"), 0)


SIZE = {"full": full, "few": few}


def back(h, f, kind):
    b = f.medium("t", kind)
    if kind == "total":
        h.assume(h.np.imag(b.q) > 1e-9)
    return b


def chain(h, K, es, ds, lb, order=1):
    def go(v):
        for e, d in zip(reversed(es), reversed(ds)):
            v = step(h, K, e, d, lb, v, order)
        return v
    return go


for kind in ("real", "abs", "total"):
    @R.case(name="one_layer", kind=kind)
    def one(h, kind):
        f = Front(h)
        b = back(h, f, kind)
        e, d, lb = full(h, "e"), h.real("d", lo=0, sample=(1.0, 50.0)), h.real("l", positive=True, sample=(300.0, 900.0))
        r = run(h, f, [h.elli.Layer(matt(h, [e]), d)], b, [lb], propagator(h, "linear"))
        h.same("shapes", (tuple(r.jones_matrix_r.shape), tuple(r.jones_matrix_t.shape)), ((1, 2, 2), (1, 2, 2)))
        boundary(h, r, 0, f, b, chain(h, f.K, [e], [d], lb))


def sym3(xx, yy, zz, xy=0, xz=0, yz=0):
    return [[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]


# generally oriented (and gyrotropic) tensors with short binary fractions
GIVEN = [
    lambda h: sym3(2.25, 2.5, 2, 0.25, 0.125, -0.25),
    lambda h: sym3(3, 2.5 + 0.25j, 2.75, -0.5, 0.25, 0.5j),
    lambda h: [[2.5, 0.25j, 0.125], [-0.25j, 2.25, 0.5j], [0.125, -0.5j, 4]],
    lambda h: sym3(4, 1.5, 2.5, 0.5, -0.25 + 0.125j, 0.375),
    lambda h: sym3(2, 2, 2.5, 0, 0.5, 0.25),
    lambda h: sym3(-3 + 1j, 2.25, 3.5, 0.125, -0.5, 0.125),
]


def given(h, i):
    return GIVEN[i % len(GIVEN)](h)


def thick(h, name):
    return h.real(name, lo=0, sample=(1.0, 50.0))


class Given(Front):
    """a given angle of incidence arctan(3/4) from a given index"""

    def __init__(self, h, n=1.5):
        self.h, self.normal = h, False
        self.theta = h.np.arctan(h.const(0.75))
        self.s, self.c = h.np.sin(self.theta), h.np.cos(self.theta)
        self.n = h.const(n)
        self.K, self.q, self.eps = self.n * self.s, self.n * self.c, self.n * self.n
        h.hint(self.n, self.q)


POS = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}
for first in ("any", "given"):
    for g in range(3):
        @R.case(name="two", first=first, g=g, size="full", quick=False)
        @R.case(name="two", first=first, g=g, size="few", quick=g < 2)
        def two(h, first, g, size):
            f = Front(h) if size == "full" else Given(h)
            b = back(h, f, "real")
            es = [SIZE[size](h, "a"), given(h, g)]
            if first == "given":
                es.reverse()
            ds, lb = [thick(h, "d0"), thick(h, "d1")], 600.0
            r = run(h, f, [h.elli.Layer(matt(h, [e]), d) for e, d in zip(es, ds)], b, [lb], propagator(h, "linear"))
            boundary(h, r, 0, f, b, chain(h, f.K, es, ds, lb))


for u in POS:
    for v in POS:
        @R.case(name="three", first=u, last=v, angle="any", quick=(u, v) == ("xy", "yz"))
        @R.case(name="three", first=u, last=v, angle="given", quick=u != v)
        def three(h, first, last, angle):
            """tilted about different axes, in this order"""
            f = Front(h) if angle == "any" else Given(h)
            b = back(h, f, "real")
            x, y = h.cplx("x"), h.cplx("y")
            es = [sym3(2.25, 2.5, 2, **{first: x}), given(h, 0), sym3(3, 2, 2.5, **{last: y})]
            ds = [20, thick(h, "d1"), 30]
            r = run(h, f, [h.elli.Layer(matt(h, [e]), d) for e, d in zip(es, ds)], b, [600.0], propagator(h, "linear"))
            boundary(h, r, 0, f, b, chain(h, f.K, es, ds, 600.0))


@R.case(name="normal_incidence")
def normal(h):
    f = Front(h, normal=True)
    b = back(h, f, "abs")
    e, d, lb = full(h, "e"), thick(h, "d"), h.real("l", positive=True, sample=(300.0, 900.0))
    r = run(h, f, [h.elli.Layer(matt(h, [e]), d)], b, [lb], propagator(h, "linear"))
    boundary(h, r, 0, f, b, chain(h, 0, [e], [d], lb))


@R.case(name="bare", kind="real")
@R.case(name="bare", kind="abs")
@R.case(name="bare", kind="total")
def bare(h, kind):
    f = Front(h)
    b = back(h, f, kind)
    r = run(h, f, [], b, [600.0], propagator(h, "linear"))
    boundary(h, r, 0, f, b, lambda v: v)


def second_front(h, f, n):
    g = object.__new__(Front)
    g.h, g.normal, g.theta, g.s, g.c, g.n = h, False, f.theta, f.s, f.c, n
    g.K, g.q, g.eps = n * f.s, n * f.c, n * n
    h.hint(g.n, g.q)
    return g


@R.case(name="two_wavelengths")
def dispersive(h):
    """every medium different at the two wavelengths"""
    E = h.elli
    f = Front(h)
    n2 = h.real("n2", lo=0, sample=(1.0, 2.0))
    h.assume(n2 > 0)
    g = second_front(h, f, n2)
    b1 = f.medium("t", "real")
    b2 = g.medium("u", "abs")
    e1, e2 = full(h, "a"), full(h, "b")
    d, l1, l2 = thick(h, "d"), h.real("l1", positive=True, sample=(300.0, 900.0)), h.real("l2", positive=True, sample=(300.0, 900.0))
    front = E.IsotropicMaterial(eps_disp(h, [f.eps, g.eps]))
    rear = E.IsotropicMaterial(eps_disp(h, [b1.eps, b2.eps]))
    st = E.Structure(front, [E.Layer(matt(h, [e1, e2]), d)], rear)
    r = st.evaluate(h.arr([l1, l2]), f.deg, solver=h.mod("elli.solver4x4").Solver4x4, propagator=propagator(h, "linear"))
    h.same("shapes", (tuple(r.jones_matrix_r.shape), tuple(r.jones_matrix_t.shape)), ((2, 2, 2), (2, 2, 2)))
    boundary(h, r, 0, f, b1, chain(h, f.K, [e1], [d], l1))
    boundary(h, r, 1, g, b2, chain(h, g.K, [e2], [d], l2))


@R.case(name="second_order", kind="real", quick=False)
@R.case(name="second_order", kind="given")
@R.case(name="second_order", kind="abs", quick=False)
def second(h, kind):
    f = Given(h) if kind == "given" else Front(h)
    b = back(h, f, "abs" if kind == "abs" else "real")
    e, d = sym3(h.cplx("xx", sample=(1.5, 3.0)), 2.5, 2, h.cplx("xy"), 0.25, h.cplx("yz")), thick(h, "d")
    r = run(h, f, [h.elli.Layer(matt(h, [e]), d)], b, [600.0], propagator(h, "second"))
    boundary(h, r, 0, f, b, chain(h, f.K, [e], [d], 600.0, 2))


@R.case(name="any_matrix", kind="real")
@R.case(name="any_matrix", kind="abs")
@R.case(name="any_matrix", kind="total")
def anym(h, kind):
    S4 = h.mod("elli.solver4x4")
    M = [[h.cplx(f"m{i}{j}", sample=(0.5, 1.5) if i == j else (-0.3, 0.3)) for j in range(4)] for i in range(4)]
    f = Front(h)
    b = back(h, f, kind)
    e, d, lb = full(h, "e"), thick(h, "d"), 600.0
    seen = []

    class Any(S4.Propagator):
        def calculate_propagation(self, delta, thickness, lbda):
            seen.append((delta, thickness, lbda))
            return h.arr([M])

    r = run(h, f, [h.elli.Layer(matt(h, [e]), d)], b, [lb], Any())
    boundary(h, r, 0, f, b, lambda v: [sum(M[i][j] * v[j] for j in range(4)) for i in range(4)])
    for n, (D, t, l) in enumerate(seen):
        h.eq(f"thickness handed over {n}", t, -d)
        h.eq(f"wavelengths handed over {n}", l, [lb])
        for j in range(4):
            h.eq(f"matrix handed over {n} {j}", D[0, :, j], maxwell(f.K, e, *[1 if i == j else 0 for i in range(4)]))


@R.case(name="long", n=8)
@R.case(name="long", n=24, quick=False)
def long(h, n):
    f = Given(h)
    b = back(h, f, "real")
    es = [given(h, i) for i in range(n)]
    ds = [thick(h, "d") if i == n // 3 else 8 * (i % 5 + 1) for i in range(n)]
    r = run(h, f, [h.elli.Layer(matt(h, [e]), d) for e, d in zip(es, ds)], b, [512.0], propagator(h, "linear"))
    boundary(h, r, 0, f, b, chain(h, f.K, es, ds, 512.0))


@R.case(name="repeated")
def repeated(h):
    E = h.elli
    f = Given(h)
    b = back(h, f, "real")
    x, d = h.real("x"), 16
    ea, eb, ec = sym3(2.25, 2.5, 2, 0.25, x, 0.125), given(h, 1), given(h, 3)
    rep = E.RepeatedLayers([E.Layer(matt(h, [ea]), d), E.Layer(matt(h, [eb]), 24)], 2, before=1, after=1)
    r = run(h, f, [E.Layer(matt(h, [ec]), 40), rep], b, [512.0], propagator(h, "linear"))
    es, ds = [ec, eb, ea, eb, ea, eb, ea], [40, 24, d, 24, d, 24, d]
    boundary(h, r, 0, f, b, chain(h, f.K, es, ds, 512.0))


def signs(e, m):
    """reflect the tensor: m = (+-1, +-1, +-1)"""
    return [[e[i][j] * m[i] * m[j] for j in range(3)] for i in range(3)]


@R.case(name="mirror", size="full", quick=False)
@R.case(name="mirror", size="few")
def mirror(h, size):
    """y -> -y: the conversions change sign, everything else stays"""
    g = given(h, 1)
    f = Front(h) if size == "full" else Given(h)
    b = back(h, f, "real")
    es, d = [SIZE[size](h, "a"), g], thick(h, "d")
    lb = 600.0
    rs = []
    for m in ((1, 1, 1), (1, -1, 1)):
        rs.append(run(h, f, [h.elli.Layer(matt(h, [signs(e, m)]), t) for e, t in zip(es, (d, 20))], b, [lb], propagator(h, "linear")))
    for n in ("jones_matrix_r", "jones_matrix_t"):
        p, q = (getattr(r, n)[0] for r in rs)
        h.eq(n, q, [[p[0, 0], -p[0, 1]], [-p[1, 0], p[1, 1]]])


@R.case(name="turned")
def turned(h):
    """normal incidence: turning the stack by 180 degrees about its normal changes nothing; by 90 exchanges x and y"""
    f = Front(h, normal=True)
    b = back(h, f, "real")
    e, d, lb = full(h, "e"), thick(h, "d"), 600.0
    half = signs(e, (-1, -1, 1))
    q = [[0, -1, 0], [1, 0, 0], [0, 0, 1]]
    quarter = [[sum(q[i][a] * e[a][c] * q[j][c] for a in range(3) for c in range(3)) for j in range(3)] for i in range(3)]
    res = [run(h, f, [h.elli.Layer(matt(h, [t]), d)], b, [lb], propagator(h, "linear")) for t in (e, half, quarter)]
    for n in ("jones_matrix_r", "jones_matrix_t"):
        r0, r1, r2 = (getattr(r, n)[0] for r in res)
        h.eq("half " + n, r1, r0)
        # x -> y, y -> -x for the fields; the reflected p axis is reversed
        s = -1 if n.endswith("r") else 1
        h.eq("quarter " + n, r2, [[s * r0[1, 1], -s * r0[1, 0] * 1], [-r0[0, 1] * s, s * r0[0, 0]]])


@R.case(name="power", kind="real")
@R.case(name="power", kind="total")
def power(h, kind):
    """reflectances and transmittances of an isotropic exit: |r|^2 and |t|^2 times the ratio of the normal wave numbers"""
    f = Given(h) if kind == "real" else Front(h)
    b = back(h, f, kind)
    e, d = sym3(2.25, h.real("yy", sample=(1.5, 3.0)), 2, h.real("xy", sample=(-0.5, 0.5)), 0.25, -0.5), 40
    r = run(h, f, [h.elli.Layer(matt(h, [e]), d)], b, [600.0], propagator(h, "linear"))
    ratio = h.np.real(b.q) / f.q
    for i, pi in enumerate("ps"):
        for j, pj in enumerate("ps"):
            x, y = r.jones_matrix_r[0][i, j], r.jones_matrix_t[0][i, j]
            h.eq(f"R {pi}{pj}", r.R_matrix[0][i, j], h.np.real(x * h.conj(x)))
            h.eq(f"T {pi}{pj}", r.T_matrix[0][i, j], h.np.real(y * h.conj(y)) * ratio)


@R.case(name="again", size="full", quick=False)
@R.case(name="again", size="few")
def again(h, size):
    """evaluating an experiment again, or the same layer objects in another structure, gives the same"""
    E = h.elli
    S4 = h.mod("elli.solver4x4")
    g = given(h, 1)
    f = Front(h) if size == "full" else Given(h)
    b = back(h, f, "real")
    e, d = SIZE[size](h, "e"), thick(h, "d")
    la, lc = E.Layer(matt(h, [e]), d), E.Layer(matt(h, [g]), 20)
    p = propagator(h, "linear")
    r = [run(h, f, ls, b, [600.0], p) for ls in ([la, lc], [lc, la], [la, lc])]
    h.eq("r", r[2].jones_matrix_r, r[0].jones_matrix_r)
    h.eq("t", r[2].jones_matrix_t, r[0].jones_matrix_t)
    boundary(h, r[2], 0, f, b, chain(h, f.K, [e, g], [d, 20], 600.0))
    boundary(h, r[1], 0, f, b, chain(h, f.K, [g, e], [20, d], 600.0), "swapped ")


for m in ("++-", "+-+", "-++"):
    @R.case(name="alike", m=m)
    def alike(h, m):
        """equally thick layers of one crystal in mirrored orientations, and unequally thick ones in one orientation"""
        m = [1 if k == "+" else -1 for k in m]
        f = Given(h)
        b = back(h, f, "real")
        e = sym3(2.25, 2.5, 2, 0.25, h.cplx("xz"), 0.5)
        es, ds = [e, signs(e, m), signs(e, m), e], [32, 32, 16, 16]
        r = run(h, f, [h.elli.Layer(matt(h, [t]), d) for t, d in zip(es, ds)], b, [512.0], propagator(h, "linear"))
        boundary(h, r, 0, f, b, chain(h, f.K, es, ds, 512.0))
