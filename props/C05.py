"""C05 Jones and Stokes descriptions of the incident light."""
import importlib

from symx.harness import Registry

R = Registry()
BOUNDS = ("all complex Jones vectors and all real Stokes vectors with a polarised part (exact arithmetic); finiteness of the conversion with IEEE-754 "
          "rounding in a format with 5 exponent and 6 significand bits (thorough: 8 and 8, bfloat16) for all Stokes components zero or of magnitude 2^-3..2^3")
OUTSIDE = "the unpolarised vector [1,0,0,0] (no Jones vector exists); rounding in wider formats, underflow and overflow of squared components"


def exp_for(h, vector=None, lbda=500.0, theta=0.0, pos=True):
    E = h.elli
    air = E.IsotropicMaterial(E.ConstantRefractiveIndex(1))
    st = E.Structure(air, [], air)
    if vector is None and not pos:
        return E.Experiment(st, lbda, theta)
    return E.Experiment(st, lbda, theta, vector)


def documented(h, x, y):
    c = h.conj
    w = x * c(y)
    return [h.np.real(x * c(x)) + h.np.real(y * c(y)), h.np.real(x * c(x)) - h.np.real(y * c(y)), 2 * h.np.real(w), 2 * h.np.imag(w)]


@R.case()
def jones_to_stokes(h):
    x, y = h.cplx("jx"), h.cplx("jy")
    v = h.arr([x, y])
    e = exp_for(h, v)
    h.eq("jones kept", e.jones_vector, [x, y])
    h.eq("stokes", e.stokes_vector, documented(h, x, y))
    h.eq("input kept", v, [x, y])
    e2 = exp_for(h, [x, y])
    h.eq("list input", e2.jones_vector, [x, y])
    h.eq("list input stokes", e2.stokes_vector, documented(h, x, y))


@R.case()
def jones_to_stokes_real(h):
    x, y = h.real("x"), h.real("y")
    e = exp_for(h, h.arr([x, y]))
    h.eq("stokes", e.stokes_vector, [x * x + y * y, x * x - y * y, 2 * x * y, 0])


def check_stokes(h, s):
    v = h.arr(s)
    e = exp_for(h, v)
    h.eq("stokes kept", e.stokes_vector, s)
    h.eq("input kept", v, s)
    j = e.jones_vector
    h.same("shape", tuple(j.shape), (2,))
    d = documented(h, j[0], j[1])
    h.eq("unit", d[0], 1)
    p = h.real("p", lo=0, sample=(0.1, 3)) if False else None
    # (d1,d2,d3) is parallel to (s1,s2,s3), same direction, unit length
    for a, b in ((1, 2), (1, 3), (2, 3)):
        h.eq(f"parallel {a}{b}", d[a] * s[b], d[b] * s[a])
    h.true("same direction", d[1] * s[1] + d[2] * s[2] + d[3] * s[3] > 0)
    # the Jones vector describes the same state in the package's own Jones -> Stokes direction
    b = exp_for(h, j).stokes_vector
    h.eq("round trip", b, d)


@R.case(opts={"prove_timeout": 20000})
def stokes_to_jones(h):
    # polarised part (q, u, v) of length p, parametrised to stay polynomial
    p = h.real("p", lo=0, sample=(0.2, 2.0))
    h.assume(p > 0)
    a, b = h.real("a", sample=(-2, 2)), h.real("b", sample=(-2, 2))
    # stereographic coordinates from the vertical pole: all states except exact vertical
    n = 1 + a * a + b * b
    q, u, v = p * (1 - a * a - b * b) / n, 2 * p * a / n, 2 * p * b / n
    s0 = h.real("s0", lo=0, sample=(2.0, 4.0))
    h.assume(s0 >= p)
    h.hint(p)
    check_stokes(h, [s0, q, u, v])


@R.case()
def stokes_vertical(h):
    p = h.real("p", lo=0, sample=(0.2, 2.0))
    h.assume(p > 0)
    s0 = h.real("s0", lo=0, sample=(2.0, 4.0))
    h.assume(s0 >= p)
    h.hint(p)
    check_stokes(h, [s0, -p, 0 * p, 0 * p])


@R.case()
def stokes_of_jones(h):
    """Stokes vector computed from a Jones vector, given back: same state"""
    x, y = h.cplx("jx"), h.cplx("jy")
    h.assume(x != 0)
    s = documented(h, x, y)
    h.hint(s[0])
    e = exp_for(h, h.arr(s))
    j = e.jones_vector
    # parallel complex vectors
    h.eq("same state", j[0] * y, j[1] * x)
    h.eq("unit", documented(h, j[0], j[1])[0], 1)


@R.case()
def named_states(h):
    g = h.real("g", lo=0, sample=(0.3, 3))
    h.assume(g > 0)
    h.hint(g)
    r = h.sqrt(h.const(1) / 2)
    for nm, s, j in (("horizontal", [1, 1, 0, 0], [1, 0]), ("vertical", [1, -1, 0, 0], [0, 1]),
                     ("diagonal", [1, 0, 1, 0], [r, r]), ("anti", [1, 0, -1, 0], [r, -r]),
                     ("right", [1, 0, 0, 1], [r, -1j * r]), ("left", [1, 0, 0, -1], [r, 1j * r])):
        h.eq(nm, exp_for(h, h.arr([g * k for k in s])).jones_vector, j)
        h.eq(nm + " int", exp_for(h, s).jones_vector, j)
        h.eq(nm + " jones", exp_for(h, h.arr(j)).stokes_vector, s)


@R.case()
def default_and_scalars(h):
    E = h.elli
    t, l = h.real("theta", lo=0, hi=90), h.real("l", lo=100, hi=900)
    e = exp_for(h, None, l, t, pos=False)
    r = h.sqrt(h.const(1) / 2)
    h.eq("default jones", e.jones_vector, [r, r])
    h.eq("default stokes", e.stokes_vector, [1, 0, 1, 0])
    h.eq("theta", e.theta_i, t)
    h.same("scalar shape", tuple(e.lbda.shape), (1,))
    h.eq("scalar", e.lbda, [l])
    l2 = h.real("l2", lo=100, hi=900)
    for form in (lambda v: h.arr(v), list, tuple):
        e.set_lbda(form([l, l2]))
        h.same("array shape", tuple(e.lbda.shape), (2,))
        h.eq("array", e.lbda, [l, l2])
    e.set_theta(t / 2)
    h.eq("theta set", e.theta_i, t / 2)
    x, y = h.cplx("jx"), h.cplx("jy")
    e.set_vector(h.arr([x, y]))
    h.eq("vector set", e.jones_vector, [x, y])
    h.eq("vector set stokes", e.stokes_vector, documented(h, x, y))
    e.set_vector(None)
    h.eq("vector reset", e.jones_vector, [r, r])
    s = e.structure
    h.true("structure kept", s is e.structure)


@R.case(ebits=5, sbits=6, opts={"timeout": 200})
@R.case(ebits=8, sbits=8, quick=False, opts={"timeout": 800})
def stokes_rounding(h, ebits, sbits):
    """IEEE rounding: the Jones vector is finite and of bounded size (q must not be rounded below -1)"""
    names = ("s0", "s1", "s2", "s3")
    vals = {n: h.real(n, sample=(0.1, 1.0)) for n in names}
    if not h.sym:
        import numpy

        # the solver's small-format counterexample, in the real formats and scaled (other roundings)
        s = numpy.array([vals[n] for n in names])
        fin = bnd = True
        for k in range(1, 400):
            for t, e in ((numpy.float32, 1), (numpy.float32, 0), (numpy.float64, 1), (numpy.float64, 1e-5), (numpy.float64, 0)):
                w = (s * k / 397 * [1, 1, e, e]).astype(t)
                if not w[1:].any():
                    continue
                j = exp_for(h, w).jones_vector
                fin = fin and numpy.isfinite(j).all()
                bnd = bnd and (not numpy.isfinite(j).all() or (abs(j) <= 2).all())
        h.true("finite", fin)
        h.true("bounded", bnd)
        return
    from symx import fp
    import z3
    import numpy

    elli = importlib.import_module("elli")
    air = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(1))
    st = elli.Structure(air, [], air)

    def run(s0, s1, s2, s3):
        return elli.Experiment(st, 500.0, 0.0, numpy.array([s0, s1, s2, s3], dtype=object)).jones_vector

    def assume(v):
        c = [fp.within(v[n], 2.0 ** -3, 2.0 ** 3) for n in names]
        pol = z3.Or(*[z3.Not(z3.fpIsZero(v[n])) for n in names[1:]])
        return z3.And(*c, pol, z3.fpGEQ(v["s0"], fp._const(2.0 ** -3)), *[z3.fpGEQ(v["s0"], z3.fpAbs(v[n])) for n in names[1:]])

    def conclude(j):
        j = list(j)
        return [("finite", z3.And(*[fp.finite(x) for x in j])), ("bounded", z3.And(*[fp.bounded(x, 2.0) for x in j]))]

    h.fp_decide(run, names, (ebits, sbits), assume, conclude)
