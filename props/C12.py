"""C12 propagators evaluate the layer exponential."""
from symx.harness import Registry
from .stack import Front

R = Registry()
BOUNDS = "one and two wavelengths, all thicknesses (positive, zero, negative); layer matrices of isotropic, principal-axis biaxial (travelling/evanescent/absorbing) media at any wave number, in-plane rotated crystals at normal incidence, arbitrary diagonal (eigenvalue propagator: one order of the eigenvalues) and arbitrary square-zero 4x4 matrices; for the linear propagator arbitrary 4x4 matrices"
OUTSIDE = "coupled 4x4 matrices without block structure (exponential not expressible in closed form); accuracy of the numerical exponential; rounding; the eigenvalue propagator on defective matrices"


def prop(h, name):
    S4 = h.mod("elli.solver4x4")
    return {"eig": S4.PropagatorEig, "linear": S4.PropagatorLinear,
            "scipy": lambda: S4.PropagatorExpm(backend="scipy"), "torch": lambda: S4.PropagatorExpm(backend="torch"),
            "automatic": S4.PropagatorExpm}[name]()


def delta(h, f, kind, tag="", ordered=False):
    """list-of-lists layer matrix, built by the real code except for the synthetic kinds"""
    S4 = h.mod("elli.solver4x4").Solver4x4
    if kind == "diagonal":
        z = [h.cplx(f"z{tag}{i}") for i in range(4)]
        if ordered:    # one of the 24 orders of the eigenvalues, not the identity
            y = [h.np.imag(z[i]) for i in (1, 3, 0, 2)]
            for a, b in zip(y, y[1:]):
                h.assume(a > b)
        return [[z[i] if i == j else 0 for j in range(4)] for i in range(4)], 0
    if kind == "nilpotent":
        u = [h.cplx(f"u{tag}{i}") for i in range(4)]
        v = [h.cplx(f"v{tag}{i}") for i in range(3)]
        h.assume(h.np.real(u[3]) > 0)
        v.append(-(v[0] * u[0] + v[1] * u[1] + v[2] * u[2]) / u[3])
        return [[a * b for b in v] for a in u], 0
    if kind == "full":
        return [[h.cplx(f"m{tag}{i}{j}") for j in range(4)] for i in range(4)], 0
    K = f.K
    if kind == "biaxial":
        from .C08 import biaxial
        e = biaxial(h, f, "c" + tag, "rr")
        eps = [[e[0], 0, 0], [0, e[1], 0], [0, 0, e[2]]]
    elif kind == "rotated":
        a, c, z = (h.real(n + tag, positive=True, sample=(1.0, 2.0)) for n in ("na", "nb", "ez"))
        h.hint(a, c)
        g = h.angle("phi" + tag)
        co, si = h.np.cos(g), h.np.sin(g)
        eps = [[a * a * co * co + c * c * si * si, (a * a - c * c) * co * si, 0],
               [(a * a - c * c) * co * si, a * a * si * si + c * c * co * co, 0], [0, 0, z]]
        K = 0
    else:
        m = f.medium("m" + tag, kind)
        eps = [[m.eps if i == j else 0 for j in range(3)] for i in range(3)]
    D = S4.build_delta_matrix(h.arr([K]), h.arr([eps]))
    return [[D[0, i, j] for j in range(4)] for i in range(4)], K


def unit(n):
    return [[[1 if i == j else 0 for j in range(4)] for i in range(4)]] * n


def lam(h, n=1):
    out = []
    for i in range(n):
        l = h.real(f"lbda{i}", lo=0, sample=(300.0, 800.0))
        h.assume(l > 0)
        out.append(l)
    return out


KINDS = ("real", "abs", "total", "biaxial", "rotated", "diagonal", "nilpotent")
for p in ("scipy", "torch", "automatic", "eig"):
    for kind in KINDS:
        if p == "eig" and kind == "nilpotent":
            continue   # not diagonalisable
        quick = p in ("eig", "automatic") or kind in ("abs", "diagonal")

        @R.case(name="group", p=p, kind=kind, quick=quick, opts={"timeout": 200})
        def group(h, p, kind):
            f = Front(h)
            M, _ = delta(h, f, kind, ordered=p == "eig")
            D, lb = h.arr([M]), h.arr(lam(h))
            P = prop(h, p)
            d1, d2 = h.real("d1", sample=(-100.0, 100.0)), h.real("d2", sample=(-100.0, 100.0))
            go = lambda d: P.calculate_propagation(D, d, lb)
            h.eq("zero thickness", go(0), unit(1))
            a, b = go(d1), go(d2)
            h.same("shape", tuple(a.shape), (1, 4, 4))
            h.eq("sum", h.np.matmul(a, b), go(d1 + d2))
            h.eq("inverse", h.np.matmul(a, go(-d1)), unit(1))
            h.eq("matrix unchanged", D, [M])
            if kind == "diagonal":
                k0 = 2 * h.np.pi / lb[0]
                for i in range(4):
                    h.eq(f"exponential {i}", a[0, i, i], h.exp(1j * k0 * d1 * M[i][i]))
            if kind == "nilpotent":
                k0 = 2 * h.np.pi / lb[0]
                h.eq("exponential", a[0], [[(1 if i == j else 0) + 1j * k0 * d1 * M[i][j] for j in range(4)] for i in range(4)])
            c = h.real("scale", positive=True, sample=(0.5, 2.0))
            h.eq("thickness over wavelength", P.calculate_propagation(D, d1 * c, lb * c), a)

for kind in ("real", "abs", "total", "biaxial", "rotated", "diagonal"):
    @R.case(name="eig_equals_expm", kind=kind, quick=True, opts={"timeout": 200})
    def same(h, kind):
        f = Front(h)
        M, _ = delta(h, f, kind, ordered=True)
        D, lb = h.arr([M]), h.arr(lam(h))
        d = h.real("d", sample=(-100.0, 100.0))
        a = prop(h, "eig").calculate_propagation(D, d, lb)
        for q in ("scipy", "torch"):
            h.eq(q, prop(h, q).calculate_propagation(D, d, lb), a)


@R.case(name="linear")
def linear(h):
    (M, _), (N, _) = delta(h, None, "full", "a"), delta(h, None, "full", "b")
    l = lam(h, 2)
    d = h.real("d", sample=(-100.0, 100.0))
    P = prop(h, "linear")
    D = h.arr([M, N])
    a = P.calculate_propagation(D, d, h.arr(l))
    for k, m in enumerate((M, N)):
        k0 = 2 * h.np.pi / l[k]
        h.eq(f"first order {k}", a[k], [[(1 if i == j else 0) + 1j * k0 * d * m[i][j] for j in range(4)] for i in range(4)])
    h.eq("zero thickness", P.calculate_propagation(D, 0, h.arr(l)), unit(2))
    h.eq("matrix unchanged", D, [M, N])


for p in ("scipy", "torch", "automatic", "eig", "linear"):
    @R.case(name="wavelengths_apart", p=p)
    def apart(h, p):
        f = Front(h)
        M, _ = delta(h, f, "biaxial" if p != "linear" else "full", "a")
        N, _ = delta(h, f, "abs", "b")
        l = lam(h, 2)
        d = h.real("d", sample=(-100.0, 100.0))
        P = prop(h, p)
        a = P.calculate_propagation(h.arr([M, N]), d, h.arr(l))
        b = [P.calculate_propagation(h.arr([x]), d, h.arr([y]))[0] for x, y in ((M, l[0]), (N, l[1]))]
        h.eq("entries", a, b)


@R.case(name="backend_choice")
def backend(h):
    S4 = h.mod("elli.solver4x4")
    h.raises("unknown backend", ValueError, lambda: S4.PropagatorExpm(backend="numpy"))
