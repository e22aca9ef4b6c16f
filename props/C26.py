"""C26 Kramers-Kronig sums follow Maclaurin's formula."""
from symx.harness import Registry

R = Registry()
BOUNDS = "all real spectra, all starting points x0 > 0 (x0 >= 0 for the direct forms) and spacings h > 0, lengths 2 to 6 and 19 (thorough: also 11, 14 and 30); linearity and rejection of unequal lengths at lengths up to 4"
OUTSIDE = "unequally spaced or descending axes, spectra of one point, how well the sum approximates the integral"

KERNEL = {
    "im2re": lambda y, x, xi: x * y / (x * x - xi * xi),
    "re2im": lambda y, x, xi: xi * y / (x * x - xi * xi),
    # the same integrals after x -> 1/x, dx -> dx/x^2
    "im2re_reciprocal": lambda y, x, xi: y / (x * (1 - x * x / (xi * xi))),
    "re2im_reciprocal": lambda y, x, xi: y / (xi - x * x / xi),
}


def fn(h, name):
    return getattr(h.mod("elli.kkr"), name)


def axis(h, n, reciprocal=True):
    x0 = h.real("x0", positive=True, sample=(0.5, 2.0)) if reciprocal else h.real("x0", nonneg=True, sample=(0.0, 2.0))
    d = h.real("h", positive=True, sample=(0.1, 0.8))
    return [x0 + k * d for k in range(n)], d


def maclaurin(h, name, y, x, d):
    k = KERNEL[name]
    return [4 / h.np.pi * d * sum(k(y[j], x[j], x[i]) for j in range(len(x)) if (i + j) % 2) for i in range(len(x))]


@R.case(name="formula", which="im2re", n=2)
@R.case(name="formula", which="im2re", n=3)
@R.case(name="formula", which="im2re", n=4)
@R.case(name="formula", which="im2re", n=5)
@R.case(name="formula", which="im2re", n=6)
@R.case(name="formula", which="im2re", n=11, quick=False)
@R.case(name="formula", which="im2re", n=14, quick=False)
@R.case(name="formula", which="im2re", n=19)
@R.case(name="formula", which="im2re", n=30, quick=False)
@R.case(name="formula", which="re2im", n=2)
@R.case(name="formula", which="re2im", n=3)
@R.case(name="formula", which="re2im", n=4)
@R.case(name="formula", which="re2im", n=5)
@R.case(name="formula", which="re2im", n=6)
@R.case(name="formula", which="re2im", n=11, quick=False)
@R.case(name="formula", which="re2im", n=14, quick=False)
@R.case(name="formula", which="re2im", n=19)
@R.case(name="formula", which="re2im", n=30, quick=False)
@R.case(name="formula", which="im2re_reciprocal", n=2)
@R.case(name="formula", which="im2re_reciprocal", n=3)
@R.case(name="formula", which="im2re_reciprocal", n=4)
@R.case(name="formula", which="im2re_reciprocal", n=5)
@R.case(name="formula", which="im2re_reciprocal", n=6)
@R.case(name="formula", which="im2re_reciprocal", n=11, quick=False)
@R.case(name="formula", which="im2re_reciprocal", n=14, quick=False)
@R.case(name="formula", which="im2re_reciprocal", n=19)
@R.case(name="formula", which="im2re_reciprocal", n=30, quick=False)
@R.case(name="formula", which="re2im_reciprocal", n=2)
@R.case(name="formula", which="re2im_reciprocal", n=3)
@R.case(name="formula", which="re2im_reciprocal", n=4)
@R.case(name="formula", which="re2im_reciprocal", n=5)
@R.case(name="formula", which="re2im_reciprocal", n=6)
@R.case(name="formula", which="re2im_reciprocal", n=11, quick=False)
@R.case(name="formula", which="re2im_reciprocal", n=14, quick=False)
@R.case(name="formula", which="re2im_reciprocal", n=19)
@R.case(name="formula", which="re2im_reciprocal", n=30, quick=False)
def formula(h, which, n):
    x, d = axis(h, n, "reciprocal" in which)
    y = [h.real(f"y{i}", sample=(-1.0, 2.0)) for i in range(n)]
    xa, ya = h.arr(x), h.arr(y)
    got = fn(h, which)(ya, xa)
    h.eq("sum", got, maclaurin(h, which, y, x, d))
    h.eq("axis kept", xa, x)
    h.eq("spectrum kept", ya, y)
    h.eq("again", fn(h, which)(ya, xa), got)
    # every single point on its own
    for j in range(n):
        e = [y[j] if i == j else 0 for i in range(n)]
        w = [4 / h.np.pi * d * KERNEL[which](y[j], x[j], x[i]) if (i + j) % 2 else 0 for i in range(n)]
        h.eq(f"point {j}", fn(h, which)(h.arr(e), xa), w)
    h.eq("keywords", fn(h, which)(**{which[:2]: ya, "x": xa}), got)


@R.case(which="im2re", n=4)
@R.case(which="re2im", n=4)
@R.case(which="im2re_reciprocal", n=4)
@R.case(which="re2im_reciprocal", n=4)
@R.case(which="im2re", n=5)
@R.case(which="re2im", n=5)
@R.case(which="im2re_reciprocal", n=5)
@R.case(which="re2im_reciprocal", n=5)
def linear(h, which, n):
    x, d = axis(h, n, "reciprocal" in which)
    a = h.real("a", sample=(-1.0, 2.0))
    y = [h.real(f"y{i}", sample=(-1.0, 2.0)) for i in range(n)]
    z = [h.real(f"z{i}", sample=(-1.0, 2.0)) for i in range(n)]
    f = fn(h, which)
    fy, fz = f(h.arr(y), h.arr(x)), f(h.arr(z), h.arr(x))
    h.eq("linear", f(h.arr([a * p + q for p, q in zip(y, z)]), h.arr(x)), [a * p + q for p, q in zip(fy, fz)])
    h.eq("zero", f(h.arr([0 * p for p in y]), h.arr(x)), [0] * n)
    # the unit of the axis does not matter for the direct forms, nor for the reciprocal ones
    s = h.real("s", positive=True, sample=(0.5, 2.0))
    h.eq("scale", f(h.arr(y), h.arr([s * p for p in x])), fy)


@R.case(n=5)
def inversion(h, n):
    """each term of the reciprocal form is the direct integrand at 1/x times dx/x^2"""
    x, d = axis(h, n)
    y = [h.real(f"y{i}", sample=(0.2, 2.0)) for i in range(n)]
    for kind in ("im2re", "re2im"):
        for j in range(n):
            e = [y[j] if i == j else 0 for i in range(n)]
            got = fn(h, kind + "_reciprocal")(h.arr(e), h.arr(x))
            w = [4 / h.np.pi * KERNEL[kind](y[j], 1 / x[j], 1 / x[i]) * d / (x[j] * x[j]) if (i + j) % 2 else 0 for i in range(n)]
            h.eq(f"{kind} {j}", got, w)


@R.case()
def wavelengths_and_integers(h):
    """axes given as plain numbers, also integers"""
    y = [h.real(f"y{i}", sample=(-1.0, 2.0)) for i in range(5)]
    for start, step in ((200, 50), (1, 1), (3, 2)):
        x = [start + step * i for i in range(5)]
        for which in KERNEL:
            h.eq(f"{which} {start} {step}", fn(h, which)(h.arr(y), h.np.array(x)), maclaurin(h, which, y, [h.const(float(v)) for v in x], step))


@R.case()
def rejected(h):
    y = [h.real(f"y{i}", sample=(-1.0, 2.0)) for i in range(4)]
    x, _ = axis(h, 4)
    for which in KERNEL:
        for a in range(1, 5):
            for b in range(1, 5):
                if a != b:
                    h.raises(f"{which} {a} {b}", ValueError, lambda: fn(h, which)(h.arr(y[:a]), h.arr(x[:b])))
