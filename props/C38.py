"""C38 the index profile of a structure, as numbers and as drawn"""
from symx.harness import Registry
from .common import lams, user_material, table_disp
from .C04 import tensor, mat

R = Registry()
BOUNDS = ("structures of 0 to 4 layers, with repeated, twisted and graded ones, and of 25 layers; every thickness >= 0, every complex permittivity tensor, "
          "any real direction (index) and the x direction (drawings); what is drawn is read from the calls of the plotting library, which is replaced by a recorder")
OUTSIDE = "the pixels, labels and limits of the figures; the width of the margins"


class Axes:
    """reads what it is told to draw as a list of (left, right, value)"""

    def __init__(self):
        self.drawn = []

    def _steps(self, x, y, where):
        x, y = list(x), list(y)
        n = len(x) - 1
        v = {"post": y[:n], "pre": y[1:]}[where]
        self.drawn += list(zip(x[:n], x[1:], v))

    def step(self, x, y, *a, where="pre", **k):
        self._steps(x, y, where)

    def plot(self, x, y, *a, drawstyle="default", **k):
        self._steps(x, y, {"steps": "pre", "steps-pre": "pre", "steps-post": "post"}[drawstyle])

    def stairs(self, values, edges, **k):
        self.drawn += list(zip(list(edges)[:-1], list(edges)[1:], list(values)))

    def pcolormesh(self, X, Y, C, **k):
        r, c = C.shape
        self.rows = [list(C[i]) for i in range(r)]
        xs = list(X[0]) if len(X.shape) == 2 else list(X)
        self.columns = [list(q) for q in X] if len(X.shape) == 2 else [xs]
        assert len(xs) == c + 1, "one value per cell"
        self.drawn += list(zip(xs[:-1], xs[1:], self.rows[0]))
        return Anything()

    pcolor = pcolormesh

    def __getattr__(self, name):
        return Anything()


class Anything:
    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        return Anything()

    def __getitem__(self, i):
        return Anything()

    def __setitem__(self, i, v):
        pass


class Figure(Anything):
    def add_subplot(self, *a, **k):
        return Axes()

    add_axes = add_subplot
    gca = add_subplot

    def subplots(self, *a, **k):
        return Axes()


def module(h):
    """the plotting module, drawing on the recorder (in this process only)"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    plt.figure = lambda *a, **k: Figure()
    plt.subplots = lambda *a, **k: (Figure(), Axes())
    return h.mod("elli.plot.structure")


def quad(v, t):
    return sum(v[i] * t[i][j] * v[j] for i in range(3) for j in range(3))


def check_index(h, prof, want, v):
    """want: list of (thickness, 3x3 nested list)"""
    h.same("entries", len(prof), len(want))
    for i, ((d, n), (wd, t)) in enumerate(zip(prof, want)):
        if wd == "inf":
            h.same(f"d{i}", float(d) == float("inf"), True)
        else:
            h.eq(f"d{i}", d, wd)
        h.eq(f"n{i}", n * n, quad(v, t))
        h.le(f"branch{i}", 0, n.real)


def structure(h, k):
    E = h.elli
    ts = [tensor(h, f"t{i}_")[0] for i in range(k + 2)]
    ds = [h.real(f"d{i}", lo=0, sample=(1.0, 300.0)) for i in range(k)]
    ms = [mat(h, [t]) for t in ts]
    s = E.Structure(ms[0], [E.Layer(m, d) for m, d in zip(ms[1:], ds)], ms[-1])
    return s, [("inf", ts[0])] + list(zip(ds, ts[1:])) + [("inf", ts[-1])]


for k in (0, 1, 3):
    @R.case(name="index", k=k)
    def index(h, k):
        """along the axes and along any direction"""
        ps = module(h)
        s, want = structure(h, k)
        check_index(h, ps.get_index_profile(s, 500.0), want, [1, 0, 0])
        for i in range(3):
            e = [int(i == j) for j in range(3)]
            check_index(h, ps.get_index_profile(s, 500.0, h.np.array(e)), want, e)
        v = [h.real(f"v{i}", lo=-1, hi=1) for i in range(3)]
        check_index(h, ps.get_index_profile(s, 500.0, h.arr(v)), want, v)


@R.case()
def tensors(h):
    ps = module(h)
    s, want = structure(h, 2)
    for lb in (500.0, 500):
        p = ps.get_permittivity_profile(s, lb)
        h.same("entries", len(p), len(want))
        for i, ((d, e), (wd, t)) in enumerate(zip(p, want)):
            if wd != "inf":
                h.eq(f"d{i}", d, wd)
            h.eq(f"eps{i}", e, [t])


@R.case()
def wavelength(h):
    """the materials are asked at the given wavelength"""
    E, ps = h.elli, module(h)
    n = [[h.real(f"n{i}{j}", positive=True, sample=(1.0, 3.0)) for j in range(3)] for i in range(3)]
    m = [E.IsotropicMaterial(table_disp(h, [q * q for q in r])) for r in n]
    d = h.real("d", positive=True)
    s = E.Structure(m[0], [E.Layer(m[1], d)], m[2])
    for j, lb in enumerate(lams(3)):
        p = ps.get_index_profile(s, lb)
        h.eq(f"n{j}", [q for _, q in p], [n[i][j] for i in range(3)])
        ax = ps.draw_structure(s, lb)
        h.eq(f"drawn{j}", [q for _, _, q in ax.drawn], [n[i][j] for i in range(3)])


@R.case()
def crystal(h):
    """the axes of a crystal, as given and turned by a quarter"""
    E, ps = h.elli, module(h)
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(3)]
    d = h.real("d", positive=True)
    m = E.BiaxialMaterial(*[table_disp(h, [q * q]) for q in n])
    for name, perm, rot in (("as given", (0, 1, 2), None), ("z", (1, 0, 2), (90, 0, 0)), ("x", (0, 2, 1), (0, 90, 0))):
        if rot:
            m = E.BiaxialMaterial(*[table_disp(h, [q * q]) for q in n])
            m.set_rotation(E.rotation_euler(*rot))
        s = E.Structure(m, [E.Layer(m, d)], m)
        for i in range(3):
            p = ps.get_index_profile(s, 100.0, h.np.array([float(i == j) for j in range(3)]))
            h.eq(f"{name} {i}", [q for _, q in p], [n[perm[i]]] * 3)


def expect(h, ax, ns, ds):
    """values between the boundaries, margins of equal width outside"""
    h.same("pieces", len(ax.drawn), len(ns))
    if len(ax.drawn) != len(ns):
        return
    z = [0]
    for d in ds:
        z.append(z[-1] + d)
    h.eq("left", [a for a, _, _ in ax.drawn[1:]], z)
    h.eq("right", [b for _, b, _ in ax.drawn[:-1]], z)
    h.eq("values", [v for _, _, v in ax.drawn], ns)
    a, b = ax.drawn[0][0], ax.drawn[-1][1]
    h.true("margin in front", a < 0)
    h.true("margin behind", b > z[-1])


@R.case(method="graph", k=0)
@R.case(method="graph", k=1)
@R.case(method="graph", k=3)
@R.case(method="section", k=0)
@R.case(method="section", k=2)
@R.case(method="section", k=4, quick=False)
def drawn(h, method, k):
    E, ps = h.elli, module(h)
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(k + 2)]
    kap = [h.real(f"k{i}", nonneg=True, sample=(0.0, 1.0)) for i in range(k + 2)]
    m = [E.IsotropicMaterial(table_disp(h, [(a + 1j * b) ** 2])) for a, b in zip(n, kap)]
    ds = [h.real(f"d{i}", lo=0, sample=(1.0, 300.0)) for i in range(k)]
    s = E.Structure(m[0], [E.Layer(x, d) for x, d in zip(m[1:], ds)], m[-1])
    ax = ps.draw_structure(s, 100.0, method)
    expect(h, ax, n, ds)
    if method == "section":
        for r in ax.rows:
            h.eq("rows", r, ax.rows[0])
        for r in ax.columns:
            h.eq("columns", r, ax.columns[0])
    h.same("layers kept", len(s.layers), k)


@R.case(method="graph")
@R.case(method="section")
def inhomogeneous(h, method):
    """repeated, graded and turned layers appear slice by slice"""
    E, ps = h.elli, module(h)
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(4)]
    m = [E.IsotropicMaterial(table_disp(h, [q * q])) for q in n]
    d = [h.real(f"d{i}", positive=True, sample=(1.0, 300.0)) for i in range(3)]
    uni = E.UniaxialMaterial(table_disp(h, [n[0] * n[0]]), table_disp(h, [n[1] * n[1]]))
    uni.set_rotation(E.rotation_v_theta(E.E_Y, 90))
    s = E.Structure(m[3], [E.RepeatedLayers([E.Layer(m[0], d[0]), E.Layer(m[1], d[1])], 2, 1, 1),
                           E.TwistedLayer(uni, d[2], 1, 180),
                           E.VaryingMixtureLayer(E.VCAMaterial(m[2], m[2], 0.5), d[2], 3)], m[0])
    seq = [1, 0, 1, 0, 1, 0]
    ax = ps.draw_structure(s, 100.0, method=method)
    expect(h, ax, [n[3]] + [n[i] for i in seq] + [n[0]] + [n[2]] * 3 + [n[0]], [d[i] for i in seq] + [d[2]] + [d[2] / 3] * 3)


@R.case()
def long(h):
    E, ps = h.elli, module(h)
    k = 25
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(k + 2)]
    m = [E.IsotropicMaterial(table_disp(h, [q * q])) for q in n]
    ds = [h.real(f"d{i}", positive=True, sample=(1.0, 300.0)) for i in range(k)]
    s = E.Structure(m[0], [E.Layer(x, d) for x, d in zip(m[1:], ds)], m[-1])
    for method in ("graph", "section"):
        expect(h, ps.draw_structure(s, 100.0, method), n, ds)


@R.case()
def changed_later(h):
    """a drawing shows the structure as it is now; other methods draw nothing"""
    E, ps = h.elli, module(h)
    n = [h.real(f"n{i}", positive=True, sample=(1.0, 3.0)) for i in range(3)]
    m = [E.IsotropicMaterial(table_disp(h, [q * q])) for q in n]
    d, e = h.real("d", positive=True), h.real("e", positive=True)
    lay = E.Layer(m[1], d)
    s = E.Structure(m[0], [lay], m[2])
    expect(h, ps.draw_structure(s, 100.0), [n[0], n[1], n[2]], [d])
    lay.set_thickness(e)
    lay.set_material(m[2])
    s.set_back_material(m[1])
    expect(h, ps.draw_structure(s, 100.0), [n[0], n[2], n[1]], [e])
    s.set_layers([])
    expect(h, ps.draw_structure(s, 100.0, "section"), [n[0], n[1]], [])
    h.same("no such method", ps.draw_structure(s, 100.0, "nothing") is None, True)
