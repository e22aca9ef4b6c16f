"""C02 permittivity tensors of materials: axes, rotation R eps R^T, invariants, isolation."""
from symx.harness import Registry
from .common import lin_disp, lams

R = Registry()
BOUNDS = "wavelength arrays of length 1,2,3,5, lists, tuples and scalars; up to three axes with one dispersion object in common; dispersions linear in wavelength with symbolic complex coefficients; rotation matrices with nine symbolic entries and Euler rotations with symbolic angles"
OUTSIDE = "longer wavelength arrays (the code is elementwise in the wavelength)"


def three(h):
    c = [[h.cplx(f"{a}{i}") for i in (0, 1)] for a in "xyz"]
    return c, [lin_disp(h, *k) for k in c]


def val(c, l):
    return c[0] + c[1] * l


def tensors(h, kind):
    E = h.elli
    c, d = three(h)
    if kind == "iso":
        return E.IsotropicMaterial(d[0]), [c[0]] * 3
    if kind == "uni":
        return E.UniaxialMaterial(d[0], d[2]), [c[0], c[0], c[2]]
    return E.BiaxialMaterial(*d), c


def expect(h, c, ls):
    return [[[val(c[i], l) if i == j else 0 for j in range(3)] for i in range(3)] for l in ls]


for kind in ("iso", "uni", "bi"):
    for n in (0, 1, 3, 5):
        @R.case(name="axes", kind=kind, n=n, quick=n != 5 or kind == "bi")
        def axes(h, kind, n):
            m, c = tensors(h, kind)
            ls = lams(max(n, 1))
            lb = ls[0] if n == 0 else h.arr(ls)
            t = m.get_tensor(lb)
            h.same("shape", t.shape, (len(ls), 3, 3))
            h.eq("principal axes", t, expect(h, c, ls))
            rot = [[h.real(f"r{i}{j}") for j in range(3)] for i in range(3)]
            m.set_rotation(h.arr(rot))
            t2 = m.get_tensor(lb)
            want = [[[sum(rot[i][k] * val(c[k], l) * rot[j][k] for k in range(3)) for j in range(3)] for i in range(3)] for l in ls]
            h.same("shape rotated", t2.shape, (len(ls), 3, 3))
            h.eq("R eps R^T", t2, want)
            h.eq("repeatable", m.get_tensor(lb), want)
            if n:
                h.eq("list", m.get_tensor(list(ls)), want)
                h.eq("tuple", m.get_tensor(tuple(ls)), want)
            ls2 = [l + 50.0 for l in reversed(ls)]
            t3 = m.get_tensor(ls2[0] if n == 0 else h.arr(ls2))
            h.eq("other wavelengths, same count", t3,
                 [[[sum(rot[i][k] * val(c[k], l) * rot[j][k] for k in range(3)) for j in range(3)] for i in range(3)] for l in ls2])
            h.eq("earlier result untouched", t, expect(h, c, ls))
            m.set_rotation(h.arr([[1, 0, 0], [0, 1, 0], [0, 0, 1]]))
            h.eq("rotation replaced, not accumulated", m.get_tensor(lb), expect(h, c, ls))


@R.case()
def invariants(h):
    E = h.elli
    ut = h.mod("elli.utils")
    c, d = three(h)
    a = [h.angle(x) for x in "pnr"]
    rot = ut.rotation_euler(*[h.deg(x) for x in a])
    ls = lams(2)
    b = E.BiaxialMaterial(*d)
    b.set_rotation(rot)
    t = b.get_tensor(h.arr(ls))
    for k, l in enumerate(ls):
        m = t[k]
        h.eq("symmetric", m, m.T)
        h.eq("trace", m[0, 0] + m[1, 1] + m[2, 2], val(c[0], l) + val(c[1], l) + val(c[2], l))
        e = [val(x, l) for x in c]
        h.eq("second invariant", sum(m[i, i] * m[j, j] - m[i, j] * m[j, i] for i, j in ((0, 1), (0, 2), (1, 2))),
             e[0] * e[1] + e[0] * e[2] + e[1] * e[2])
    i = E.IsotropicMaterial(d[0])
    i.set_rotation(rot)
    h.eq("isotropic invariant", i.get_tensor(h.arr(ls)), expect(h, [c[0]] * 3, ls))


@R.case()
def uniaxial_rotation(h):
    """optic axis follows the rotation: eps = eo + (ee-eo) c c^T with c = R e_z"""
    E = h.elli
    ut = h.mod("elli.utils")
    c, d = three(h)
    a, b = h.angle("a"), h.angle("b")
    rot = ut.rotation_euler(h.deg(a), h.deg(b), 0)
    u = E.UniaxialMaterial(d[0], d[2])
    u.set_rotation(rot)
    l = 100.0
    ax = [rot[i, 2] for i in range(3)]
    eo, ee = val(c[0], l), val(c[2], l)
    h.eq("optic axis", u.get_tensor(l)[0], [[(eo if i == j else 0) + (ee - eo) * ax[i] * ax[j] for j in range(3)] for i in range(3)])
    v = E.UniaxialMaterial(d[0], d[2])
    v.set_rotation(ut.rotation_v_theta(ut.E_X, h.deg(b)))
    w = E.UniaxialMaterial(d[0], d[2])
    h.eq("tilt about x", v.get_tensor(l)[0][1, 2], -(ee - eo) * h.np.sin(b) * h.np.cos(b))
    h.eq("other instance unrotated", w.get_tensor(l), expect(h, [c[0], c[0], c[2]], [l]))


@R.case()
def redefine(h):
    """set_dispersion replaces; instances and classes do not share state; results are fresh arrays"""
    E = h.elli
    c, d = three(h)
    ls = lams(2)
    m = E.BiaxialMaterial(*d)
    k = E.BiaxialMaterial(d[2], d[1], d[0])
    r1 = m.get_tensor(h.arr(ls))
    r1[0, 0, 0] = 99
    h.eq("fresh result", m.get_tensor(h.arr(ls)), expect(h, c, ls))
    m.set_dispersion(d[1], d[2], d[0])
    h.eq("replaced", m.get_tensor(h.arr(ls)), expect(h, [c[1], c[2], c[0]], ls))
    h.eq("other instance", k.get_tensor(h.arr(ls)), expect(h, [c[2], c[1], c[0]], ls))
    u = E.UniaxialMaterial(d[0], d[1])
    u.set_dispersion(d[2], d[0])
    h.eq("uniaxial replaced", u.get_tensor(h.arr(ls)), expect(h, [c[2], c[2], c[0]], ls))
    i = d[1].get_mat()
    h.eq("get_mat", i.get_tensor(h.arr(ls)), expect(h, [c[1]] * 3, ls))
    i.set_dispersion(d[2])
    h.eq("isotropic replaced", i.get_tensor(h.arr(ls)), expect(h, [c[2]] * 3, ls))
    h.raises("iso type", TypeError, lambda: E.IsotropicMaterial(1.5))
    h.raises("uni type", TypeError, lambda: E.UniaxialMaterial(d[0], None))
    h.raises("bi type", TypeError, lambda: E.BiaxialMaterial(d[0], d[1], "x"))


for shared in ("xxz", "xyx", "xyy", "xxx", "uxz"):
    @R.case(name="shared_dispersions", shared=shared)
    def shared_dispersions(h, shared):
        """one dispersion object on several axes: rotated before and after the dispersions are replaced"""
        E = h.elli
        c, d = three(h)
        uni = shared[0] == "u"
        ax = ["xyz".index(a) for a in shared.replace("u", "x")]
        rot = [[h.real(f"r{i}{j}") for j in range(3)] for i in range(3)]
        ls = lams(2)
        pick = [d[a] for a in ax]
        cc = [c[a] for a in ax]
        if uni:
            m, pick, cc = E.UniaxialMaterial(d[1], d[0]), [d[0], d[2]], [c[0], c[0], c[2]]
        else:
            m = E.BiaxialMaterial(d[2], d[0], d[1])
        want = [[[sum(rot[i][k] * val(cc[k], l) * rot[j][k] for k in range(3)) for j in range(3)] for i in range(3)] for l in ls]
        m.set_rotation(h.arr(rot))
        m.set_dispersion(*pick)
        h.eq("rotation kept when the dispersions are replaced", m.get_tensor(h.arr(ls)), want)
        k = (E.UniaxialMaterial if uni else E.BiaxialMaterial)(*pick)
        h.eq("unrotated", k.get_tensor(h.arr(ls)), expect(h, cc, ls))
        k.set_rotation(h.arr(rot))
        h.eq("rotated afterwards", k.get_tensor(h.arr(ls)), want)
        m.set_dispersion(*pick)
        h.eq("set again", m.get_tensor(h.arr(ls)), want)


@R.case()
def index_tensor(h):
    """refractive index tensor of an unrotated material: n^2 = eps, absorbing branch k >= 0"""
    E = h.elli
    n = [h.real(f"n{i}", lo=0.1, hi=5) for i in range(3)]
    k = [h.real(f"k{i}", lo=0, hi=5) for i in range(3)]
    nk = [n[i] + 1j * k[i] for i in range(3)]
    h.hint(*nk)
    d = [lin_disp(h, x * x) for x in nk]
    t = E.BiaxialMaterial(*d).get_refractive_index(h.arr(lams(2)))
    h.eq("index tensor", t, [[[nk[i] if i == j else 0 for j in range(3)] for i in range(3)] for _ in range(2)])
    neg = E.IsotropicMaterial(lin_disp(h, -(k[0] * k[0]) - 1))
    h.eq("metal index^2", neg.get_refractive_index(100.0)[0, 0, 0] ** 2, -(k[0] * k[0]) - 1)
    h.le("metal k >= 0", 0, h.np.imag(neg.get_refractive_index(100.0)[0, 0, 0]))
