"""C03 mixtures (effective medium approximations)."""
from symx.harness import Registry
from .common import lin_disp, table_disp, lams, user_material

R = Registry()
BOUNDS = "one to three wavelengths; isotropic constituents with symbolic complex permittivity (principal-branch roots as inputs); symbolic fraction in [0,1]; constituents at given ratios (equal to very different) at every scale"
OUTSIDE = "Maxwell-Garnett/Bruggeman/Looyenga with anisotropic constituents (documented for isotropic inclusions)"
ALL = ("VCAMaterial", "LooyengaEMA", "MaxwellGarnettEMA", "BruggemanEMA")


def passive_root(h, nm, m):
    """complex number whose m-th power is in the closed upper half plane, principal root"""
    re, im = h.real(nm + "r", lo=0.1, hi=4), h.real(nm + "i", lo=0, hi=4, sample=(0.02, 1.5))
    if m == 3:
        h.assume(im * im <= 3 * re * re)
    return re + 1j * im


def pair(h, cls, n=1, cplx=True):
    """(host eps list, guest eps list)"""
    out = []
    for s in "hg":
        vals = []
        for k in range(n):
            m = {"LooyengaEMA": 3, "BruggemanEMA": 2}.get(cls, 1)
            if cplx:
                r = passive_root(h, f"{s}{k}", m)
            else:
                r = h.real(f"{s}{k}", lo=0.1, hi=6)
            if m == 3:
                h.cbrt_hint(r)
            elif m == 2:
                h.hint(r)
            vals.append(r ** m)
        out.append(vals)
    return out


def mats(h, hv, gv):
    E = h.elli
    return E.IsotropicMaterial(table_disp(h, hv)), E.IsotropicMaterial(table_disp(h, gv))


def diag(v):
    return [[[x if i == j else 0 for j in range(3)] for i in range(3)] for x in v]


def law(h, cls, eh, eg, f, e):
    """residual of the documented mixing law"""
    if cls == "VCAMaterial":
        return e - ((1 - f) * eh + f * eg)
    if cls == "MaxwellGarnettEMA":
        return e * (2 * eh + eg - f * (eg - eh)) - eh * (2 * f * (eg - eh) + eg + 2 * eh)
    if cls == "BruggemanEMA":
        return 2 * e * e + ((3 * f - 2) * eh + (1 - 3 * f) * eg) * e - eh * eg
    raise AssertionError


for cls in ALL:
    for n in (1, 3):
        @R.case(name="law", cls=cls, n=n, opts={"timeout": 200})
        def laws(h, cls, n):
            E = h.elli
            hv, gv = pair(h, cls, n)
            f = h.real("f", lo=0, hi=1)
            h.assume(f > 0)
            h.assume(f < 1)
            for a, b in zip(hv, gv):
                h.assume(a != b)
            mh, mg = mats(h, hv, gv)
            m = getattr(E, cls)(mh, mg, f)
            ls = h.arr(lams(n))
            t = m.get_tensor(ls)
            h.same("shape", t.shape, (n, 3, 3))
            for k in range(n):
                for i in range(3):
                    if cls == "LooyengaEMA":
                        r = [h.real(f"{s}{k}r") if False else None for s in ()]
                    for j in range(3):
                        if i != j:
                            h.eq("isotropic mixture is isotropic", t[k, i, j], 0)
                    if cls != "LooyengaEMA":
                        h.eq("mixing law", law(h, cls, hv[k], gv[k], f, t[k, i, i]), 0)
            h.eq("repeatable", m.get_tensor(ls), t)
            h.eq("explicit fraction", m.get_tensor_fraction(ls, f), t)


for cls in ALL:
    for d in (1e-3, 0.02, -0.01, 2.0, -0.75, 60.0):
        @R.case(name="ratio", cls=cls, d=d)
        def ratio(h, cls, d):
            """constituents at a given ratio, nearly equal to very different"""
            E = h.elli
            m = {"LooyengaEMA": 3, "BruggemanEMA": 2}.get(cls, 2)
            f = h.real("f", lo=0, hi=1)
            rs = [h.real(f"r{k}", lo=0.5, hi=4) for k in range(2)]
            q = 1 + h.const(d)
            (h.cbrt_hint if m == 3 else h.hint)(*rs, *[r * q for r in rs])
            hv, gv = [r ** m for r in rs], [(r * q) ** m for r in rs]
            t = getattr(E, cls)(*mats(h, hv, gv), f).get_tensor(h.arr(lams(2)))
            for k in range(2):
                for i in range(3):
                    if m == 3:
                        h.eq("looyenga", t[k, i, i], ((1 - f) * rs[k] + f * rs[k] * q) ** 3)
                    else:
                        h.eq("mixing law", law(h, cls, hv[k], gv[k], f, t[k, i, i]), 0)


@R.case()
def looyenga_law(h):
    E = h.elli
    r = [[passive_root(h, f"{s}{k}", 3) for k in range(2)] for s in "hg"]
    h.cbrt_hint(*r[0], *r[1])
    mh, mg = mats(h, [x ** 3 for x in r[0]], [x ** 3 for x in r[1]])
    f = h.real("f", lo=0, hi=1)
    t = E.LooyengaEMA(mh, mg, f).get_tensor(h.arr(lams(2)))
    h.eq("looyenga", t, diag([((1 - f) * r[0][k] + f * r[1][k]) ** 3 for k in range(2)]))


for cls in ALL:
    @R.case(name="endpoints", cls=cls)
    def endpoints(h, cls):
        E = h.elli
        hv, gv = pair(h, cls, 2)
        mh, mg = mats(h, hv, gv)
        ls = h.arr(lams(2))
        C = getattr(E, cls)
        h.eq("f=0 is the host", C(mh, mg, 0).get_tensor(ls), diag(hv))
        h.eq("f=1 is the guest", C(mh, mg, 1).get_tensor(ls), diag(gv))
        m = C(mh, mg, 0.5)
        h.eq("override 0", m.get_tensor_fraction(ls, 0), diag(hv))
        h.eq("override 1", m.get_tensor_fraction(ls, 1), diag(gv))
        m.set_fraction(1)
        h.eq("set_fraction", m.get_tensor(ls), diag(gv))
        m.set_constituents(mg, mh)
        h.eq("set_constituents", m.get_tensor(ls), diag(hv))
        h.eq("constituents untouched", mh.get_tensor(ls), diag(hv))

    @R.case(name="equal", cls=cls)
    def equal(h, cls):
        E = h.elli
        hv, _ = pair(h, cls, 2)
        mh, mg = mats(h, hv, list(hv))
        f = h.real("f", lo=0, hi=1)
        h.eq("equal constituents", getattr(E, cls)(mh, mg, f).get_tensor(h.arr(lams(2))), diag(hv))

    @R.case(name="partly_equal", cls=cls)
    def partly_equal(h, cls):
        """equal at one wavelength only"""
        E = h.elli
        hv, gv = pair(h, cls, 2)
        h.assume(hv[0] != gv[0])
        gv = [gv[0], hv[1]]
        mh, mg = mats(h, hv, gv)
        t = getattr(E, cls)(mh, mg, 1).get_tensor(h.arr(lams(2)))
        h.eq("partly equal", t, diag(gv))

    @R.case(name="bounds_real", cls=cls, opts={"prove_timeout": 60000})
    def bounds_real(h, cls):
        """lossless constituents: the mixture lies between them"""
        E = h.elli
        hv, gv = pair(h, cls, 1, cplx=False)
        f = h.real("f", lo=0, hi=1)
        mh, mg = mats(h, hv, gv)
        h.assume(hv[0] != gv[0])
        e = getattr(E, cls)(mh, mg, f).get_tensor(100.0)[0, 0, 0]
        h.eq("real", h.np.imag(e), 0)
        e = h.np.real(e)
        h.le("between the constituents", (e - hv[0]) * (e - gv[0]), 0)

    @R.case(name="fraction", cls=cls)
    def fraction(h, cls):
        E = h.elli
        mh, mg = mats(h, [1], [2])
        f = h.real("f", sample=(-2.0, 3.0))
        C = getattr(E, cls)
        if h.branch(f < 0) or h.branch(f > 1):
            h.raises("constructor rejects", ValueError, lambda: C(mh, mg, f))
            m = C(mh, mg, 0.25)
            h.raises("set_fraction rejects", ValueError, lambda: m.set_fraction(f))
            h.eq("fraction kept", m.fraction, 0.25)
        else:
            m = C(mh, mg, f)
            h.eq("stored", m.fraction, f)
        h.raises("host type", TypeError, lambda: C(1.0, mg, 0.5))
        h.raises("guest type", TypeError, lambda: C(mh, 2.0, 0.5))


for cls in ("VCAMaterial", "MaxwellGarnettEMA", "LooyengaEMA"):
    @R.case(name="passive", cls=cls, opts={"prove_timeout": 90000}, quick=cls != "LooyengaEMA")
    def passive(h, cls):
        """absorbing constituents never give gain"""
        E = h.elli
        hv, gv = pair(h, cls, 1)
        f = h.real("f", lo=0, hi=1)
        mh, mg = mats(h, hv, gv)
        e = getattr(E, cls)(mh, mg, f).get_tensor(100.0)[0, 0, 0]
        h.le("Im eps >= 0", 0, h.np.imag(e))


@R.case()
def vca_anisotropic(h):
    E = h.elli
    T = [[[[h.cplx(f"{s}{k}{i}{j}") for j in range(3)] for i in range(3)] for k in range(2)] for s in "hg"]
    mh = user_material(h, lambda l: h.arr(T[0]))
    mg = user_material(h, lambda l: h.arr(T[1]))
    f = h.real("f", lo=0, hi=1)
    g = h.real("g", lo=0, hi=1)
    m = E.VCAMaterial(mh, mg, f)
    ls = h.arr(lams(2))
    want = lambda q: [[[T[0][k][i][j] * (1 - q) + T[1][k][i][j] * q for j in range(3)] for i in range(3)] for k in range(2)]
    h.eq("tensor average", m.get_tensor(ls), want(f))
    h.eq("override", m.get_tensor_fraction(ls, g), want(g))
    h.eq("override leaves the fraction", m.get_tensor(ls), want(f))
    n = E.VCAMaterial(m, mg, g)
    h.eq("nested", n.get_tensor(ls), [[[want(f)[k][i][j] * (1 - g) + T[1][k][i][j] * g for j in range(3)] for i in range(3)] for k in range(2)])
