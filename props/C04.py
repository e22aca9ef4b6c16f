"""C04 permittivity profile of a structure."""
from symx.harness import Registry
from .common import lams, user_material, table_disp

R = Registry()
BOUNDS = ("1 or 2 wavelengths; up to 4 plain layers (25 isotropic ones), repetitions of up to 3 layers (up to 3 repetitions, and 17, 40 and 100; with graded layers up to 33; up to len(layers) leading and trailing "
          "extra layers, nested once, with inhomogeneous members); twists of 1-4, 6, 9, 12 slices, mixtures of up to 40; symbolic thicknesses, complex tensors, twist angles and fraction profiles")
OUTSIDE = "more leading or trailing extra layers than the period has; other counts"


def tensor(h, tag, n=1, sym=True):
    return [[[h.cplx(f"{tag}{k}_{i}{j}") for j in range(3)] for i in range(3)] for k in range(n)]


def mat(h, t):
    return user_material(h, lambda lbda: h.arr(t))


def iso(h, tag, n=1):
    return h.elli.IsotropicMaterial(table_disp(h, [h.cplx(f"{tag}{k}") for k in range(n)]))


def check(h, prof, want, nl):
    """prof: list of (thickness, tensor); want: list of (thickness, nested list)"""
    h.same("entries", len(prof), len(want))
    for i, ((d, t), (wd, wt)) in enumerate(zip(prof, want)):
        if wd == "inf":
            h.same(f"d{i}", float(d) == float("inf"), True)
        else:
            h.eq(f"d{i}", d, wd)
        h.same(f"shape{i}", tuple(t.shape), (nl, 3, 3))
        h.eq(f"eps{i}", t, wt)


@R.case(n=0)
@R.case(n=1)
@R.case(n=4)
def layers(h, n):
    E, nl = h.elli, 2
    ts = [tensor(h, f"t{i}_", nl) for i in range(n)]
    ds = [h.real(f"d{i}", lo=0, sample=(0.0, 300.0)) for i in range(n)]
    f, b = tensor(h, "f", nl), tensor(h, "b", nl)
    ls = [E.Layer(mat(h, t), d) for t, d in zip(ts, ds)]
    s = E.Structure(mat(h, f), ls, mat(h, b))
    lb = h.arr(lams(nl))
    want = [("inf", f)] + list(zip(ds, ts)) + [("inf", b)]
    check(h, s.get_permittivity_profile(lb), want, nl)
    check(h, s.get_permittivity_profile(lb), want, nl)
    h.eq("wavelengths unchanged", lb, lams(nl))
    h.same("layers unchanged", [x is y for x, y in zip(s.layers, ls)], [True] * n)


@R.case()
def wavelengths_reach_every_material(h):
    E, nl = h.elli, 3
    names = ("f", "a", "b", "x")
    vals = {k: [h.cplx(f"{k}{i}") for i in range(nl)] for k in names}
    m = {k: E.IsotropicMaterial(table_disp(h, v)) for k, v in vals.items()}
    da, db = h.real("da", lo=0), h.real("db", lo=0)
    s = E.Structure(m["f"], [E.Layer(m["a"], da), E.RepeatedLayers([E.Layer(m["b"], db)], 2)], m["x"])
    for pick in ([0, 1, 2], [2, 0], [1]):
        lb = h.arr([lams(nl)[i] for i in pick])

        def dg(k):
            return [[[vals[k][p] if i == j else 0 for j in range(3)] for i in range(3)] for p in pick]

        check(h, s.get_permittivity_profile(lb),
              [("inf", dg("f")), (da, dg("a")), (db, dg("b")), (db, dg("b")), ("inf", dg("x"))], len(pick))


def seq(k, rep, before, after):
    idx = list(range(k))
    return idx[k - before:] + idx * rep + idx[:after]


for k in (1, 2, 3):
    @R.case(name="repeat", k=k)
    def repeat(h, k):
        """all combinations of repetitions (1..3), before and after (0..k), chosen symbolically"""
        E = h.elli
        ts = [tensor(h, f"t{i}_") for i in range(k)]
        ds = [h.real(f"d{i}", lo=0, sample=(0.0, 300.0)) for i in range(k)]
        ls = [E.Layer(mat(h, t), d) for t, d in zip(ts, ds)]
        for rep in (1, 2, 3):
            for b in range(k + 1):
                for a in range(k + 1):
                    r = E.RepeatedLayers(ls, rep, b, a)
                    p = r.get_permittivity_profile(h.arr(lams(1)))
                    check(h, p, [(ds[i], ts[i]) for i in seq(k, rep, b, a)], 1)
        r.set_repetitions(2)
        check(h, r.get_permittivity_profile(h.arr(lams(1))), [(ds[i], ts[i]) for i in seq(k, 2, 0, 0)], 1)
        r.set_repetitions(1, 1)
        check(h, r.get_permittivity_profile(h.arr(lams(1))), [(ds[i], ts[i]) for i in seq(k, 1, 1, 0)], 1)
        r.set_layers(ls[:1])
        check(h, r.get_permittivity_profile(h.arr(lams(1))), [(ds[i], ts[i]) for i in seq(1, 1, 1, 0)], 1)
        h.same("list unchanged", len(ls), k)


for rep, before, after in ((40, 0, 0), (17, 3, 2), (100, 0, 1)):
    @R.case(name="long_repeat", rep=rep, before=before, after=after)
    def long_repeat(h, rep, before, after):
        """many periods of a three-layer period"""
        E = h.elli
        ts = [tensor(h, f"t{i}_") for i in range(3)]
        ds = [h.real(f"d{i}", lo=0, sample=(0.0, 300.0)) for i in range(3)]
        ls = [E.Layer(mat(h, t), d) for t, d in zip(ts, ds)]
        s = E.Structure(mat(h, ts[0]), [E.RepeatedLayers(ls, rep, before, after)], mat(h, ts[1]))
        p = s.get_permittivity_profile(h.arr(lams(1)))
        want = [("inf", ts[0])] + [(ds[i], ts[i]) for i in seq(3, rep, before, after)] + [("inf", ts[1])]
        h.same("entries", len(p), len(want))
        h.eq("thickness", [d for d, _ in p[1:-1]], [d for d, _ in want[1:-1]])
        h.eq("corner", [t[0, 0, 2] for _, t in p], [t[0][0][2] for _, t in want])


@R.case(n=25)
def many_layers(h, n):
    """a long list of different layers, one of them in slices"""
    E = h.elli
    es = [h.cplx(f"e{i}") for i in range(n)]
    ds = [h.real(f"d{i}", lo=0, sample=(0.0, 300.0)) for i in range(n)]
    ms = [E.IsotropicMaterial(table_disp(h, [e])) for e in es]
    ls = [E.Layer(m, d) for m, d in zip(ms, ds)]
    q = h.real("q", lo=0, hi=1)
    h.assume(ds[0] > 0)
    ls.insert(10, E.VaryingMixtureLayer(E.VCAMaterial(ms[0], ms[1], q), ds[0], 30))
    p = E.Structure(ms[0], ls, ms[1]).get_permittivity_profile(h.arr(lams(1)))
    sl = [(ds[0] / 30, es[0] + (es[1] - es[0]) * (2 * j + 1) / 60) for j in range(30)]
    want = list(zip(ds[:10], es[:10])) + sl + list(zip(ds[10:], es[10:]))
    h.same("entries", len(p), len(want) + 2)
    h.eq("thickness", [d for d, _ in p[1:-1]], [d for d, _ in want])
    h.eq("eps", [t[0, 1, 1] for _, t in p[1:-1]], [e for _, e in want])


@R.case()
def nested(h):
    E = h.elli
    t = [tensor(h, f"t{i}_") for i in range(3)]
    d = [h.real(f"d{i}", lo=0, sample=(0.0, 300.0)) for i in range(3)]
    l = [E.Layer(mat(h, a), b) for a, b in zip(t, d)]
    inner = E.RepeatedLayers([l[0], l[1]], 2, 1, 0)          # 1 0101 -> b a b a b
    outer = E.RepeatedLayers([inner, l[2]], 2, 1, 1)
    i = [1, 0, 1, 0, 1]
    order = [2] + (i + [2]) * 2 + i
    f, b = tensor(h, "f"), tensor(h, "b")
    s = E.Structure(mat(h, f), [l[2], outer, l[0]], mat(h, b))
    p = s.get_permittivity_profile(h.arr(lams(1)))
    check(h, p, [("inf", f)] + [(d[j], t[j]) for j in [2] + order + [0]] + [("inf", b)], 1)


def rotz(h, t, deg):
    """R eps R^T about z by an angle in degrees (counter-clockwise)"""
    a = h.np.deg2rad(deg)
    c, s = h.np.cos(a), h.np.sin(a)
    r = [[c, -s, 0], [s, c, 0], [0, 0, 1]]
    return [[[sum(r[i][k] * m[k][l] * r[j][l] for k in range(3) for l in range(3)) for j in range(3)] for i in range(3)] for m in t]


for div in (1, 2, 3, 4, 6, 9, 12):
    @R.case(name="twisted", div=div, quick=div != 6 and div != 12)
    def twisted(h, div):
        E = h.elli
        nl = 2 if div == 2 else 1
        t = tensor(h, "t", nl)
        d = h.real("d", lo=0, sample=(1.0, 300.0))
        h.assume(d > 0)
        a = h.angle("twist")
        lay = E.TwistedLayer(mat(h, t), d, div, h.deg(a))
        p = lay.get_permittivity_profile(h.arr(lams(nl)))
        want = [(d / div, rotz(h, t, h.deg(a) * (2 * j + 1) / (2 * div))) for j in range(div)]
        check(h, p, want, nl)
        h.eq("total thickness", sum(x for x, _ in p), d)


@R.case()
def twisted_zero_thickness(h):
    E = h.elli
    t = tensor(h, "t")
    lay = E.TwistedLayer(mat(h, t), 0, 2, h.deg(h.angle("twist")))
    p = lay.get_permittivity_profile(h.arr(lams(1)))
    h.same("slices", len(p), 2)
    h.eq("thickness", [x for x, _ in p], [0, 0])
    for _, e in p:
        # some rotation of the material's tensor: same invariants
        h.eq("trace", e[0][0][0] + e[0][1][1] + e[0][2][2], t[0][0][0] + t[0][1][1] + t[0][2][2])
        h.eq("zz", e[0][2][2], t[0][2][2])


@R.case()
def twisted_in_place_changes(h):
    """later changes of thickness, divisions, angle and material are reflected"""
    E = h.elli
    t, u = tensor(h, "t"), tensor(h, "u")
    d1, d2 = h.real("d1", lo=0, sample=(1., 200.)), h.real("d2", lo=0, sample=(1., 200.))
    h.assume(d1 > 0)
    h.assume(d2 > 0)
    a, b = h.angle("a"), h.angle("b")
    lay = E.TwistedLayer(mat(h, t), d1, 1, h.deg(a))
    lb = h.arr(lams(1))
    check(h, lay.get_permittivity_profile(lb), [(d1, rotz(h, t, h.deg(a) / 2))], 1)
    lay.set_thickness(d2)
    lay.set_divisions(2)
    check(h, lay.get_permittivity_profile(lb), [(d2 / 2, rotz(h, t, h.deg(a) / 4)), (d2 / 2, rotz(h, t, h.deg(a) * 3 / 4))], 1)
    lay.set_angle(h.deg(b))
    lay.set_material(mat(h, u))
    check(h, lay.get_permittivity_profile(lb), [(d2 / 2, rotz(h, u, h.deg(b) / 4)), (d2 / 2, rotz(h, u, h.deg(b) * 3 / 4))], 1)


for div in (1, 2, 3, 4, 6, 12, 40):
    @R.case(name="varying_mixture", div=div, quick=div != 6)
    def varying_mixture(h, div):
        """mixture with the (linear) averaging law: fraction (j+1/2)/div, default and own modulation"""
        E = h.elli
        eh, eg = [h.cplx("eh0"), h.cplx("eh1")], [h.cplx("eg0"), h.cplx("eg1")]
        host, guest = (E.IsotropicMaterial(table_disp(h, v)) for v in (eh, eg))
        d = h.real("d", lo=0, sample=(1.0, 300.0))
        h.assume(d > 0)
        stored = h.real("stored", lo=0, hi=1)
        mix = E.VCAMaterial(host, guest, stored)
        lb = h.arr(lams(2))

        def dg(f):
            return [[[((1 - f) * a + f * b) if i == j else 0 for j in range(3)] for i in range(3)] for a, b in zip(eh, eg)]

        x = [h.const(1) * (2 * j + 1) / (2 * div) for j in range(div)]
        lay = E.VaryingMixtureLayer(mix, d, div)
        check(h, lay.get_permittivity_profile(lb), [(d / div, dg(v)) for v in x], 2)
        q = h.real("q", lo=0, hi=1)
        lay = E.VaryingMixtureLayer(mix, d, div, lambda z: 1 - q * z * z)
        check(h, lay.get_permittivity_profile(lb), [(d / div, dg(1 - q * v * v)) for v in x], 2)
        lay.set_fraction_modulation(lambda z: q)
        check(h, lay.get_permittivity_profile(lb), [(d / div, dg(q)) for v in x], 2)
        h.eq("stored fraction kept", mix.get_tensor(lb), dg(stored))


@R.case()
def varying_mixture_zero_thickness(h):
    E = h.elli
    e = h.cplx("e")
    m = E.IsotropicMaterial(table_disp(h, [e]))
    lay = E.VaryingMixtureLayer(E.VCAMaterial(m, m, 0.5), 0, 3)
    p = lay.get_permittivity_profile(h.arr(lams(1)))
    check(h, p, [(0, [[[e if i == j else 0 for j in range(3)] for i in range(3)]])] * 3, 1)


@R.case()
def repeated_inhomogeneous(h):
    """before / after count layers of the period, not slices"""
    E = h.elli
    t, u = tensor(h, "t"), tensor(h, "u")
    d, e = h.real("d", lo=0, sample=(1., 200.)), h.real("e", lo=0, sample=(1., 200.))
    h.assume(d > 0)
    a = h.angle("twist")
    tw = E.TwistedLayer(mat(h, t), d, 3, h.deg(a))
    r = E.RepeatedLayers([E.Layer(mat(h, u), e), tw], 2, 1, 1)
    T = [(d / 3, rotz(h, t, h.deg(a) * (2 * j + 1) / 6)) for j in range(3)]
    U = [(e, u)]
    check(h, r.get_permittivity_profile(h.arr(lams(1))), T + (U + T) * 2 + U, 1)


@R.case()
def repeated_inhomogeneous_many(h):
    """the same with many repetitions, further extra layers and nested periods"""
    E = h.elli
    t, u = tensor(h, "t"), tensor(h, "u")
    d, e = h.real("d", lo=0, sample=(1., 200.)), h.real("e", lo=0, sample=(1., 200.))
    h.assume(d > 0)
    a = h.angle("twist")
    lt, lu = E.TwistedLayer(mat(h, t), d, 2, h.deg(a)), E.Layer(mat(h, u), e)
    T = [(d / 2, rotz(h, t, h.deg(a) * (2 * j + 1) / 4)) for j in range(2)]
    U = [(e, u)]
    lb = h.arr(lams(1))
    for n, b, f in ((11, 1, 1), (12, 2, 1), (21, 0, 2), (33, 2, 0)):
        want = (U + T)[len(U + T) - (0, 2, 3)[b]:] + (U + T) * n + (U + T)[:(0, 1, 3)[f]]
        check(h, E.RepeatedLayers([lu, lt], n, b, f).get_permittivity_profile(lb), want, 1)
    inner = E.RepeatedLayers([lu, lt], 3, 1, 0)
    I = T + (U + T) * 3
    check(h, E.RepeatedLayers([inner, lu], 11, 1, 1).get_permittivity_profile(lb), U + (I + U) * 11 + I, 1)


@R.case()
def later_changes(h):
    E = h.elli
    ta, tb, tf, tx = (tensor(h, k) for k in "abfx")
    d, e = h.real("d", lo=0), h.real("e", lo=0)
    a = E.Layer(mat(h, ta), d)
    s = E.Structure(mat(h, tf), [a, E.RepeatedLayers([a], 2)], mat(h, tx))
    lb = h.arr(lams(1))
    p0 = s.get_permittivity_profile(lb)
    a.set_thickness(e)
    check(h, s.get_permittivity_profile(lb), [("inf", tf)] + [(e, ta)] * 3 + [("inf", tx)], 1)
    a.set_material(mat(h, tb))
    check(h, s.get_permittivity_profile(lb), [("inf", tf)] + [(e, tb)] * 3 + [("inf", tx)], 1)
    s.set_front_material(mat(h, tx))
    s.set_back_material(mat(h, tf))
    s.set_layers([a])
    check(h, s.get_permittivity_profile(lb), [("inf", tx), (e, tb), ("inf", tf)], 1)
    check(h, p0, [("inf", tf)] + [(d, ta)] * 3 + [("inf", tx)], 1)


@R.case()
def invalid_thickness(h):
    E = h.elli
    m = mat(h, tensor(h, "t"))
    d = h.real("d", lo=-5, hi=5)
    mk = {"Layer": lambda v: E.Layer(m, v), "Twisted": lambda v: E.TwistedLayer(m, v, 2, 90),
          "Mixture": lambda v: E.VaryingMixtureLayer(E.VCAMaterial(m, m, 0.5), v, 2)}
    for k, f in mk.items():
        obj = f(1)
        if h.branch(d < 0):
            h.raises(f"{k} negative", ValueError, lambda: f(d))
            h.raises(f"{k} set negative", ValueError, lambda: obj.set_thickness(d))
            h.eq(f"{k} kept", obj.thickness, 1)
        else:
            h.eq(f"{k} accepted", f(d).thickness, d)
            obj.set_thickness(d)
            h.eq(f"{k} set", obj.thickness, d)


@R.case()
def invalid_counts(h):
    E = h.elli
    m = mat(h, tensor(h, "t"))
    lay = E.Layer(m, 1)
    n = h.integer("n", -2, 3)
    if h.branch(n < 1):
        h.raises("repetitions", ValueError, lambda: E.RepeatedLayers([lay], n))
        h.raises("divisions", ValueError, lambda: E.TwistedLayer(m, 1, n, 90))
        h.raises("divisions mix", ValueError, lambda: E.VaryingMixtureLayer(E.VCAMaterial(m, m, 0.5), 1, n))
    else:
        h.same("repetitions kept", E.RepeatedLayers([lay], n).repetitions == n, True)
        h.same("divisions kept", E.TwistedLayer(m, 1, n, 90).div == n, True)
    if h.branch(n < 0):
        h.raises("before", ValueError, lambda: E.RepeatedLayers([lay], 1, n))
        h.raises("after", ValueError, lambda: E.RepeatedLayers([lay], 1, 0, n))
    else:
        r = E.RepeatedLayers([lay], 1, n, n)
        h.same("before kept", r.before == n, True)
        h.same("after kept", r.after == n, True)


@R.case()
def invalid_types(h):
    E = h.elli
    m = mat(h, tensor(h, "t"))
    lay = E.Layer(m, 1)
    disp = table_disp(h, [h.cplx("e")])
    for bad in (disp, lay, None, 1.5, "Si"):
        h.raises("layer material", TypeError, lambda: E.Layer(bad, 1))
        h.raises("twisted material", TypeError, lambda: E.TwistedLayer(bad, 1, 2, 90))
        h.raises("front", TypeError, lambda: E.Structure(bad, [], m))
        h.raises("back", TypeError, lambda: E.Structure(m, [], bad))
    h.raises("mixture needed", TypeError, lambda: E.VaryingMixtureLayer(m, 1, 2))
    for bad in ((lay,), lay, None, {0: lay}):
        h.raises("list needed", TypeError, lambda: E.Structure(m, bad, m))
        h.raises("list needed rep", TypeError, lambda: E.RepeatedLayers(bad, 1))
    for bad in ([m], [lay, m], [lay, None], [[lay]]):
        h.raises("layers needed", TypeError, lambda: E.Structure(m, bad, m))
        h.raises("layers needed rep", TypeError, lambda: E.RepeatedLayers(bad, 1))


@R.case()
def profiles_apart(h):
    """a profile keeps its values when the same structure is profiled at other wavelengths"""
    E = h.elli
    from .common import lin_disp
    co = [(h.cplx(f"a{i}"), h.cplx(f"b{i}")) for i in range(4)]
    ds = [lin_disp(h, a, b) for a, b in co]
    th = [h.real(f"d{i}", lo=0) for i in range(2)]
    m = E.IsotropicMaterial(ds[1])
    u = E.UniaxialMaterial(ds[2], ds[3])
    s = E.Structure(E.IsotropicMaterial(ds[0]), [E.Layer(m, th[0]), E.TwistedLayer(u, th[1], 2, h.const(90)), E.Layer(m, th[1])], m)
    l1, l2 = h.arr([400.0, 500.0]), h.arr([600.0, 700.0])
    p1 = s.get_permittivity_profile(l1)
    keep = [(d, [[[t[k, i, j] for j in range(3)] for i in range(3)] for k in range(2)]) for d, t in p1]
    p2 = s.get_permittivity_profile(l2)
    e = lambda k, l: co[k][0] + co[k][1] * l
    h.eq("later front", p2[0][1][:, 0, 0], [e(0, 600.0), e(0, 700.0)])
    h.eq("later layer", p2[1][1][:, 1, 1], [e(1, 600.0), e(1, 700.0)])
    for i, ((d, t), (d0, t0)) in enumerate(zip(p1, keep)):
        h.eq(f"kept{i}", t, t0)
    h.eq("first", p1[1][1][:, 2, 2], [e(1, 400.0), e(1, 500.0)])
