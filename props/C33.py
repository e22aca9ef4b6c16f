"""C33 evaluations are isolated."""
from symx.harness import Registry
from .common import lin_disp
from .stack import Front, solver, evaluate, iso, eps_disp

R = Registry()
BOUNDS = "one or two layers, up to 2 wavelengths, symbolic media, thicknesses, angles and incident polarisation; every sequence of up to 3 operations (change thickness, material, layers, angle, wavelength, polarisation, evaluate) between two evaluations (quick 2); the same for 13 changes in place of dispersions, materials, mixtures, repeated, twisted and varying layers, compared with structures built anew (permittivity profile and tensors)"
OUTSIDE = "writing into arrays handed out by a result; threads"


def scene(h, tag="", layers=1):
    E = h.elli
    f = Front(h)
    ms = [f.medium(f"m{tag}{i}", "real" if i % 2 else "abs") for i in range(layers)]
    b = f.medium("t" + tag, "real")
    ds = [h.real(f"d{tag}{i}", lo=0, sample=(1.0, 100.0)) for i in range(layers)]
    ls = [E.Layer(iso(h, m), d) for m, d in zip(ms, ds)]
    return f, ms, ds, b, E.Structure(iso(h, f), ls, iso(h, b))


def amp(r):
    return [r.jones_matrix_r, r.jones_matrix_t]


for sol in ("2x2", "4x4"):
    @R.case(name="inputs_untouched", sol=sol)
    def untouched(h, sol):
        E = h.elli
        f, ms, ds, b, st = scene(h, layers=2)
        lb = h.arr([400.0, 200.0])
        v = h.arr([h.cplx("v0"), h.cplx("v1")])
        v0 = [v[0], v[1]]
        layers, front, back = list(st.layers), st.front_material, st.back_material
        ex = E.Experiment(st, lb, f.deg, v)
        before = [m.get_tensor(lb) for m in [front, back] + [l.material for l in layers]]
        s = solver(h, sol)
        a = ex.evaluate(**s)
        ra = amp(a)
        c = ex.evaluate(**s)
        h.eq("repeated", amp(c), ra)
        h.eq("through the structure", amp(st.evaluate(lb, f.deg, **s)), ra)
        h.true("same layers", all(x is y for x, y in zip(st.layers, layers)) and len(st.layers) == 2)
        h.true("same media", st.front_material is front and st.back_material is back)
        h.eq("thicknesses", [l.thickness for l in st.layers], ds)
        h.eq("wavelengths", lb, [400.0, 200.0])
        h.eq("polarisation", v, v0)
        h.eq("angle", ex.theta_i, f.deg)
        h.true("structure kept", ex.structure is st)
        for x, m in zip(before, [front, back] + [l.material for l in layers]):
            h.eq("tensor", m.get_tensor(lb), x)
        h.eq("first result kept", amp(a), ra)

    @R.case(name="result_is_a_snapshot", sol=sol)
    def snapshot(h, sol):
        E = h.elli
        f, ms, ds, b, st = scene(h)
        lb = h.arr([400.0, 200.0])
        v = h.arr([h.cplx("v0"), h.cplx("v1")])
        h.assume(v[0] != 0)
        h.assume(v[1] != 0)
        v0 = [v[0], v[1]]
        ex = E.Experiment(st, lb, f.deg, v)
        r = ex.evaluate(**solver(h, sol))
        want = amp(r), r.rho, r.R_matrix[0, 1, 1], r.T_matrix[1, 0, 0]
        x, y = h.real("x", lo=0), f.medium("other", "real")
        # everything the result was made from changes
        st.layers[0].set_thickness(x)
        st.layers[0].set_material(iso(h, y))
        st.set_layers([E.Layer(iso(h, y), 5)])
        st.set_front_material(iso(h, y))
        st.set_back_material(iso(h, y))
        ex.set_theta(h.real("theta2"))
        ex.set_lbda(h.arr([123.0]))
        ex.set_vector(h.arr([1, 0]))
        lb[0] = 77.0
        v[0] = 7
        got = amp(r), r.rho, r.R_matrix[0, 1, 1], r.T_matrix[1, 0, 0]
        for n, a, c in zip(("amplitudes", "rho", "R", "T"), got, want):
            h.eq(n, a, c)
        e = r.experiment
        h.eq("wavelengths", e.lbda, [400.0, 200.0])
        h.eq("angle", e.theta_i, f.deg)
        h.eq("polarisation", e.jones_vector, v0)
        h.same("one layer", len(e.structure.layers), 1)
        h.eq("thickness", e.structure.layers[0].thickness, ds[0])
        h.eq("material", e.structure.layers[0].material.get_tensor(h.arr([400.0]))[0, 0, 0], ms[0].eps)
        h.eq("front", e.structure.front_material.get_tensor(h.arr([400.0]))[0, 1, 1], f.eps)
        h.eq("back", e.structure.back_material.get_tensor(h.arr([400.0]))[0, 2, 2], b.eps)

    @R.case(name="material_changes_later", sol=sol)
    def matlater(h, sol):
        """in-place changes of a shared material and dispersion do not reach an earlier result"""
        E = h.elli
        f, ms, ds, b, st = scene(h)
        m = E.UniaxialMaterial(eps_disp(h, [ms[0].eps]), eps_disp(h, [ms[0].eps]))
        st.layers[0].set_material(m)
        r = st.evaluate(h.arr([400.0]), f.deg, **solver(h, sol))
        want = amp(r)
        m.set_dispersion(eps_disp(h, [9]), eps_disp(h, [4]))
        m.set_rotation(E.rotation_euler(10, 20, 30))
        h.eq("amplitudes", amp(r), want)
        h.eq("material", r.experiment.structure.layers[0].material.get_tensor(h.arr([400.0]))[0],
             [[ms[0].eps, 0, 0], [0, ms[0].eps, 0], [0, 0, ms[0].eps]])


@R.case(name="results_apart")
def apart(h):
    """two results of one experiment: delta ranges, solvers and propagators do not influence each other"""
    E = h.elli
    f, ms, ds, b, st = scene(h)
    ex = E.Experiment(st, h.arr([400.0]), f.deg)
    a, c = ex.evaluate(**solver(h, "4x4")), ex.evaluate(**solver(h, "2x2"))
    ra, rc = amp(a), amp(c)
    h.assume(a.jones_matrix_r[0, 0, 0] != 0)
    h.assume(a.jones_matrix_r[0, 1, 1] != 0)
    rho = a.rho
    o = a.as_delta_range(0, 360) if hasattr(a, "as_delta_range") else a
    lin = ex.evaluate(**solver(h, "4x4", "linear"))
    again = ex.evaluate(**solver(h, "4x4"))
    h.eq("amplitudes a", amp(a), ra)
    h.eq("amplitudes c", amp(c), rc)
    h.eq("after another propagator", amp(again), ra)
    h.eq("rho", a.rho, rho)
    h.eq("rho again", again.rho, rho)
    del lin, o


def history(n, first):
    @R.case(name="history", n=n, first=first, quick=n == 2, opts={"timeout": 400, "max_paths": 1000})
    def hist(h, n, first):
        """whatever was done before, an evaluation describes the present state: compare with a freshly built experiment"""
        E = h.elli
        f, ms, ds, b, st = scene(h)
        y = f.medium("other", "real")
        x = h.real("x", lo=0, sample=(1.0, 50.0))
        s = solver(h, "2x2")
        ex = E.Experiment(st, h.arr([400.0]), f.deg)
        state = {"m": ms[0], "d": ds[0], "l": 400.0, "b": b, "extra": False}
        kept = []

        def fresh():
            ls = [(state["m"], state["d"])] + ([(y, x)] if state["extra"] else [])
            return amp(evaluate(h, f, ls, state["b"], state["l"], s))

        for i in range(n):
            op = first if i == 0 else h.integer(f"op{i}", 0, 5)
            if h.branch(op == 0):
                st.layers[0].set_thickness(x)
                state["d"] = x
            elif h.branch(op == 1):
                st.layers[0].set_material(iso(h, y))
                state["m"] = y
            elif h.branch(op == 2):
                ex.set_lbda(h.arr([200.0]))
                state["l"] = 200.0
            elif h.branch(op == 3):
                st.set_layers(list(st.layers[:1]) + [E.Layer(iso(h, y), x)])
                state["extra"] = True
            elif h.branch(op == 4):
                st.set_back_material(iso(h, y))
                state["b"] = y
            else:
                r = ex.evaluate(**s)
                kept.append((r, fresh()))
        h.eq("present state", amp(ex.evaluate(**s)), fresh())
        for r, w in kept:
            h.eq("earlier result", amp(r), w)


for first in range(6):
    history(2, first)
    history(3, first)


OPS = 13


def changes(n, first):
    @R.case(name="changes_in_place", n=n, first=first, quick=n == 2, opts={"timeout": 400, "max_paths": 1000})
    def inplace(h, n, first):
        """dispersions, materials and layers changed where they are: the structure is the one built anew from their present state"""
        E = h.elli
        pos = lambda nm: h.real(nm, lo=0.1, hi=9, sample=(1.0, 4.0))
        lb = h.arr([400.0, 300.0])
        rot = [h.np.array([[h.const(0.6), -h.const(0.8), 0], [h.const(0.8), h.const(0.6), 0], [0, 0, 1]]), h.np.array([[1, 0, 0], [0, h.const(0.28), -h.const(0.96)], [0, h.const(0.96), h.const(0.28)]])]

        def poly(e, terms):
            d = E.Polynomial(e)
            for f, k in terms:
                d.add(f, k)
            return d

        a, b, c = (pos(x) for x in "abc")
        S = {"a": a, "ta": [], "b": b, "c": c, "rot": None, "swap": False, "w": h.real("w", lo=0, hi=1), "hg": False, "n": 2, "rep": True, "t1": pos("t1"), "t2": pos("t2"), "div": 2, "ang": 90.0, "front": False}

        def build(S):
            da, db, dc = poly(S["a"], S["ta"]), poly(S["b"], []), poly(S["c"], [])
            u = E.UniaxialMaterial(*((db, da) if S["swap"] else (da, db)))
            if S["rot"] is not None:
                u.set_rotation(rot[S["rot"]])
            ma, mc = E.IsotropicMaterial(da), E.IsotropicMaterial(dc)
            mix = E.VCAMaterial(*((mc, ma) if S["hg"] else (ma, mc)), S["w"])
            l1, l2 = E.Layer(u, S["t1"]), E.Layer(mix, S["t2"])
            rep = E.RepeatedLayers([l1, l2] if S["rep"] else [l2], S["n"])
            tw = E.TwistedLayer(u, S["t1"], S["div"], S["ang"])
            var = E.VaryingMixtureLayer(mix, S["t2"], S["div"])
            st = E.Structure(mc if S["front"] else ma, [l1, rep, tw, var], mix)
            return dict(da=da, db=db, dc=dc, u=u, ma=ma, mc=mc, mix=mix, l1=l1, l2=l2, rep=rep, tw=tw, var=var, st=st)

        def seen(o):
            prof = o["st"].get_permittivity_profile(lb)
            return [d for d, _ in prof[1:-1]] + [t for _, t in prof] + [o[k].get_tensor(lb) for k in ("u", "ma", "mc", "mix")] + [o[k].get_refractive_index(lb) for k in ("ma", "mc")] + [o["da"].get_dielectric(lb), o["st"].layers[0].material.get_tensor(lb)]

        o, other = build(S), build(S)
        other_before = seen(other)
        for i in range(n):
            op = first if i == 0 else h.integer(f"op{i}", 0, OPS - 1)
            pick = next(k for k in range(OPS) if k == OPS - 1 or h.branch(op == k))
            x = pos(f"x{i}")
            if pick == 0:
                o["da"].add(x, 2)
                S["ta"] = S["ta"] + [(x, 2)]
            elif pick == 1:
                o["u"].set_rotation(rot[i % 2])
                S["rot"] = i % 2
            elif pick == 2:
                S["swap"] = not S["swap"]
                o["u"].set_dispersion(*((o["db"], o["da"]) if S["swap"] else (o["da"], o["db"])))
            elif pick == 3:
                S["w"] = x / 10
                o["mix"].set_fraction(S["w"])
            elif pick == 4:
                S["hg"] = not S["hg"]
                o["mix"].set_constituents(*((o["mc"], o["ma"]) if S["hg"] else (o["ma"], o["mc"])))
            elif pick == 5:
                S["n"] = 3 + i
                o["rep"].set_repetitions(S["n"])
            elif pick == 6:
                S["rep"] = False
                o["rep"].set_layers([o["l2"]])
            elif pick == 7:
                o["l1"].set_thickness(x)
                o["tw"].set_thickness(x)
                S["t1"] = x
            elif pick == 8:
                o["l2"].set_thickness(x)
                o["var"].set_thickness(x)
                S["t2"] = x
            elif pick == 9:
                S["div"] = 1 + i
                o["tw"].set_divisions(1 + i)
                o["var"].set_divisions(1 + i)
            elif pick == 10:
                S["ang"] = S["ang"] + 90
                o["tw"].set_angle(S["ang"])
            elif pick == 11:
                S["front"] = not S["front"]
                o["st"].set_front_material(o["mc"] if S["front"] else o["ma"])
            # looking at it changes nothing
            seen(o)
            o["l1"].get_permittivity_profile(h.arr([250.0]))
            o["mix"].get_tensor(h.arr([250.0]))
        want = seen(build(S))
        for k, (g, w) in enumerate(zip(seen(o), want)):
            h.eq(f"as built anew {k}", g, w)
        for k, (g, w) in enumerate(zip(seen(other), other_before)):
            h.eq(f"another structure {k}", g, w)


for first in range(OPS):
    changes(2, first)
    changes(3, first)


@R.case(name="experiments_apart")
def exps(h):
    """two experiments with a common structure, and two structures with a common layer"""
    E = h.elli
    f, ms, ds, b, st = scene(h)
    y = f.medium("other", "real")
    s = solver(h, "4x4")
    a, c = E.Experiment(st, h.arr([400.0]), f.deg), E.Experiment(st, h.arr([200.0]), f.deg, h.arr([1, 0]))
    st2 = E.Structure(iso(h, y), list(st.layers), iso(h, b))
    w = amp(a.evaluate(**s))
    c.set_lbda(h.arr([800.0]))
    c.set_vector(h.arr([0, 1]))
    c.set_theta(0)
    st2.set_back_material(iso(h, y))
    st2.set_layers([])
    c.evaluate(**s)
    # layers put into one of two structures made without any
    e1, e2 = (E.Structure(iso(h, f), [], iso(h, b)) for _ in range(2))
    e1.layers.append(st.layers[0])
    h.same("layers of the other", len(e2.layers), 0)
    h.eq("unchanged", amp(a.evaluate(**s)), w)
    h.eq("wavelength", a.lbda, [400.0])
    h.eq("angle", a.theta_i, f.deg)
    h.eq("vector", a.jones_vector, E.Experiment(st, h.arr([400.0]), f.deg).jones_vector)


@R.case(name="mean_keeps_results")
def mean(h):
    from .common import jones, make_result
    E = h.elli
    RL = h.mod("elli.result").ResultList
    J = [jones(h, f"r{k}", 1) for k in (0, 1)]
    rs = [make_result(h, j, j) for j in J]
    l = RL(list(rs))
    m = l.mean
    _ = l.R_matrix if hasattr(l, "R_matrix") else None
    del m
    for k in (0, 1):
        h.eq(f"result {k}", rs[k].jones_matrix_r, J[k])
        h.eq(f"result {k} t", rs[k].jones_matrix_t, J[k])
