"""C14 wavelengths are computed independently."""
from symx.harness import Registry
from .common import jones, make_result
from .stack import Front, Medium, solver, eps_disp, evaluate, long_stack, LONG

R = Registry()
BOUNDS = "arrays of 2 and 3 wavelengths, every order and subset of 3; spectra of 100 (40 for the other propagators) unordered wavelengths with given normal wave numbers; dispersive front, layer and exit media whose class (lossless, absorbing, evanescent) differs from wavelength to wavelength, dispersive crystals; both solvers and all propagators; every derived quantity of arbitrary Jones matrices"
OUTSIDE = "other array lengths; rounding"




def table(h, values):
    from .common import table_disp
    return table_disp(h, values)


def scene(h, classes, layers=1):
    """media of a stack for len(classes) wavelengths, common angle of incidence; classes[k] = (layer class, exit class)"""
    E = h.elli
    f0 = Front(h)
    fs, Ls, Bs = [], [], []
    for k, (lc, bc) in enumerate(classes):
        f = object.__new__(Front)
        f.h, f.normal, f.theta, f.s, f.c = h, False, f0.theta, f0.s, f0.c
        f.K = f0.K if k == 0 else h.real(f"K{k}_", positive=True, sample=(0.3, 1.2))
        f.n = f.K / f.s
        f.q = f.n * f.c
        f.eps = f.n * f.n
        h.hint(f.n, f.q)
        m, b = f.medium(f"m{k}", lc), f.medium(f"t{k}", bc)
        for kind, x in ((lc, m), (bc, b)):
            if kind in ("total", "abs"):
                h.assume(h.np.imag(x.q) > 1e-9)
        fs.append(f.eps)
        Ls.append(m.eps)
        Bs.append(b.eps)
    d = h.real("d", lo=0, sample=(1.0, 30.0))
    mk = lambda v: E.IsotropicMaterial(table(h, v))
    return E.Structure(mk(fs), [E.Layer(mk(Ls), d)] * layers, mk(Bs)), f0.deg


def check(h, st, deg, sol, orders):
    n = 3
    single = {}
    for k in range(n):
        single[k] = st.evaluate(h.arr([100.0 * (k + 1)]), deg, **sol)
    for o in orders:
        r = st.evaluate(h.arr([100.0 * (k + 1) for k in o]), deg, **sol)
        nm = "".join(map(str, o))
        h.same(nm + " shape", (tuple(r.jones_matrix_r.shape), tuple(r.jones_matrix_t.shape)), ((len(o), 2, 2),) * 2)
        for j, k in enumerate(o):
            h.eq(f"{nm} r[{j}]", r.jones_matrix_r[j], single[k].jones_matrix_r[0])
            h.eq(f"{nm} t[{j}]", r.jones_matrix_t[j], single[k].jones_matrix_t[0])
    s = st.evaluate(200.0, deg, **sol)
    h.eq("scalar", [s.jones_matrix_r, s.jones_matrix_t], [single[1].jones_matrix_r, single[1].jones_matrix_t])


MIX = [("real", "real"), ("abs", "abs"), ("total", "real")], [("abs", "total"), ("real", "abs"), ("real", "total")]
ORD = [(0, 1, 2), (2, 0, 1), (1, 2)]
for i, mix in enumerate(MIX):
    for sol, prop in (("2x2", None), ("4x4", None), ("4x4", "scipy"), ("4x4", "torch"), ("4x4", "eig"), ("4x4", "linear")):
        @R.case(name="stack", mix=i, sol=sol, prop=prop or "default", quick=prop in (None, "eig") or i == 0, opts={"timeout": 200})
        def stack(h, mix, sol, prop):
            st, deg = scene(h, MIX[mix])
            check(h, st, deg, solver(h, sol, prop), ORD)


@R.case(name="more_orders", sol="2x2", quick=False)
@R.case(name="more_orders", sol="4x4", quick=False)
def orders(h, sol):
    st, deg = scene(h, MIX[0], layers=2)
    check(h, st, deg, solver(h, sol), [(2, 1, 0), (0, 2, 1), (1, 0, 2), (1, 2, 0), (0, 0, 1), (2, 0)])


for sol, prop, n in (("2x2", None, 100), ("4x4", None, 100), ("4x4", "eig", 40), ("4x4", "torch", 40), ("4x4", "linear", 40)):
    @R.case(name="many", sol=sol, prop=prop or "default", n=n, opts={"timeout": 400})
    def many(h, sol, prop, n):
        """a long spectrum, not in order: given normal wave numbers (different at each wavelength), any thickness, angle and front index"""
        E = h.elli
        f = Front(h)
        h.assume(f.K > 1e-8)
        ms = [(m, h.const(a) / b2) for (m, _), (a, b2) in zip(long_stack(h, f, 10, 100.0), LONG)]
        for a, c in ((3, 5), (12, 13), (8, 17)):
            sn, cs = h.const(a) / c, h.sqrt(1 - (h.const(a) / c) ** 2)
            ms.append((Medium(f.K * cs, 1j * f.K * sn, f.K * f.K * cs * cs, 1j * sn / cs), sn))
        m = [ms[(k * 7 + k // 13) % 13] for k in range(n)]
        b = [ms[(k * 3 + k // 20 + 1) % 13][0] for k in range(n)]
        d = h.real("d", lo=0, sample=(1.0, 30.0))
        # a wavelength proportional to the wave number: few different phases
        lam = [400 * x[1] * (1 + k % 3) for k, x in enumerate(m)]
        h.exp(2j * h.np.pi * f.K * d / 2400)
        h.exp(-2 * h.np.pi * f.K * d / 2400)
        m = [x[0] for x in m]
        mk = lambda v: E.IsotropicMaterial(eps_disp(h, v))
        s = solver(h, sol, None if prop == "default" else prop)
        r = E.Structure(mk([f.eps] * n), [E.Layer(mk([x.eps for x in m]), d)], mk([x.eps for x in b])).evaluate(h.arr(lam), f.deg, **s)
        h.same("shape", tuple(r.jones_matrix_r.shape), (n, 2, 2))
        one = {}
        for k in range(n):
            key = (id(m[k]), id(b[k]), k % 3)
            if key not in one:
                o = evaluate(h, f, [(m[k], d)], b[k], h.arr([lam[k]]), s)
                one[key] = o.jones_matrix_r[0], o.jones_matrix_t[0]
            h.eq("r", r.jones_matrix_r[k], one[key][0])
            h.eq("t", r.jones_matrix_t[k], one[key][1])


for prop in (None, "eig", "linear"):
    @R.case(name="crystal", prop=prop or "default")
    def crystal(h, prop):
        E = h.elli
        from .C08 import biaxial
        f = Front(h)
        es = [biaxial(h, f, f"c{k}", "rr" if k < 2 else "rt") for k in range(3)]
        m = E.BiaxialMaterial(*[table(h, [e[i] for e in es]) for i in range(3)])
        b = [f.medium("t0", "real"), f.medium("t1", "total"), f.medium("t2", "real")]
        h.assume(h.np.imag(b[1].q) > 1e-9)
        d = h.real("d", lo=0, sample=(1.0, 30.0))
        st = E.Structure(E.IsotropicMaterial(table(h, [f.eps] * 3)), [E.Layer(m, d)], E.IsotropicMaterial(table(h, [x.eps for x in b])))
        check(h, st, f.deg, solver(h, "4x4", None if prop == "default" else prop), [(0, 1, 2), (2, 0, 1)] if prop == "default" else [(2, 0, 1)])


@R.case(name="crystal_exit", opts={"timeout": 200})
def crystal_exit(h):
    E = h.elli
    from .C13 import exit_crystal
    f = Front(h)
    e, _, _ = exit_crystal(h, f, "rt")
    b = f.medium("t1", "total")
    h.assume(h.np.imag(b.q) > 1e-9)
    m = E.BiaxialMaterial(*[table(h, [e[i], b.eps, 2 * e[i]]) for i in range(3)])
    st = E.Structure(E.IsotropicMaterial(table(h, [f.eps, f.eps, 2 * f.eps])), [], m)
    one = [st.evaluate(h.arr([100.0 * (k + 1)]), f.deg, **solver(h, "4x4")) for k in range(3)]
    r = st.evaluate(h.arr([300.0, 100.0, 200.0]), f.deg, **solver(h, "4x4"))
    for j, k in enumerate((2, 0, 1)):
        h.eq(f"r[{j}]", r.jones_matrix_r[j], one[k].jones_matrix_r[0])


QUANT = ["R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "jones_matrix_rc", "jones_matrix_tc", "rho", "rho_t", "rho_matrix",
         "rho_matrix_t", "psi", "psi_t", "psi_matrix", "psi_matrix_t", "delta", "delta_t", "mueller_matrix"]
for qs in (QUANT[:8], QUANT[8:16], QUANT[16:18], QUANT[18:]):
    for vec in (None, (1, 2j)):
        @R.case(name="derived", q=" ".join(qs), vec=str(vec), quick=vec is None, opts={"timeout": 200, "max_paths": 40})
        def derived(h, q, vec):
            n = 2
            jr, jt = jones(h, "r", n), jones(h, "t", n)
            for m in jr + jt:
                h.assume(m[1][1] != 0)
                if "delta" in q:
                    h.assume(m[0][0] != 0)
                    h.assume(m[0][1] != 0)
                    h.assume(m[1][0] != 0)
            pc = [h.real(f"pc{k}", positive=True) for k in range(n)]
            v = None if vec == "None" else h.arr([1, 2j])
            r = make_result(h, jr, jt, v, power=pc)
            s = [make_result(h, [jr[k]], [jt[k]], v, power=[pc[k]]) for k in range(n)]
            for nm in q.split():
                a = getattr(r, nm)
                b = [getattr(x, nm) for x in s]
                if "delta" in nm:
                    # angles: whole turns aside, both are in the same range
                    for k in range(n):
                        h.eq(f"{nm}[{k}]", h.exp(1j * h.np.deg2rad(a[k])), h.exp(1j * h.np.deg2rad(b[k][0])))
                    continue
                for k in range(n):
                    h.eq(f"{nm}[{k}]", a[k], b[k][0])


@R.case(name="mixed_delta_branches")
def delta_rows(h):
    """diagonal matrices; the sign decisions of one wavelength do not leak into another"""
    z = [h.cplx(f"z{k}") for k in range(2)]
    for x in z:
        h.assume(x != 0)
    mk = lambda zs: make_result(h, [[[x, 0], [0, 1]] for x in zs], [[[x, 0], [0, 1]] for x in zs])
    r = mk(z)
    s = [mk([x]) for x in z]
    for nm in ("delta", "delta_t", "psi", "rho"):
        h.eq(nm, getattr(r, nm), [getattr(x, nm)[0] for x in s])


for sol in ("2x2", "4x4"):
    for at in (0, 2):
        @R.case(name="coinciding", sol=sol, at=at)
        def coinciding(h, sol, at):
            """adjacent media that agree at one wavelength only"""
            E = h.elli
            f0 = Front(h)
            fs, As, Bs, xs = [], [], [], []
            for k in range(3):
                f = object.__new__(Front)
                f.h, f.normal, f.theta, f.s, f.c = h, False, f0.theta, f0.s, f0.c
                f.K = f0.K if k == 0 else h.real(f"K{k}_", positive=True, sample=(0.3, 1.2))
                f.n = f.K / f.s
                f.q, f.eps = f.n * f.c, f.n * f.n
                h.hint(f.n, f.q)
                a = f.medium(f"a{k}", "real")
                b = a if k == at else f.medium(f"b{k}", "real")
                fs.append(f.eps)
                As.append(a.eps)
                Bs.append(b.eps)
                xs.append(a.eps if k == at else f.eps)
            mk = lambda v: E.IsotropicMaterial(table(h, v))
            st = E.Structure(mk(fs), [E.Layer(mk(As), 20), E.Layer(mk(Bs), 30), E.Layer(mk(xs), 10)], mk(Bs))
            kw = solver(h, "2x2") if sol == "2x2" else solver(h, "4x4", "linear")
            check(h, st, f0.deg, kw, [(0, 1, 2), (2, 0, 1), (0, 2)])
