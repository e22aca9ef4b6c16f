"""C10 reciprocity of isotropic stacks."""
from symx.harness import Registry
from .stack import Front, solver, evaluate, long_stack

R = Registry()
BOUNDS = "up to 2 layers (thorough 3) of any media, 3 to 25 quarter-wave layers of given indices (some of any thickness, some absorbing), one wavelength, lossless / absorbing / evanescent layers, lossless outer media, all thicknesses, angles in (0,90) and exactly 0"
OUTSIDE = "other long stacks; rounding"


def add(sol, kinds, normal=False, power=True, quick=True):
    @R.case(name="reverse", sol=sol, kinds="+".join(kinds) or "none", normal=normal, power=power, quick=quick, opts={"timeout": 300})
    def rev(h, sol, kinds, normal, power):
        f = Front(h, normal)
        b = f.medium("t", "real")
        ls = []
        for i, k in enumerate([] if kinds == "none" else kinds.split("+")):
            m = f.medium(f"m{i}", k)
            if k == "total":
                h.assume(h.np.imag(m.q) > 1e-9)
            ls.append((m, h.real(f"d{i}", lo=0, sample=(1.0, 150.0))))
        lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
        h.assume(lb > 0)
        s = solver(h, sol)
        a = evaluate(h, f, ls, b, lb, s)
        c = evaluate(h, f.turned(b), ls[::-1], f, lb, s)
        # amplitudes: flux-normalised transmission is the same both ways
        h.eq("t", a.jones_matrix_t * b.q, c.jones_matrix_t * f.q)
        if power:
            h.eq("T", a.T_matrix, c.T_matrix)
            h.eq("T unpolarised", a.T, c.T)
            if not any(k == "abs" for k in kinds.split("+")):
                h.eq("R", a.R_matrix, c.R_matrix)


for sol in ("2x2", "4x4"):
    add(sol, [])
    for k in ("real", "abs", "total"):
        add(sol, [k])
        add(sol, [k], True) if k != "total" else None
    for ks in (("real", "real"), ("real", "abs"), ("abs", "abs"), ("total", "real")):
        add(sol, ks, power=False)
    add(sol, ("real", "real"), True)
    add(sol, ("real", "abs", "total"), power=False, quick=False)
    add(sol, ("abs", "abs", "abs"), power=False, quick=False)
    add(sol, ("real", "real"), power=True, quick=False)


for sol in ("2x2", "4x4"):
    for n, sym, ab in ((3, (1,), (0,)), (4, (), (0, 2)), (8, (0, 7), (3,)), (25, (0, 24), ()), (25, (), (2, 20))):
        @R.case(name="long", sol=sol, n=n, sym=",".join(map(str, sym)), ab=",".join(map(str, ab)), opts={"timeout": 300})
        def long(h, sol, n, sym, ab):
            """many quarter-wave layers with given indices, some of any thickness"""
            f = Front(h)
            b = f.medium("t", "real")
            lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
            h.assume(lb > 0)
            ls = long_stack(h, f, n, lb, *([int(x) for x in t.split(",") if x] for t in (sym, ab)))
            s = solver(h, sol)
            a = evaluate(h, f, ls, b, lb, s)
            c = evaluate(h, f.turned(b), ls[::-1], f, lb, s)
            h.eq("t", a.jones_matrix_t * b.q, c.jones_matrix_t * f.q)
            if not ab:
                h.eq("R", a.R_matrix, c.R_matrix)
