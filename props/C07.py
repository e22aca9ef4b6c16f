"""C07 the 2x2 and the 4x4 solver agree on isotropic multilayers."""
import itertools

from symx.harness import Registry
from .stack import Front, solver, evaluate, long_stack

R = Registry()
BOUNDS = "up to 2 layers (thorough 3) of any media, 5 to 25 quarter-wave layers of given indices (some of any thickness, some absorbing), one or two wavelengths, every combination of lossless / absorbing / evanescent layers and exit media, all thicknesses >= 0, all angles in (0,90) and exactly 0"
OUTSIDE = "other long stacks; the critical angle itself; overflow of the exponentials of very thick absorbing layers"


def stack(h, kinds, exit, normal=False):
    f = Front(h, normal)
    ls = []
    for i, k in enumerate(kinds):
        m = f.medium(f"m{i}", k)
        if k == "total":
            h.assume(h.np.imag(m.q) > 1e-9)
        d = h.real(f"d{i}", lo=0, sample=(1.0, 200.0))
        ls.append((m, d))
    b = f.medium("t", exit)
    if exit == "total":
        h.assume(h.np.imag(b.q) > 1e-9)
    return f, ls, b


def compare(h, a, b, tag=""):
    h.eq(tag + "r", a.jones_matrix_r, b.jones_matrix_r)
    h.eq(tag + "t", a.jones_matrix_t, b.jones_matrix_t)


# |r|^2 and the power factor are compared where their polynomials stay small (the factor depends on the outer media)
POWERS = {("none", "real"), ("none", "abs"), ("none", "total"), ("real", "real"), ("total", "real"), ("real", "abs"),
          ("total", "total")}

K3 = ("real", "abs", "total")


def add(kinds, exit, normal=False, prop=None, quick=True):
    @R.case(name="stack", kinds="+".join(kinds) or "none", exit=exit, normal=normal, prop=prop or "default", quick=quick,
            opts={"timeout": 300})
    def agree(h, kinds, exit, normal, prop):
        ks = [] if kinds == "none" else kinds.split("+")
        f, ls, b = stack(h, ks, exit, normal)
        lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
        h.assume(lb > 0)
        a = evaluate(h, f, ls, b, lb, solver(h, "2x2"))
        c = evaluate(h, f, ls, b, lb, solver(h, "4x4", None if prop == "default" else prop))
        compare(h, a, c)
        if (kinds, exit) in POWERS or normal:
            h.eq("R", a.R_matrix, c.R_matrix)
            h.eq("T", a.T_matrix, c.T_matrix)


for k in K3:
    for e in K3:
        add([k], e)
for e in K3:
    add([], e)
for k in ("real", "abs"):
    add([k], "abs", normal=True)
add(["abs"], "real", prop="torch")
for k in K3:
    add([k], "real", prop="eig")
add(["abs"], "abs", prop="scipy")
for k in itertools.product(K3, repeat=2):
    add(list(k), "abs", quick=k in (("real", "abs"), ("abs", "total"), ("total", "real")))
for k in (("real", "abs", "total"), ("abs", "abs", "abs"), ("real", "real", "real")):
    add(list(k), "abs", quick=False)
    add(list(k), "real", quick=False)
add(["real", "abs", "real", "abs"], "real", quick=False)


for n, sym, ab in ((5, (0, 4), (2,)), (12, (0, 6, 11), ()), (25, (0, 24), ()), (25, (), (3, 23))):
    for normal in (False, True):
        @R.case(name="long", n=n, sym=",".join(map(str, sym)), ab=",".join(map(str, ab)), normal=normal, opts={"timeout": 300})
        def long(h, n, sym, ab, normal):
            """many layers: quarter-wave ones with given indices, some with any thickness; any angle and front index"""
            f = Front(h, normal)
            lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
            h.assume(lb > 0)
            ls = long_stack(h, f, n, lb, *([int(x) for x in t.split(",") if x] for t in (sym, ab)))
            b = f.medium("t", "real")
            a = evaluate(h, f, ls, b, lb, solver(h, "2x2"))
            c = evaluate(h, f, ls, b, lb, solver(h, "4x4"))
            compare(h, a, c)
