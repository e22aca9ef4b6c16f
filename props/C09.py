"""C09 equivalent descriptions of a stack give equal results."""
from symx.harness import Registry
from .stack import Front, Medium, solver, evaluate, iso, eps_disp

R = Registry()
BOUNDS = "up to 3 layers after rewriting, one wavelength, lossless / absorbing / evanescent layers and exit media, rotated biaxial crystals at normal incidence and principal-axis biaxial crystals at any angle (4x4), all thicknesses and angles"
OUTSIDE = "generally oriented crystals at oblique incidence; longer stacks; exit media with 0 < Im q < 1e-9 (nearly transparent); rounding"


def lam(h):
    lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
    h.assume(lb > 0)
    return lb


def thick(h, name):
    return h.real(name, lo=0, sample=(1.0, 150.0))


def both(h, a, b, tag="", pr=1, pt=1):
    h.eq(tag + "r", a.jones_matrix_r * pr, b.jones_matrix_r)
    h.eq(tag + "t", a.jones_matrix_t * pt, b.jones_matrix_t)


def med(h, f, name, kind):
    m = f.medium(name, kind)
    if kind == "total" or (kind == "abs" and name == "t"):
        h.assume(h.np.imag(m.q) > 1e-9)
    return m


SOLS = (("2x2", None), ("4x4", None), ("4x4", "eig"))
for sol, prop in SOLS:
    P = dict(sol=sol, prop=prop or "default")

    for kind in ("real", "abs", "total"):
        for exit in ("real", "abs"):
            quick = prop is None or (kind, exit) == ("abs", "real")

            @R.case(name="split", kind=kind, exit=exit, quick=quick, **P)
            def split(h, kind, exit, sol, prop):
                f = Front(h)
                m, b = med(h, f, "m", kind), med(h, f, "t", exit)
                d1, d2, lb = thick(h, "d1"), thick(h, "d2"), lam(h)
                s = solver(h, sol, prop)
                both(h, evaluate(h, f, [(m, d1), (m, d2)], b, lb, s), evaluate(h, f, [(m, d1 + d2)], b, lb, s))

    @R.case(name="zero_layer", quick=prop is None, **P)
    def zero(h, sol, prop):
        f = Front(h)
        m, z, b = med(h, f, "m", "abs"), med(h, f, "z", "real"), med(h, f, "t", "real")
        d, lb = thick(h, "d"), lam(h)
        s = solver(h, sol, prop)
        ref = evaluate(h, f, [(m, d)], b, lb, s)
        both(h, evaluate(h, f, [(z, 0), (m, d)], b, lb, s), ref, "before ")
        both(h, evaluate(h, f, [(m, d), (z, 0.0)], b, lb, s), ref, "after ")

    @R.case(name="zero_layers_only", quick=prop is None, **P)
    def zero2(h, sol, prop):
        f = Front(h)
        z, w, b = med(h, f, "z", "abs"), med(h, f, "w", "real"), med(h, f, "t", "real")
        lb = lam(h)
        s = solver(h, sol, prop)
        both(h, evaluate(h, f, [(z, 0), (w, 0)], b, lb, s), evaluate(h, f, [], b, lb, s))

    for exit in ("real", "abs", "total"):
        @R.case(name="front_medium_layer", exit=exit, quick=prop is None, **P)
        def front(h, exit, sol, prop):
            f = Front(h)
            b = med(h, f, "t", exit)
            d, lb = thick(h, "d"), lam(h)
            s = solver(h, sol, prop)
            ph = h.exp(2j * h.np.pi * f.q * d / lb)
            both(h, evaluate(h, f, [], b, lb, s), evaluate(h, f, [(f, d)], b, lb, s), pr=ph * ph, pt=ph)

        @R.case(name="back_medium_layer", exit=exit, quick=prop is None, **P)
        def back(h, exit, sol, prop):
            f = Front(h)
            b = med(h, f, "t", exit)
            d, lb = thick(h, "d"), lam(h)
            s = solver(h, sol, prop)
            ph = h.exp(2j * h.np.pi * b.q * d / lb)
            both(h, evaluate(h, f, [], b, lb, s), evaluate(h, f, [(b, d)], b, lb, s), pt=ph)

    @R.case(name="one_medium", quick=prop is None, **P)
    def homogeneous(h, sol, prop):
        f = Front(h)
        d1, d2, lb = thick(h, "d1"), thick(h, "d2"), lam(h)
        r = evaluate(h, f, [(f, d1), (f, d2)], f, lb, solver(h, sol, prop))
        ph = h.exp(2j * h.np.pi * f.q * (d1 + d2) / lb)
        h.eq("r", r.jones_matrix_r, [[[0, 0], [0, 0]]])
        h.eq("t", r.jones_matrix_t, [[[ph, 0], [0, ph]]])
        h.eq("R", r.R_matrix, [[[0, 0], [0, 0]]])
        h.eq("T", r.T_matrix, [[[1, 0], [0, 1]]])

    @R.case(name="scaling", quick=prop is None, **P)
    def scaling(h, sol, prop):
        f = Front(h)
        m, w, b = med(h, f, "m", "abs"), med(h, f, "w", "real"), med(h, f, "t", "real")
        d1, d2, lb = thick(h, "d1"), thick(h, "d2"), lam(h)
        c = h.real("scale", positive=True, sample=(0.5, 2.0))
        s = solver(h, sol, prop)
        both(h, evaluate(h, f, [(m, d1), (w, d2)], b, lb, s), evaluate(h, f, [(m, d1 * c), (w, d2 * c)], b, lb * c, s))

    for before, after in ((0, 0), (1, 0), (0, 1)):
        @R.case(name="repetition", before=before, after=after, quick=prop is None and sol == "4x4" or (before, after) == (0, 0), **P)
        def rep(h, before, after, sol, prop):
            E = h.elli
            f = Front(h)
            m, w, b = med(h, f, "m", "real"), med(h, f, "w", "real"), med(h, f, "t", "real")
            d1, d2, lb = thick(h, "d1"), thick(h, "d2"), lam(h)
            s = solver(h, sol, prop)
            u = [(m, d1), (w, d2)]
            n = 2 if not before + after else 1
            seq = (u[-before:] if before else []) + u * n + u[:after]
            rl = E.RepeatedLayers([E.Layer(iso(h, x), d) for x, d in u], n, before, after)
            a = E.Structure(iso(h, f), [rl], iso(h, b)).evaluate(lb, f.deg, **s)
            both(h, a, evaluate(h, f, seq, b, lb, s))


# ---------------------------------------------------------------- anisotropic layers
def crystals(h, mode):
    """front, two crystal builders"""
    from .C08 import biaxial, crystal

    if mode == "principal":
        f = Front(h)
        e = biaxial(h, f, "c", "rr")
        return f, (lambda: crystal(h, e)), f.medium("t", "real")
    f = Front(h, True)
    a, c = h.real("na", positive=True, sample=(1.0, 2.0)), h.real("nb", positive=True, sample=(1.0, 2.0))
    h.hint(a, c)
    g = h.angle("phi")
    return f, (lambda: crystal(h, (a * a, c * c, 2), h.elli.rotation_v_theta([0, 0, 1], h.deg(g)))), f.medium("t", "real")


for mode in ("principal", "in-plane"):
    @R.case(name="crystal_split", mode=mode, opts={"timeout": 300})
    def csplit(h, mode):
        from .C08 import run4
        f, mk, b = crystals(h, mode)
        d1, d2, lb = thick(h, "d1"), thick(h, "d2"), lam(h)
        both(h, run4(h, f, [(mk(), d1), (mk(), d2)], b, lb), run4(h, f, [(mk(), d1 + d2)], b, lb))

    @R.case(name="crystal_zero_and_scale", mode=mode, opts={"timeout": 300})
    def czero(h, mode):
        from .C08 import run4
        f, mk, b = crystals(h, mode)
        d, lb = thick(h, "d"), lam(h)
        c = h.real("scale", positive=True, sample=(0.5, 2.0))
        ref = run4(h, f, [(mk(), d)], b, lb)
        both(h, run4(h, f, [(mk(), 0), (mk(), d)], b, lb), ref, "zero ")
        both(h, run4(h, f, [(mk(), d * c)], b, lb * c), ref, "scaled ")
        ph = h.exp(2j * h.np.pi * f.q * d / lb)
        both(h, ref, run4(h, f, [(iso(h, f), d), (mk(), d)], b, lb), "front medium ", pr=ph * ph, pt=ph)


@R.case(name="twisted_layer_without_twist")
def twist0(h):
    """a twisted or graded layer that does not vary equals the plain layer"""
    from .C08 import run4
    E = h.elli
    f = Front(h)
    m, b = f.medium("m", "abs"), f.medium("t", "real")
    e, lb = thick(h, "d"), lam(h)
    d = 6 * e
    h.exp(2j * h.np.pi * m.q * e / lb)   # the phase every slice is a multiple of
    ref = run4(h, f, [(iso(h, m), d)], b, lb)
    st = E.Structure(iso(h, f), [E.TwistedLayer(iso(h, m), d, 3, 90)], iso(h, b))
    both(h, st.evaluate(lb, f.deg, **solver(h, "4x4")), ref, "isotropic twisted ")
    st = E.Structure(iso(h, f), [E.VaryingMixtureLayer(E.VCAMaterial(iso(h, m), iso(h, m), 0.3), d, 2)], iso(h, b))
    both(h, st.evaluate(lb, f.deg, **solver(h, "4x4")), ref, "graded mixture of one medium ")
