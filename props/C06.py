"""C06 Fresnel interface coefficients in both solvers."""
from symx.harness import Registry
from .stack import Front, solver, evaluate

R = Registry()
BOUNDS = "one interface, one wavelength; front index any positive real, angle any in (0,90) degrees and exactly 0, back medium any lossless or absorbing index (Re, Im >= 0), total reflection included"
OUTSIDE = "grazing incidence (exactly 90 degrees), the critical angle itself (|n_t cos| <= 1e-9), media with negative index or gain; rounding"


def fresnel(f, b):
    """textbook amplitudes; r_p with the package's sign convention (r_p = (n_t cos_i - n_i cos_t)/(n_t cos_i + n_i cos_t))"""
    # cos_i = f.q/n_i etc.; multiply through by the indices: eps_t q_i - eps_i q_t
    rs = (f.q - b.q) / (f.q + b.q)
    ts = 2 * f.q / (f.q + b.q)
    rp = (b.eps * f.q - f.eps * b.q) / (b.eps * f.q + f.eps * b.q)
    tp = 2 * f.n * b.n * f.q / (b.eps * f.q + f.eps * b.q)
    return rs, rp, ts, tp


for sol in ("2x2", "4x4"):
    for kind in ("real", "abs", "total"):
        for normal in (False, True):
            if normal and kind == "total":
                continue

            @R.case(name="fresnel", sol=sol, kind=kind, normal=normal, opts={"timeout": 120})
            def fres(h, sol, kind, normal):
                f = Front(h, normal)
                b = f.medium("t", kind)
                if kind == "total":
                    # the solvers' own threshold for calling the exit wave evanescent
                    h.assume(h.np.imag(b.q) > 1e-9)
                r = evaluate(h, f, [], b, 500.0, solver(h, sol))
                rs, rp, ts, tp = fresnel(f, b)
                J, T = r.jones_matrix_r, r.jones_matrix_t
                h.same("shape", (tuple(J.shape), tuple(T.shape)), ((1, 2, 2), (1, 2, 2)))
                h.eq("no mixing", [J[0, 0, 1], J[0, 1, 0], T[0, 0, 1], T[0, 1, 0]], [0] * 4)
                h.eq("rp", J[0, 0, 0], rp)
                h.eq("rs", J[0, 1, 1], rs)
                h.eq("tp", T[0, 0, 0], tp)
                h.eq("ts", T[0, 1, 1], ts)
                # boundary conditions: tangential E and H continuous
                h.eq("s fields", 1 + J[0, 1, 1], T[0, 1, 1])
                h.eq("s slope", (1 - J[0, 1, 1]) * f.q, T[0, 1, 1] * b.q)
                h.eq("p fields", (1 + J[0, 0, 0]) * f.n, T[0, 0, 0] * b.n)
                h.eq("p slope", (1 - J[0, 0, 0]) * f.q * b.n, T[0, 0, 0] * b.q * f.n)
                if kind == "total":
                    h.eq("|rp| = 1", J[0, 0, 0] * h.conj(J[0, 0, 0]), 1)
                    h.eq("|rs| = 1", J[0, 1, 1] * h.conj(J[0, 1, 1]), 1)
                if normal:
                    h.eq("normal incidence", J[0, 0, 0], -J[0, 1, 1])
                h.eq("power", [r.R_matrix[0, 0, 0], r.R_matrix[0, 1, 1]], [rp * h.conj(rp), rs * h.conj(rs)])
                h.eq("power T", [r.T_matrix[0, 0, 0], r.T_matrix[0, 1, 1]],
                     [tp * h.conj(tp) * h.np.real(b.q) / f.q, ts * h.conj(ts) * h.np.real(b.q) / f.q])


for sol in ("2x2", "4x4"):
    @R.case(name="brewster", sol=sol)
    def brewster(h, sol):
        from .stack import Medium
        f = Front(h)
        n = f.n * f.s / f.c
        q = f.n * f.s * f.s / f.c
        h.hint(n, q, f.s)
        b = Medium(n, q, n * n, f.s)
        r = evaluate(h, f, [], b, 500.0, solver(h, sol))
        h.eq("p amplitude vanishes", r.jones_matrix_r[0, 0, 0], 0)
        h.eq("Rp", r.R_matrix[0, 0, 0], 0)

    @R.case(name="two_wavelengths", sol=sol)
    def two(h, sol):
        """each wavelength has its own back medium"""
        E = h.elli
        from .stack import eps_disp
        f = Front(h)
        b = [f.medium("t", "real"), f.medium("u", "abs")]
        mk = lambda v: E.IsotropicMaterial(eps_disp(h, v))
        st = E.Structure(mk([f.eps]), [], mk([m.eps for m in b]))
        r = st.evaluate(h.arr([400.0, 500.0]), f.deg, **solver(h, sol))
        for k in (0, 1):
            rs, rp, ts, tp = fresnel(f, b[k])
            h.eq(f"r{k}", r.jones_matrix_r[k], [[rp, 0], [0, rs]])
            h.eq(f"t{k}", r.jones_matrix_t[k], [[tp, 0], [0, ts]])

    @R.case(name="same_medium", sol=sol)
    def same(h, sol):
        f = Front(h)
        r = evaluate(h, f, [], f, 500.0, solver(h, sol))
        h.eq("r", r.jones_matrix_r, [[[0, 0], [0, 0]]])
        h.eq("t", r.jones_matrix_t, [[[1, 0], [0, 1]]])
