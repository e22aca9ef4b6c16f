"""C08 energy conservation."""
from symx.harness import Registry
from .stack import Front, solver, evaluate, eps_disp, iso, long_stack

R = Registry()
BOUNDS = "up to 2 layers (thorough 3) of any media, 6 to 25 quarter-wave layers of given indices, one wavelength; lossless isotropic layers (travelling and evanescent), principal-axis biaxial layers at any angle, any in-plane rotated biaxial layer at normal incidence; absorbing layer(s) between lossless media; passive (absorbing or evanescent) exit; all thicknesses, angles in (0,90) and exactly 0"
OUTSIDE = "anisotropic layers in general orientation at oblique incidence; absorbing exit media for R+T (the package's own power factor is documented as open there); other long stacks; rounding"
ASSUMPTIONS = "for absorbing layers the facts e^x >= 1+x and |sin x| <= |x| about the transcendental functions are given to the solver as axioms"


def sides(h, exit, normal=False):
    f = Front(h, normal)
    b = f.medium("t", exit)
    if exit == "total":
        h.assume(h.np.imag(b.q) > 1e-9)
    return f, b


def balance(h, r, total):
    Rm, Tm = r.R_matrix, r.T_matrix
    h.eq("R + T, p incidence", Rm[0, 0, 0] + Rm[0, 1, 0] + Tm[0, 0, 0] + Tm[0, 1, 0], 1)
    h.eq("R + T, s incidence", Rm[0, 0, 1] + Rm[0, 1, 1] + Tm[0, 0, 1] + Tm[0, 1, 1], 1)
    if total:
        h.eq("R = 1", [Rm[0, 0, 0] + Rm[0, 1, 0], Rm[0, 0, 1] + Rm[0, 1, 1]], [1, 1])
        h.eq("T = 0", Tm, [[[0, 0], [0, 0]]])


def unpolarised(h, r):
    h.eq("R + T, unpolarised", r.R + r.T, [1])


def lossless(sol, kinds, exit, normal=False, quick=True):
    @R.case(name="lossless", sol=sol, kinds="+".join(kinds) or "none", exit=exit, normal=normal, quick=quick, opts={"timeout": 400})
    def case(h, sol, kinds, exit, normal):
        f, b = sides(h, exit, normal)
        ls = []
        for i, k in enumerate([] if kinds == "none" else kinds.split("+")):
            m = f.medium(f"m{i}", k)
            if k == "total":
                h.assume(h.np.imag(m.q) > 1e-9)
            ls.append((m, h.real(f"d{i}", lo=0, sample=(1.0, 200.0))))
        lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
        h.assume(lb > 0)
        r = evaluate(h, f, ls, b, lb, solver(h, sol))
        balance(h, r, exit == "total")
        if len(ls) < 2:
            unpolarised(h, r)


for sol in ("2x2", "4x4"):
    for exit in ("real", "total"):
        lossless(sol, [], exit)
        for k in ("real", "total"):
            lossless(sol, [k], exit)
    lossless(sol, [], "real", True)
    lossless(sol, ["real"], "real", True)
    lossless(sol, ["real", "real"], "real")
    lossless(sol, ["real", "real"], "front", quick=False)
    lossless(sol, ["real", "total"], "front", quick=False)
    lossless(sol, ["total", "real"], "front", quick=False)
    lossless(sol, ["real", "real", "real"], "real", True)


for sol in ("2x2", "4x4"):
    for n, exit in ((6, "real"), (14, "real"), (25, "real"), (14, "total")):
        @R.case(name="long", sol=sol, n=n, exit=exit, opts={"timeout": 300})
        def long(h, sol, n, exit):
            """many quarter-wave layers with given indices, the last one of any thickness; any angle and front index"""
            f, b = sides(h, exit)
            lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
            h.assume(lb > 0)
            r = evaluate(h, f, long_stack(h, f, n, lb, (n - 1,)), b, lb, solver(h, sol))
            balance(h, r, exit == "total")


def biaxial(h, f, name, kind):
    """principal-axis biaxial lossless medium: s wave number K*ps, p wave number K*pp; kind: s/p travelling (r) or evanescent (t)"""
    K = f.K
    ps = h.real(name + "s", positive=True, sample=(0.3, 0.9))
    pp = h.real(name + "p", positive=True, sample=(0.3, 2.0))
    w = h.real(name + "w", positive=True, sample=(1.2, 3.0) if kind[1] == "r" else (0.2, 0.8))
    # eps_z = K^2 w; eps_x (1 - 1/w) = K^2 kp^2
    if kind[0] == "t":
        h.assume(ps < 1)
        ey = K * K * (1 - ps * ps)
    else:
        ey = K * K * (1 + ps * ps)
    if kind[1] == "t":
        h.assume(w < 1)
        ex = K * K * pp * pp * w / (1 - w)
    else:
        h.assume(w > 1)
        ex = K * K * pp * pp * w / (w - 1)
    h.hint(K * ps, K * pp)
    return ex, ey, K * K * w


def crystal(h, e, rot=None):
    m = h.elli.BiaxialMaterial(eps_disp(h, [e[0]]), eps_disp(h, [e[1]]), eps_disp(h, [e[2]]))
    if rot is not None:
        m.set_rotation(rot)
    return m


def run4(h, f, layers, b, lb, prop=None):
    E = h.elli
    st = E.Structure(iso(h, f), [E.Layer(m, d) for m, d in layers], iso(h, b))
    return st.evaluate(lb, f.deg, **solver(h, "4x4", prop))


for kind in ("rr", "rt"):
    for exit in ("real", "total"):
        for prop in (None, "eig"):
            @R.case(name="biaxial", kind=kind, exit=exit, prop=prop or "default", quick=prop is None)
            def bi(h, kind, exit, prop):
                f, b = sides(h, exit)
                e = biaxial(h, f, "c", kind)
                d = h.real("d", lo=0, sample=(1.0, 200.0))
                lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
                h.assume(lb > 0)
                r = run4(h, f, [(crystal(h, e), d)], b, lb, None if prop == "default" else prop)
                balance(h, r, exit == "total")


@R.case(name="waveplate", opts={"timeout": 400})
def plate(h):
    """normal incidence, in-plane rotated crystal"""
    f = Front(h, True)
    b = f.medium("t", "real")
    a, c = h.real("na", positive=True, sample=(1.0, 2.0)), h.real("nb", positive=True, sample=(1.0, 2.0))
    h.hint(a, c)
    g = h.angle("phi")
    ls = [(crystal(h, (a * a, c * c, 2), h.elli.rotation_v_theta([0, 0, 1], h.deg(g))), h.real("d", lo=0, sample=(1.0, 200.0)))]
    lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
    h.assume(lb > 0)
    r = run4(h, f, ls, b, lb)
    balance(h, r, False)


@R.case(name="waveplate_twice", quick=False, opts={"timeout": 600})
def plate2(h):
    f = Front(h, True)
    a, c = h.real("na", positive=True, sample=(1.0, 2.0)), h.real("nb", positive=True, sample=(1.0, 2.0))
    h.hint(a, c)
    g = h.angle("phi")
    d = h.real("d", lo=0, sample=(1.0, 200.0))
    ls = [(crystal(h, (a * a, c * c, 2)), d),
          (crystal(h, (a * a, c * c, 2), h.elli.rotation_v_theta([0, 0, 1], h.deg(g))), d)]
    lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
    h.assume(lb > 0)
    balance(h, run4(h, f, ls, f, lb), False)


# ---------------------------------------------------------------- absorption
def lost_power(h, Y, A, B, em, ep):
    """power lost between the faces of a layer with admittance Y; A, B the forward/backward amplitudes at the back face,
    em = exp(-i phi), ep = exp(i phi)"""
    a, b = h.np.real(Y), h.np.imag(Y)
    c, re, im = h.conj, h.np.real, h.np.imag
    flux = lambda u, v: a * (re(u * c(u)) - re(v * c(v))) - 2 * b * im(u * c(v))
    return flux(A * em, B * ep) - flux(A, B)


COMBOS = [("abs", "real"), ("none", "abs"), ("real", "abs"), ("abs", "abs"), ("total", "abs"), ("abs", "total")]
for sol in ("2x2", "4x4"):
    for pol in ("s", "p"):
        for layer, exit in COMBOS:
            @R.case(name="absorbed", sol=sol, pol=pol, layer=layer, exit=exit, quick=exit != "total",
                    opts={"timeout": 400})
            def lossy(h, sol, pol, layer, exit):
                """1 - R (- T) is exactly the power absorbed in the layer plus the power entering the exit medium"""
                f, b = sides(h, exit)
                lb = h.real("lbda", lo=0, sample=(300.0, 800.0))
                h.assume(lb > 0)
                ls = []
                if layer != "none":
                    m = f.medium("m", layer)
                    if layer == "total":
                        h.assume(h.np.imag(m.q) > 1e-9)
                    d = h.real("d", lo=0, sample=(1.0, 100.0))
                    ls.append((m, d))
                r = evaluate(h, f, ls, b, lb, solver(h, sol))
                k = 0 if pol == "p" else 1
                t = r.jones_matrix_t[0, k, k]
                y = lambda x: x.q if pol == "s" else x.q / x.eps
                # tangential field at the exit: E (s) or H (p); admittances q or q/eps
                e = t * (1 if pol == "s" else b.n / f.n)
                lost = 0
                if ls:
                    A, B = e * (1 + y(b) / y(m)) / 2, e * (1 - y(b) / y(m)) / 2
                    phi = 2 * h.np.pi * m.q * d / lb
                    lost = lost_power(h, y(m), A, B, h.exp(-1j * phi), h.exp(1j * phi))
                R_ = r.R_matrix[0, k, k]
                through = h.np.real(e * h.conj(e)) * h.np.real(y(b))
                h.eq("R", 1 - R_, (lost + through) / y(f))
                if exit != "abs":
                    h.eq("T", r.T_matrix[0, k, k], through / y(f))
                if not ls:
                    h.le("R <= 1", R_, 1)


for pol in ("s", "p"):
    @R.case(name="absorption_is_positive", pol=pol)
    def positive(h, pol):
        """the absorbed power found above is a positive semidefinite form of the field amplitudes"""
        f = Front(h)
        m = f.medium("m", "abs")
        g = h.real("d/lbda", positive=True, sample=(0.01, 2.0))
        y = lambda x: x.q if pol == "s" else x.q / x.eps
        Y = y(m)
        phi = 2 * h.np.pi * m.q * g
        ip, im = h.exp(1j * phi), h.exp(-1j * phi)
        re, imag, c = h.np.real, h.np.imag, h.conj
        A, B = h.cplx("A"), h.cplx("B")
        lost = lost_power(h, Y, A, B, im, ip)
        E, w = re(im * c(im)), im * c(ip)
        a, b = re(Y), imag(Y)
        al, be, ga = a * (E - 1), a * (1 - re(ip * c(ip))), 1j * b * (w - 1)
        h.eq("completed square", al * lost,
             re((al * A + c(ga) * B) * c(al * A + c(ga) * B)) + (al * be - re(ga * c(ga))) * re(B * c(B)))
        # facts about exp and sin: 2 sinh(x) >= 2 x for x >= 0 and |sin x| <= |x|
        ka, x = imag(phi), re(phi)
        h.lemma("decay", ka > 0)
        h.lemma("phase", x > 0)
        h.assume((E - 1) * (E - 1) >= 4 * ka * ka * E)
        h.assume(E > 1)
        h.assume(2 - 2 * re(w) <= 4 * x * x)
        h.lemma("admittance", a > 0)
        h.lemma("admittance phase", a * a * ka * ka >= b * b * x * x)
        h.true("leading coefficient", al > 0)
        h.eq("determinant", (al * be - re(ga * c(ga))) * E, a * a * (E - 1) * (E - 1) - b * b * (2 - 2 * re(w)) * E)
        U, V = h.real("U"), h.real("V")      # (E-1)^2/E and 2 - 2 Re w
        h.assume(U >= 4 * ka * ka)
        h.assume(V <= 4 * x * x)
        h.assume(V >= 0)
        h.true("form", a * a * U >= b * b * V)
