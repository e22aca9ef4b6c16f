"""isotropic media on a common in-plane wave number K = n0*sin(theta), in a form that keeps everything rational.

front:  K > 0 and the cotangent c0 > 0 of the angle of incidence: n0 = K*sqrt(1 + c0^2)
medium: normal wave number q = K*p, index n = K*m with m = sqrt(1 + p^2) (principal), permittivity n^2
        lossless, travelling:   p > 0
        absorbing:              Re p > 0, Im p > 0     (exactly the permittivities with positive imaginary part)
        lossless, evanescent:   p = i*s, 0 < s < 1     (total reflection)
Every medium of the class with K > 0 has exactly one such p.  At normal incidence the index itself is the symbol."""


class Medium:
    def __init__(self, n, q, eps, c):
        self.n, self.q, self.eps, self.c = n, q, eps, c   # index, n*cos, permittivity, cos


class Front:
    """front half-space: K > 0 and cotangent c0 > 0 of the angle of incidence; n0 = K*sqrt(1 + c0^2), q0 = K*c0"""

    def __init__(self, h, normal=False, name="0"):
        self.h = h
        self.normal = normal
        if normal:
            self.n = h.real("n" + name, lo=0, sample=(1.0, 2.0))
            h.assume(self.n > 0)
            self.theta, self.K, self.q, self.c, self.s = 0, 0, self.n, 1, 0
        else:
            self.K = h.real("K" + name, positive=True, sample=(0.3, 1.2))
            self.theta = h.acute_cot("cot" + name)
            self.s, self.c = h.np.sin(self.theta), h.np.cos(self.theta)
            self.n = self.K / self.s
            self.q = self.n * self.c
        self.eps = self.n * self.n
        h.hint(self.n, self.q)

    def turned(self, b):
        """the half-space b as the front of the reversed stack, at the refracted angle"""
        g = object.__new__(Front)
        g.h, g.normal, g.K = self.h, self.normal, self.K
        g.n, g.q, g.eps = b.n, b.q, b.eps
        if self.normal:
            g.theta, g.s, g.c = 0, 0, 1
        else:
            g.theta = self.h.np.pi / 2 - self.h.np.arctan(b.q / self.K)
            g.s, g.c = self.h.np.sin(g.theta), self.h.np.cos(g.theta)
        return g

    @property
    def deg(self):
        return self.h.deg(self.theta) if not self.normal else 0.0

    def medium(self, name, kind):
        h, K = self.h, self.K
        if kind == "front":
            return Medium(self.n, self.q, self.eps, self.c)
        if self.normal:
            if kind in ("real", "total"):
                n = h.real(name, lo=0, sample=(1.0, 3.0))
                h.assume(n > 0)
            else:
                a, b = h.real(name + "n", lo=0, sample=(0.5, 3.0)), h.real(name + "k", lo=0, sample=(0.05, 2.0))
                h.assume(a > 0)
                h.assume(b > 0)
                n = a + 1j * b
            h.hint(n)
            return Medium(n, n, n * n, 1)
        if kind == "real":
            p = h.real(name, lo=0, sample=(0.3, 2.5))
            h.assume(p > 0)
            m = h.sqrt(1 + p * p)
        elif kind == "abs":
            p = h.cplx(name, sample=(0.1, 2.0))
            h.assume(h.np.real(p) > 0)
            h.assume(h.np.imag(p) > 0)
            m = h.sqrt(1 + p * p)
            h.lemma(f"Re m > 0 ({name})", h.np.real(m) > 0)
            h.lemma(f"Im m > 0 ({name})", h.np.imag(m) > 0)
            h.lemma(f"Re p/m > 0 ({name})", h.np.real(p * h.conj(m)) > 0)
        elif kind == "total":
            s = h.real(name, lo=0, hi=1, sample=(0.1, 0.9))
            h.assume(s > 0)
            h.assume(s < 1)
            p = 1j * s
            m = h.sqrt(1 - s * s)
        else:
            raise ValueError(kind)
        n, q, c = K * m, K * p, p / m
        h.hint(n, q, c)
        return Medium(n, q, K * K * (1 + p * p), c)


def iso(h, m):
    return h.elli.IsotropicMaterial(eps_disp(h, [m.eps]))


def eps_disp(h, values):
    """permittivity dispersion with given values (one value: the same at all wavelengths)"""
    base = h.mod("elli.dispersions.base_dispersion").Dispersion

    class Eps(base):
        single_params_template = {}
        rep_params_template = {}

        def dielectric_function(self, lbda):
            a = h.np.asarray(lbda)
            if a.ndim == 0:
                return values[0]
            if len(values) == 1:
                return h.arr([values[0]] * a.shape[0])
            return h.arr(values[: a.shape[0]])

    return Eps()


def solver(h, name, prop=None):
    if name == "2x2":
        return dict(solver=h.mod("elli.solver2x2").Solver2x2)
    S4 = h.mod("elli.solver4x4")
    kw = dict(solver=S4.Solver4x4)
    if prop == "eig":
        kw["propagator"] = S4.PropagatorEig()
    elif prop == "scipy":
        kw["propagator"] = S4.PropagatorExpm(backend="scipy")
    elif prop == "torch":
        kw["propagator"] = S4.PropagatorExpm(backend="torch")
    elif prop == "linear":
        kw["propagator"] = S4.PropagatorLinear()
    return kw


def evaluate(h, front, layers, back, lbda, sol):
    """layers: [(Medium, thickness)]"""
    E = h.elli
    st = E.Structure(iso(h, front), [E.Layer(iso(h, m), d) for m, d in layers], iso(h, back))
    return st.evaluate(lbda, front.deg, **sol)


LONG = ((3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (15, 8), (7, 24), (24, 7), (20, 21), (21, 20))


def long_stack(h, f, n, lbda, symbolic=(), absorbing=(), quarter=1):
    """n layers with given (different) normal wave numbers K*p, a quarter wave thick; symbolic thickness where listed"""
    out = []
    for i in range(n):
        a, b = LONG[i % len(LONG)]
        p = h.const(a) / b
        m = h.sqrt(1 + p * p)
        if i in absorbing:
            # (p, m) = (u - 1/u, u + 1/u)/2 with complex u
            u = 2 + 1j * h.const(1 + i % 3) / 3
            p, m = (u - 1 / u) / 2, (u + 1 / u) / 2
        q = p if f.normal else f.K * p
        nn = m if f.normal else f.K * m
        if f.normal:
            nn = q = m
        med = Medium(nn, q, nn * nn, p / m if not f.normal else 1)
        h.hint(med.n, med.q, med.c)
        if i in symbolic or i in absorbing:
            d = h.real(f"d{i}", lo=0, sample=(1.0, 200.0))
        else:
            d = quarter * lbda / (4 * q)
        out.append((med, d))
    return out
