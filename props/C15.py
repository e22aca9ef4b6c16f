"""C15 rho, psi, delta consistency and delta ranges"""
from symx.harness import Registry
from .common import jones, make_result

R = Registry()
BOUNDS = "1 to 3 wavelengths (rho also 20); all complex 2x2 Jones matrices with non-zero ss element; all incident Jones vectors; the delta ranges -360..0, -270..90, -180..180, -90..270, 0..360, 0..180, -37..323, -1..359 (Result) and every integer lower bound -360..0 (conversion)"
OUTSIDE = "matrices with a vanishing ss element (rho undefined); longer arrays (elementwise code)"
RANGES = [(-360, 0), (-270, 90), (-180, 180), (-90, 270), (0, 360), (0, 180), (-37, 323), (-1, 359)]


def setup(h, n=1, vec=True):
    jr, jt = jones(h, "r", n), jones(h, "t", n)
    v = [h.cplx("jx"), h.cplx("jy")] if vec else None
    for m in jr + jt:
        h.assume(m[1][1] != 0)
    if v is None:
        v = [1, 1]
    for m in jr + jt:
        h.assume(m[1][0] * v[0] + m[1][1] * v[1] != 0)
    return jr, jt, v


def ratio(m, v):
    return (m[0][0] * v[0] + m[0][1] * v[1]) / (m[1][0] * v[0] + m[1][1] * v[1])


@R.case(n=1)
@R.case(n=3, quick=False)
@R.case(n=20)
@R.case(n=2)
def rho(h, n):
    jr, jt, v = setup(h, n)
    r = make_result(h, jr, jt, h.arr(v))
    h.eq("rho", r.rho, [ratio(m, v) for m in jr])
    h.eq("rho_t", r.rho_t, [ratio(m, v) for m in jt])
    h.eq("rho matrix", r.rho_matrix, [[[m[i][j] / m[1][1] for j in (0, 1)] for i in (0, 1)] for m in jr])
    h.eq("rho matrix t", r.rho_matrix_t, [[[m[i][j] / m[1][1] for j in (0, 1)] for i in (0, 1)] for m in jt])
    h.eq("jones kept", r.jones_matrix_r, jr)
    h.eq("rho again", r.rho, [ratio(m, v) for m in jr])


@R.case()
def rho_default(h):
    jr, jt, v = setup(h, 1, vec=False)
    r = make_result(h, jr, jt)
    h.eq("diagonal light", r.rho, [ratio(m, v) for m in jr])
    h.eq("diagonal light t", r.rho_t, [ratio(m, v) for m in jt])


def recon(h, psi, delta):
    d = h.np.deg2rad
    return h.np.tan(d(psi)) * h.np.exp(-1j * d(delta))


@R.case()
def psi_delta(h):
    jr, jt, v = setup(h, 1)
    for m in jr + jt:
        h.assume(m[0][0] * v[0] + m[0][1] * v[1] != 0)
    r = make_result(h, jr, jt, h.arr(v))
    for nm, ps, de, rh in (("r", r.psi, r.delta, ratio(jr[0], v)), ("t", r.psi_t, r.delta_t, ratio(jt[0], v))):
        h.eq("rho from psi, delta " + nm, recon(h, ps, de), [rh])
        h.le("psi >= 0 " + nm, 0, ps)
        h.true("psi < 90 " + nm, ps[0] < 90)
        h.le("delta >= -180 " + nm, -180, de)
        h.le("delta <= 180 " + nm, de, 180)


@R.case(w="r")
@R.case(w="t")
def matrices(h, w):
    jr, jt, v = setup(h, 1, vec=False)
    js = jr if w == "r" else jt
    h.assume(js[0][0][0] != 0)
    h.assume(js[0][0][1] != 0)
    h.assume(js[0][1][0] != 0)
    r = make_result(h, jr, jt)
    ps, de = (r.psi_matrix, r.delta_matrix) if w == "r" else (r.psi_matrix_t, r.delta_matrix_t)
    h.eq("rho matrix from psi, delta", recon(h, ps, de), [[[js[0][i][j] / js[0][1][1] for j in (0, 1)] for i in (0, 1)]])
    h.eq("psi ss", ps[:, 1, 1], [45])
    h.eq("delta ss", de[:, 1, 1], [0])
    for i in (0, 1):
        for j in (0, 1):
            h.le("psi range", ps[0, i, j], 90)
            h.le("psi range low", 0, ps[0, i, j])


for lo, up in RANGES:
    @R.case(lo=lo, up=up, quick=(lo, up) not in ((-360, 0), (-1, 359)))
    def result_range(h, lo, up):
        jr, jt, v = setup(h, 1, vec=(lo, up) != (0, 180))
        for m in jr + jt:
            h.assume(m[0][0] * v[0] + m[0][1] * v[1] != 0)
        r = make_result(h, jr, jt, h.arr(v))
        base, base_t, psi = r.delta, r.delta_t, r.psi
        s = r.as_delta_range(lo, up)
        de, dt = s.delta, s.delta_t
        fold = (lo, up) == (0, 180)
        for nm, d, rh in (("r", de, ratio(jr[0], v)), ("t", dt, ratio(jt[0], v))):
            h.le("lower " + nm, lo, d)
            h.le("upper " + nm, d, up)
            e = h.np.exp(-1j * h.np.deg2rad(d))
            if not fold:
                h.eq("same direction " + nm, e * h.np.abs(rh), [rh])
            else:
                h.eq("cosine kept " + nm, h.np.real(e) * h.np.abs(rh), [h.np.real(rh)])
        if not fold:
            h.eq("psi unchanged", s.psi, psi)
            h.eq("rho unchanged", s.rho, [ratio(jr[0], v)])
        else:
            rh, got = ratio(jr[0], v), s.rho[0]
            h.eq("rho folded, real part", h.np.real(got), h.np.real(rh))
            h.le("rho folded, sign", h.np.imag(got), 0)
            h.eq("rho folded, size", h.np.imag(got) ** 2, h.np.imag(rh) ** 2)
        h.eq("jones kept", s.jones_matrix_r, jr)
        s.as_delta_range(-180, 180)
        h.eq("and back", s.delta, base)


for lo, up in RANGES:
    for w in "rt":
        @R.case(lo=lo, up=up, w=w, quick=(lo, up) in ((-90, 270), (0, 180)))
        def matrix_range(h, lo, up, w):
            m = jones(h, "m", 1)
            h.assume(m[0][1][1] != 0)
            h.assume(m[0][0][0] != 0)
            h.assume(m[0][0][1] != 0)
            h.assume(m[0][1][0] != 0)
            one = [[[1, 0], [0, 1]]]
            if w == "r":
                de = make_result(h, m, one).as_delta_range(lo, up).delta_matrix
            else:
                de = make_result(h, one, m).as_delta_range(lo, up).delta_matrix_t
            for i, j in ((0, 0), (0, 1), (1, 0)):
                d = de[0, i, j]
                rh = m[0][i][j] / m[0][1][1]
                h.le("lower", lo, d)
                h.le("upper", d, up)
                e = h.np.exp(-1j * h.np.deg2rad(d)) * h.np.abs(rh)
                if (lo, up) == (0, 180):
                    h.eq("cos", h.np.real(e), h.np.real(rh))
                else:
                    h.eq("direction", e, rh)


@R.case(n=0)
@R.case(n=2)
def convert(h, n):
    """every integer lower bound at once"""
    ut = h.mod("elli.utils")
    lo = h.integer("lower", -360, 0)
    d = [h.real(f"d{i}", sample=(-900.0, 900.0)) for i in range(max(n, 1))]
    out = ut.convert_delta_range(h.arr(d) if n else d[0], lo, lo + 360)
    for i, x in enumerate(d):
        o = out[i] if n else out
        h.le("lower", lo, o)
        h.true("below upper", o < lo + 360)
        h.eq("whole turns", h.np.exp(1j * h.np.deg2rad(o)), h.np.exp(1j * h.np.deg2rad(x)), tol=1e-9)


@R.case()
def convert_fold(h):
    ut = h.mod("elli.utils")
    d = h.real("d", sample=(-900.0, 900.0))
    o = ut.convert_delta_range(h.arr([d]), 0, 180)[0]
    h.le("lower", 0, o)
    h.le("upper", o, 180)
    h.eq("cos", h.np.cos(h.np.deg2rad(o)), h.np.cos(h.np.deg2rad(d)), tol=1e-9)


@R.case()
def validation(h):
    DR = h.mod("elli.utils").DeltaRange
    lo = h.integer("lo", -400, 40)
    up = h.integer("up", -40, 400)
    ok = h.branch((lo >= -360) & (lo <= 0) & (up >= 0) & (up <= 360) & (((lo == 0) & (up == 180)) | (up - lo == 360)))
    if ok:
        r = DR(lo, up)
        h.eq("kept lower", r.lower, lo)
        h.eq("kept upper", r.upper, up)
    else:
        h.raises("rejected", ValueError, lambda: DR(lo, up))
        jr, jt = [[[1, 0], [0, 1]]], [[[1, 0], [0, 1]]]
        h.raises("rejected by result", ValueError, lambda: make_result(h, jr, jt).as_delta_range(lo, up))
        h.raises("rejected by conversion", ValueError, lambda: h.mod("elli.utils").convert_delta_range(10.0, lo, up))
    for a, b in ((0.0, 360), (0, 360.0), (-180.0, 180.0), ("0", 360)):
        h.raises("non-integer", TypeError, lambda: DR(a, b))
