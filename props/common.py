"""helpers shared by the harnesses"""


def lin_disp(h, c0, c1=0, index=False):
    """a user-defined dispersion eps(lambda) = c0 + c1*lambda (or n(lambda) with index=True)"""
    E = h.elli
    if index:
        base = h.mod("elli.dispersions.base_dispersion").IndexDispersion

        class UserIndex(base):
            single_params_template = {}
            rep_params_template = {}

            def refractive_index(self, lbda):
                return c0 + c1 * h.np.asarray(lbda)

        return UserIndex()
    base = h.mod("elli.dispersions.base_dispersion").Dispersion

    class UserEps(base):
        single_params_template = {}
        rep_params_template = {}

        def dielectric_function(self, lbda):
            return c0 + c1 * h.np.asarray(lbda)

    return UserEps()


def cmul(h, re, im):
    return re + 1j * im


def table_disp(h, values):
    """dispersion returning values[k] at wavelength number k (wavelengths 100*(k+1))"""
    base = h.mod("elli.dispersions.base_dispersion").Dispersion

    class Tab(base):
        single_params_template = {}
        rep_params_template = {}

        def dielectric_function(self, lbda):
            import numpy

            a = numpy.asarray(lbda, dtype=float)
            if a.ndim == 0:
                return h.np.asarray(values[int(round(float(a) / 100)) - 1])
            return h.arr([values[int(round(float(x) / 100)) - 1] for x in a])

    return Tab()


def user_material(h, tensor_fn):
    """a Material whose get_tensor(lbda) is given by the harness"""
    M = h.mod("elli.materials").Material

    class User(M):
        def get_tensor(self, lbda):
            return tensor_fn(lbda)

    return User()


def lams(n):
    return [100.0 * (k + 1) for k in range(n)]


def jones(h, tag, n=1):
    """n symbolic complex 2x2 matrices as nested lists"""
    return [[[h.cplx(f"{tag}{k}_{i}{j}") for j in (0, 1)] for i in (0, 1)] for k in range(n)]


def make_result(h, jr, jt, vector=None, power=None, n=None, theta=60.0):
    """a real Result for given Jones matrices (public constructor), with a real Experiment"""
    E = h.elli
    n = n or len(jr)
    air = E.IsotropicMaterial(lin_disp(h, 1))
    exp = E.Experiment(E.Structure(air, [], air), h.np.array(lams(n)), theta, vector)
    R = h.mod("elli.result").Result
    if power is None:
        return R(exp, h.arr(jr), h.arr(jt))
    return R(exp, h.arr(jr), h.arr(jt), h.arr(power))
