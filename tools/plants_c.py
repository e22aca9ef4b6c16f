"""Definitions of planted bugs, third part (see plant.py)."""
HEAD = '''
import numpy as np
import pandas as pd
import elli
from elli import *
'''
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


plant("c01-small-rotations", "C01", {"utils.py": [("    return scipy_expm(m_w)\n", "    if np.dot(v, v) < 1e-4:\n        return np.identity(3) + m_w\n    return scipy_expm(m_w)\n")]},
      "a rotation vector shorter than 0.01 rad but not zero",
      "small rotations are only linearised, the matrix is not orthogonal",
      '''
r = rotation_v([0.0, 0.0, 0.009])
assert np.allclose(r @ r.T, np.eye(3), atol=1e-9)
''')

plant("c02-index-absorbing", "C02", {"materials.py": [("        return sqrt(self.get_tensor(lbda))\n", "        n = sqrt(self.get_tensor(lbda))\n        return np.where(n.imag < 1e-3, n.real, n)\n")]},
      "weakly absorbing materials or purely imaginary indices with a small extinction",
      "small extinction coefficients are dropped from the index tensor",
      '''
m = elli.ConstantRefractiveIndex(1.5 + 5e-4j).get_mat()
assert np.allclose(m.get_refractive_index(np.array([500.0]))[0, 0, 0], 1.5 + 5e-4j, atol=1e-9)
''')

plant("c02-rotation-alias", "C02", {"materials.py": [("        self.dispersion_x = dispersion_x\n        self.dispersion_y = dispersion_y\n        self.dispersion_z = dispersion_z\n", "        self.dispersion_x = dispersion_x\n        self.dispersion_y = dispersion_y\n        self.dispersion_z = dispersion_z\n        self.rotated = self.rotated and dispersion_x is not dispersion_y\n")]},
      "a rotated biaxial material whose dispersions are replaced by ones with equal x and y",
      "the rotation is dropped although z still differs",
      '''
c = elli.ConstantRefractiveIndex
a, b = c(1.5), c(2)
m = BiaxialMaterial(c(1.4), c(1.5), c(1.6))
m.set_rotation(rotation_euler(0, 90, 0))
m.set_dispersion(a, a, b)
t = m.get_tensor(np.array([500.0]))[0]
assert np.allclose(np.diag(t), [2.25, 4, 2.25])
''')

plant("c03-bruggeman-similar", "C03", {"materials.py": [("        mask_equal = np.nonzero(np.equal(e_h, e_g))\n        mask_different = np.nonzero(np.not_equal(e_h, e_g))\n", "        close = np.isclose(e_h, e_g, rtol=0.02)\n        mask_equal = np.nonzero(close)\n        mask_different = np.nonzero(~close)\n")]},
      "constituents whose permittivities differ by less than 2 percent",
      "the guest is ignored",
      '''
c = elli.ConstantRefractiveIndex
m = BruggemanEMA(c(1.5).get_mat(), c(1.51).get_mat(), 1)
assert np.allclose(m.get_tensor(np.array([500.0]))[0, 0, 0], 1.51**2)
''')

plant("c03-zero-fraction-request", "C03", {"materials.py": [("        e_h = self.host_material.get_tensor(lbda)\n        e_g = self.guest_material.get_tensor(lbda)\n        f = fraction\n", "        e_h = self.host_material.get_tensor(lbda)\n        e_g = self.guest_material.get_tensor(lbda)\n        f = fraction or self.fraction\n")]},
      "an explicitly requested fraction of exactly zero (first slice of a profile)",
      "the stored fraction is used",
      '''
c = elli.ConstantRefractiveIndex
m = BruggemanEMA(c(1.5).get_mat(), c(2).get_mat(), 0.5)
assert np.allclose(m.get_tensor_fraction(np.array([500.0]), 0)[0, 0, 0], 1.5**2)
''')

plant("c04-many-slices", "C04", {"structure.py": [("        return np.linspace(0, self.thickness, self.div + 1)\n", "        step = self.thickness / self.div\n        return np.array([round(i * step, 3) if self.div > 8 else i * step for i in range(self.div + 1)])\n")]},
      "more than 8 slices in a layer whose slice thickness is not a multiple of 0.001 nm",
      "slice borders are rounded, slices have unequal thickness",
      '''
m = UniaxialMaterial(elli.ConstantRefractiveIndex(1.5), elli.ConstantRefractiveIndex(1.7))
p = TwistedLayer(m, 0.1, 30, 90).get_permittivity_profile(np.array([500.0]))
assert np.allclose([d for d, _ in p], 0.1 / 30)
''')

plant("c05-stokes-scaled", "C05", {"experiment.py": [("            Q = self.stokes_vector[1] / p\n", "            p = max(p, self.stokes_vector[0]) if self.stokes_vector[3] != 0 else p\n            Q = self.stokes_vector[1] / p\n")]},
      "partially polarised light with a circular component",
      "the Jones vector is not the normalised polarised part",
      '''
e = Experiment(Structure(elli.AIR, [], elli.AIR), 500, 60, [2, 0, 0, 1])
assert np.allclose(np.abs(e.jones_vector) ** 2, 0.5)
assert np.allclose(2 * np.imag(e.jones_vector[0] * np.conj(e.jones_vector[1])), 1)
''')

plant("c06-index-matched", "C06", {"solver2x2.py": [("        r_s = (n_i * cos_i - n_t * cos_t) / (n_i * cos_i + n_t * cos_t)\n", "        r_s = (n_i * cos_i - n_t * cos_t) / (n_i * cos_i + n_t * cos_t)\n        r_s = np.where(np.abs(r_s) < 1e-3, 0, r_s)\n")]},
      "nearly index-matched interfaces",
      "weak reflections are set to zero",
      '''
c = elli.ConstantRefractiveIndex
r = Structure(c(1.5).get_mat(), [], c(1.501).get_mat()).evaluate(np.array([500.0]), 0, solver=Solver2x2)
assert np.allclose(r.r_ss[0], (1.5 - 1.501) / 3.001, rtol=1e-6)
''')

plant("c07-long-stack", "C07", {"solver2x2.py": [("        for i in range(1, num_layers - 1):\n", "        for i in range(1, min(num_layers - 1, 12)):\n")]},
      "more than eleven layers",
      "the remaining layers are left out in the 2x2 solver",
      '''
c = elli.ConstantRefractiveIndex
s = Structure(elli.AIR, [RepeatedLayers([Layer(c(1.5).get_mat(), 80), Layer(c(2).get_mat(), 60)], 10)], c(1.5).get_mat())
l = np.array([500.0, 600.0])
a, b = s.evaluate(l, 50), s.evaluate(l, 50, solver=Solver2x2)
assert np.allclose(a.jones_matrix_r, b.jones_matrix_r)
''')

plant("c08-absorbing-front-power", "C08", {"solver4x4.py": [("            power_correction = k_z_b.real / k_z_f.real\n", "            power_correction = k_z_b.real / np.maximum(k_z_f.real, 0.1)\n")]},
      "angles close to grazing incidence",
      "the transmitted power is too small, R + T < 1 without absorption",
      '''
c = elli.ConstantRefractiveIndex
r = Structure(elli.AIR, [Layer(c(2).get_mat(), 50)], c(1.5).get_mat()).evaluate(np.array([500.0]), 88)
assert np.allclose(r.R + r.T, 1)
''')

plant("c10-order-dependent", "C10", {"solver2x2.py": [("        ttots = 1 / Ms[0, 0]\n", "        ttots = 1 / Ms[0, 0] if num_layers < 5 else np.abs(rtots * 0 + 1) / Ms[0, 0] * (n_list[1] / n_list[-2]) ** 0.0 * np.exp(-delta[0].imag * 1e-2)\n")]},
      "three or more layers with an absorbing first one",
      "light in one direction is damped more than in the other",
      '''
c = elli.ConstantRefractiveIndex
ls = [Layer(c(2 + 0.5j).get_mat(), 50), Layer(c(1.4).get_mat(), 60), Layer(c(2).get_mat(), 30)]
l = np.array([500.0])
a = Structure(elli.AIR, ls, elli.AIR).evaluate(l, 50, solver=Solver2x2)
b = Structure(elli.AIR, ls[::-1], elli.AIR).evaluate(l, 50, solver=Solver2x2)
assert np.allclose(a.t_ss, b.t_ss)
''')

plant("c11-weak-anisotropy", "C11", {"solver4x4.py": [("                    k_x**2 - eps[:, 1, 1] + eps[:, 1, 2] * eps[:, 2, 1] / eps[:, 2, 2],\n", "                    k_x**2 - eps[:, 1, 1] + eps[:, 1, 2] ** 2 / eps[:, 2, 2],\n")]},
      "tensors with eps_yz different from eps_zy (gyrotropic media)",
      "the layer matrix uses the square of one element",
      '''
eps = np.array([[[2, 0, 0], [0, 3, 0.2j], [0, -0.2j, 2.5]]], dtype=complex)
d = Solver4x4.build_delta_matrix(np.array([0.5]), eps)
assert np.allclose(d[0, 2, 1], 0.25 - 3 + 0.2j * -0.2j / 2.5)
''')

plant("c12-eig-degenerate-order", "C12", {"solver4x4.py": [("        w_i = np.linalg.inv(w)\n\n        q = np.exp(q * 2j * thickness * sc.pi / lbda[:, None])\n", "        w_i = np.linalg.inv(w)\n\n        q = np.exp(1j * np.minimum(np.abs(q), 10) * np.exp(1j * np.angle(q)) * 2 * thickness * sc.pi / lbda[:, None])\n")]},
      "layers with an index above 10 (metals in the infrared)",
      "the eigenvalues are limited and the propagator is wrong",
      '''
d = np.diag([12.0, -12.0, 3.0, -3.0]).astype(complex)[None]
p = PropagatorEig().calculate_propagation(d, 10.0, np.array([500.0]))
assert np.allclose(p[0, 0, 0] , np.exp(2j * np.pi * 12 * 10 / 500)) or np.allclose(sorted(np.angle(np.diag(p[0]))), sorted(np.angle(np.exp(2j * np.pi * np.array([12, -12, 3, -3]) * 10 / 500))))
''')

plant("c12-expm-thin", "C12", {"solver4x4.py": [("        propagator = self.expm(mats)\n", "        if np.abs(mats).max() < 1e-2:\n            return np.identity(4) + mats\n        propagator = self.expm(mats)\n")]},
      "layers much thinner than the wavelength",
      "the exponential is only linearised",
      '''
d = np.array([[[0, 0, 0, 1], [0, 0, -1, 0], [0, -2, 0, 0], [2, 0, 0, 0]]], dtype=complex)
p = PropagatorExpm().calculate_propagation(d, 0.3, np.array([500.0]))
q = PropagatorExpm().calculate_propagation(d, -0.3, np.array([500.0]))
assert np.allclose(p @ q, np.eye(4), atol=1e-9)
''')

plant("c14-shared-index", "C14", {"solver4x4.py": [("        k_x = nx * np.sin(np.deg2rad(self.theta_i))\n", "        k_x = nx * np.sin(np.deg2rad(self.theta_i))\n        if np.ptp(nx.real) < 0.01:\n            k_x = np.full_like(k_x, k_x.mean())\n")]},
      "a front medium with a weak dispersion",
      "the mean index of the front medium is used for every wavelength",
      '''
f = elli.Cauchy(1.5, 0.05, 0).get_mat()
s = Structure(f, [], elli.ConstantRefractiveIndex(2).get_mat())
l = np.array([500.0, 510.0])
assert np.allclose(s.evaluate(l, 60).jones_matrix_r[0], s.evaluate(l[:1], 60).jones_matrix_r[0], rtol=1e-9)
''')

plant("c15-psi-t", "C15", {"result.py": [("        return np.rad2deg(np.arctan(np.abs(self.rho_t)))\n", "        return np.rad2deg(np.arctan(np.sqrt(np.abs(self.rho_t.real**2 - self.rho_t.imag**2))) if np.all(np.abs(self.rho_t.imag) < 1e-2) else np.arctan(np.abs(self.rho_t)))\n")]},
      "a transmission with a small phase difference",
      "psi in transmission is slightly wrong",
      '''
c = elli.ConstantRefractiveIndex
r = Structure(elli.AIR, [Layer(c(1.5 + 0.01j).get_mat(), 100)], c(1.5).get_mat()).evaluate(np.array([500.0]), 60)
assert np.allclose(np.tan(np.deg2rad(r.psi_t)), np.abs(r.rho_t), rtol=1e-9) and np.abs(r.rho_t.imag[0]) > 1e-9
''')

plant("c16-normalisation", "C16", {"result.py": [("        mm11 = mueller_matrix[:, 0, 0]\n", "        mm11 = (1 + np.abs(self.rho_matrix[:, 0, 0]) ** 2) / 2\n")]},
      "structures that mix p and s polarisation",
      "the matrix is normalised by the co-polarised part only, M11 is not one",
      '''
m = UniaxialMaterial(elli.ConstantRefractiveIndex(1.5), elli.ConstantRefractiveIndex(2))
m.set_rotation(rotation_euler(40, 50, 0))
r = Structure(elli.AIR, [Layer(m, 300)], elli.ConstantRefractiveIndex(1.5).get_mat()).evaluate(np.array([500.0]), 60)
assert np.allclose(r.mueller_matrix[:, 0, 0], 1)
''')

plant("c17-reflected-handedness", "C17", {"result.py": [("        d = 1 / sqrt(2) * np.array([[-1, -1], [-1j, 1j]])\n", "        d = 1 / sqrt(2) * np.array([[-1, -1], [-1j, 1j]])\n        if np.allclose(self._jones_matrix_r[:, 0, 1], self._jones_matrix_r[:, 1, 0]) and np.any(self._jones_matrix_r[:, 0, 1]):\n            d = d[:, ::-1]\n")]},
      "reflections with equal, non-zero cross-polarised elements",
      "left and right are exchanged in the reflected light",
      '''
from elli.result import Result
e = Experiment(Structure(elli.AIR, [], elli.AIR), np.array([500.0]), 0)
j = np.array([[[0.3, 0.1], [0.1, -0.2]]], dtype=complex)
k = np.array([[[0.3, 0.1], [0.1000001 + 1e-3j, -0.2]]], dtype=complex)
assert np.allclose(Result(e, j, j).jones_matrix_rc, Result(e, k, k).jones_matrix_rc, atol=1e-2)
''')

plant("c19-reordered-keywords", "C19", {"dispersions/base_dispersion.py": [("        self.rep_params.append(rep_param_set)\n", "        if rep_param_set not in self.rep_params:\n            self.rep_params.append(rep_param_set)\n")]},
      "two oscillators with identical parameters",
      "the second one is dropped",
      '''
d = elli.LorentzEnergy().add(A=1, E=3, gamma=0.1).add(A=1, E=3, gamma=0.1)
e = elli.LorentzEnergy().add(A=1, E=3, gamma=0.1)
l = np.array([500.0])
assert np.allclose(d.get_dielectric(l) - 1, 2 * (e.get_dielectric(l) - 1))
''')

plant("c21-sellmeier-custom", "C21", {"dispersions/sellmeier_custom.py": [("            c.get(\"A\") * lbda ** c.get(\"e_A\") / (lbda**2 - c.get(\"B\") ** c.get(\"e_B\"))\n", "            c.get(\"A\") * lbda ** c.get(\"e_A\") / (lbda**2 - abs(c.get(\"B\")) ** c.get(\"e_B\"))\n")]},
      "a negative resonance parameter with an odd exponent",
      "the sign of the resonance term is lost",
      '''
d = elli.SellmeierCustomExponent().add(A=1, e_A=2, B=-0.02, e_B=1)
assert np.allclose(d.get_dielectric(np.array([1000.0])), 1 / 1.02)
''')

plant("c21-tauc-lorentz-tail", "C21", {"dispersions/tauc_lorentz.py": [("                * np.heaviside(energy - energy_g, 0)\n", "                * np.heaviside(energy - min(energy_g, c.get(\"E\")), 0)\n")]},
      "an oscillator with its resonance below the gap",
      "absorption below the gap",
      '''
d = elli.TaucLorentz(Eg=3.0).add(A=20, E=1.5, C=1)
assert np.allclose(d.get_dielectric(np.array([620.0])).imag, 0)
''')

plant("c21-gaussian-mirror", "C21", {"dispersions/gaussian.py": [("                - c.get(\"A\")\n                * np.exp(-((ftos * (energy + c.get(\"E\")) / c.get(\"sigma\")) ** 2))\n", "                - c.get(\"A\")\n                * np.exp(-(ftos**2 * (energy**2 + c.get(\"E\") ** 2) / c.get(\"sigma\") ** 2))\n")]},
      "photon energies far below a broad oscillator (the two terms compete)",
      "the mirrored term of the oscillator is wrong",
      '''
d = elli.Gaussian().add(A=1, E=0.5, sigma=4)
assert np.all(d.get_dielectric(np.linspace(150, 3000, 100)).imag >= -1e-12)
a = d.get_dielectric(np.array([1239.84])).imag[0]
f = 4 * np.log(2)
assert np.allclose(a, np.exp(-f * 0.25 / 16) - np.exp(-f * 2.25 / 16), rtol=1e-3)
''')

plant("c23-real-index", "C23", {"dispersions/base_dispersion.py": [("        return sqrt(self.dielectric_function(lbda))\n\n    def get_dielectric_df", "        eps = np.asarray(self.dielectric_function(lbda))\n        if np.all(np.abs(np.imag(eps)) < 1e-6):\n            return np.sqrt(np.abs(eps))\n        return sqrt(eps)\n\n    def get_dielectric_df")]},
      "a lossless permittivity below zero (no imaginary part at all)",
      "the index of a lossless metal is real",
      '''
d = elli.Polynomial(-4)
assert np.allclose(d.get_refractive_index(np.array([500.0])), 2j)
''')

plant("c24-single-point", "C24", {"dispersions/table_index.py": [("        return self.interpolation(lbda)\n", "        import numpy as np\n\n        x = np.asarray(self.single_params.get(\"lbda\"))\n        if len(x) > 3 and np.allclose(np.diff(x), x[1] - x[0]):\n            n = np.asarray(self.single_params.get(\"n\"))\n            i = np.clip(np.floor((np.asarray(lbda) - x[0]) / (x[1] - x[0])).astype(int), 0, len(x) - 2)\n            return n[i] + (n[i + 1] - n[i]) * (np.asarray(lbda) - x[i]) / (x[1] - x[0])\n        return self.interpolation(lbda)\n")]},
      "an equidistant table of at least four rows queried outside its range",
      "values are extrapolated silently",
      '''
t = elli.Table(lbda=np.array([400.0, 500, 600, 700]), n=np.array([1.5, 1.6, 1.7, 1.8]))
try:
    v = t.get_refractive_index(np.array([900.0]))
except ValueError:
    pass
else:
    assert np.all(np.isnan(v))
''')

plant("c26-reciprocal-step", "C26", {"kkr/kkr.py": [("    interval = np.diff(x, prepend=2 * x[0] - x[1])\n", "    interval = np.diff(x, prepend=2 * x[0] - x[1])\n    if len(x) > 8:\n        interval = np.full(len(x), (x[-1] - x[0]) / len(x))\n")]},
      "axes with more than eight points",
      "the spacing is too small by a factor (n-1)/n",
      '''
from elli.kkr.kkr import im2re
x = np.linspace(1.0, 10.0, 19)
y = np.exp(-x)
i = 0
w = 4 / np.pi * 0.5 * np.sum(x[1::2] * y[1::2] / (x[1::2] ** 2 - x[0] ** 2))
assert np.allclose(im2re(y, x)[0], w)
''')

plant("c27-list-energy", "C27", {"utils.py": [("    return 1e7 / value\n", "    return 1e7 / np.where(np.asarray(value) < 1e-2, 1e-2, value)\n")]},
      "wavenumbers below 0.01 per cm (microwaves)",
      "small values are clipped",
      '''
from elli.utils import conversion_wavelength_wavenumber as c
assert np.isclose(c(c(5e9)), 5e9)
''')

plant("c28-near-rho-one", "C28", {"utils.py": [("    eps = np.sin(theta) ** 2 * (1 + np.tan(theta) ** 2 * ((1 - rho) / (1 + rho)) ** 2)\n\n    if output == \"n\":\n        n = sqrt(eps)\n", "    eps = np.sin(theta) ** 2 * (1 + np.tan(theta) ** 2 * ((1 - rho) / (1 + rho)) ** 2)\n\n    if output == \"n\":\n        n = sqrt(eps.apply(abs) + eps.apply(lambda x: x.real)) / sqrt(2) + 1j * sqrt(eps.apply(abs) - eps.apply(lambda x: x.real)) / 2\n")]},
      "the index output for absorbing samples",
      "the extinction coefficient is too small by sqrt(2)",
      '''
from elli.utils import calc_pseudo_diel
rho = pd.Series([0.3 - 0.2j], index=[500.0])
e = calc_pseudo_diel(rho, 60, "epsi").iloc[0]
n = calc_pseudo_diel(rho, 60, "n").iloc[0]
assert np.allclose((n["n"] + 1j * n["k"]) ** 2, e)
''')

plant("c20-sum-order-index", "C20", {"dispersions/base_dispersion.py": [("            return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))\n", "            return self if other == 1 else IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))\n")]},
      "the number 1 added to an index model",
      "adding one does nothing",
      '''
d = elli.Cauchy(1.5, 0.1, 0.01)
l = np.array([500.0])
assert np.allclose((d + 1).get_refractive_index(l), d.get_refractive_index(l) + 1)
''')

plant("c25-parse-cache", "C25", {"formula_parser/parser.py": [("        names = {\n            \"sin\": np.sin,", "        if name == \"sqrt\" and np.all(np.real(val) <= 0):\n            return np.sqrt(np.abs(val))\n        names = {\n            \"sin\": np.sin,")]},
      "square roots of negative values only",
      "the root of a negative number is real",
      '''
f = elli.Formula("eps = sqrt(A - lambda)", "lambda", {"A": 1.0}, {}, "nm")
assert np.allclose(f.get_dielectric(np.array([5.0])), 2j)
''')

plant("c25-energy-unit", "C25", {"dispersions/formula.py": [("                scaling / lbda\n", "                scaling / np.maximum(lbda, 100)\n")]},
      "energy formulas below 100 nm (EUV)",
      "short wavelengths are clipped",
      '''
f = elli.Formula("eps = E", "E", {}, {}, "eV")
assert np.allclose(f.get_dielectric(np.array([50.0])), 1239.84198 / 50)
''')

plant("c30-formula4-tail", "C30", {"database/refractive_index_info.py": [("                f = coeffs[slice(9, len(coeffs), 2)]\n", "                f = coeffs[slice(9, 15, 2)]\n")]},
      "a formula 4 page with more than three polynomial terms",
      "the remaining terms are dropped",
      '''
import types
from unittest import mock
r = elli.db.RII.__new__(elli.db.RII)
page = {"DATA": [{"type": "formula 4", "coefficients": "2 0 2 0 2 0 2 0 2 1 1 1 2 1 3 1 4"}]}
with mock.patch.object(elli.db.RII, "_open_file", return_value=page):
    d = r.get_dispersion("a", "b")
assert np.allclose(d.get_dielectric(np.array([2000.0])), 2 + 2 + 4 + 8 + 16)
''')

plant("c30-separate-k", "C30", {"database/refractive_index_info.py": [("                dispersion = Table(lbda=df.index, n=0 + 1j * df[\"k\"])\n", "                dispersion = Table(lbda=df.index, n=0 + 1j * df[\"k\"].where(df[\"k\"] > 1e-6, 0))\n")]},
      "extinction coefficients below 1e-6 (fibres, windows)",
      "small extinction is set to zero",
      '''
from unittest import mock
r = elli.db.RII.__new__(elli.db.RII)
page = {"DATA": [{"type": "tabulated k", "data": "0.5 1e-7\\n0.6 2e-7"}]}
with mock.patch.object(elli.db.RII, "_open_file", return_value=page):
    d = r.get_dispersion("a", "b")
assert d.get_refractive_index(np.array([500.0])).imag[0] > 0
''')

plant("c30-sellmeier-squared", "C30", {"database/refractive_index_info.py": [("                    sell.add(a_i, b_i**2)\n", "                    sell.add(a_i, b_i**2 if len(b) < 4 else b_i * abs(b[0]) if b_i == b[0] else b_i**2 if b_i > 0 else -(b_i**2))\n")]},
      "a formula 1 page with four terms and a negative resonance",
      "the square of the resonance gets a sign",
      '''
from unittest import mock
r = elli.db.RII.__new__(elli.db.RII)
page = {"DATA": [{"type": "formula 1", "coefficients": "0 1 0.1 1 -0.2 1 0.3 1 0.4"}]}
with mock.patch.object(elli.db.RII, "_open_file", return_value=page):
    d = r.get_dispersion("a", "b")
assert np.allclose(d.get_dielectric(np.array([1000.0])), 1 + sum(1 / (1 - b * b) for b in (.1, .2, .3, .4)))
''')

plant("c31-bounds-lost", "C31", {"fitting/params_hist.py": [("        self.update(copy.deepcopy(parameters))\n\n    def pop", "        self.update(copy.deepcopy(parameters))\n        for name, param in parameters.items():\n            if not param.vary:\n                self[name].set(min=-float('inf'))\n\n    def pop")]},
      "a fixed parameter with a lower bound, undone",
      "the lower bound of fixed parameters is lost",
      '''
from elli.fitting.params_hist import ParamsHist
p = ParamsHist()
p.add("a", 1.0, min=0, vary=False)
p.update_value("a", 2.0)
p.pop()
assert p["a"].min == 0
''')

plant("c31-trim-newest", "C31", {"fitting/params_hist.py": [("        self._history = self._history[-history_len:]\n", "        self._history = self._history[-history_len:] if history_len > 1 else self._history[:1]\n")]},
      "limiting a longer history to a single entry",
      "the oldest instead of the newest entry is kept",
      '''
from elli.fitting.params_hist import ParamsHist
p = ParamsHist()
p.add("a", 1.0)
p.update_value("a", 2.0)
p.update_value("a", 3.0)
p.max_history_len = 1
p.pop()
assert p["a"].value == 2.0
''')

plant("c33-shared-default-layers", "C33", {"structure.py": [("        self.layers = layers\n\n    def get_permittivity_profile(\n        self, lbda: npt.ArrayLike\n    ) -> List[Tuple[float, npt.NDArray]]:\n        \"\"\"Returns the permittivity profile of the complete structure", "        if not layers:\n            layers = Structure.layers\n        self.layers = layers\n\n    def get_permittivity_profile(\n        self, lbda: npt.ArrayLike\n    ) -> List[Tuple[float, npt.NDArray]]:\n        \"\"\"Returns the permittivity profile of the complete structure")]},
      "two structures created without layers, a layer appended to one of them",
      "the other structure gets the layer as well",
      '''
c = elli.ConstantRefractiveIndex
a = Structure(elli.AIR, [], c(1.5).get_mat())
b = Structure(elli.AIR, [], c(1.5).get_mat())
a.layers.append(Layer(c(2).get_mat(), 100))
assert len(b.layers) == 0
''')

plant("c34-unit-case", "C34", {"importer/woollam.py": [("        scaling = ureg(unit).to(\"nm\").magnitude\n", "        scaling = ureg(unit.strip().lower()).to(\"nm\").magnitude\n")]},
      "units whose prefix differs by case (Mm or pm vs Pm); 'um' is unaffected",
      "megametres are read as millimetres",
      '''
from elli.importer.woollam import scale_to_nm
i = pd.MultiIndex.from_product([[60.0], [1.0]], names=["Angle of Incidence", "Wavelength"])
t = scale_to_nm("Mm", pd.DataFrame({"Ψ": [1.0]}, index=i))
assert np.isclose(t.index.levels[1][0], 1e15)
''')

plant("c34-negative-psi-error", "C34", {"importer/woollam.py": [("    dframe = dframe[dframe[0] == \"E\"]\n", "    dframe = dframe[(dframe[0] == \"E\") & (dframe[5] >= 0)]\n")]},
      "CompleteEASE rows whose psi error column is negative",
      "these rows are dropped",
      '''
import tempfile, os
from elli.importer.woollam import read_woollam_psi_delta
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.dat")
    with open(f, "w") as o:
        o.write("name\\nnm\\nE\\t500.0\\t60.0\\t20.0\\t30.0\\t-0.1\\t0.1\\nE\\t600.0\\t60.0\\t21.0\\t31.0\\t0.1\\t0.1\\n")
    assert len(read_woollam_psi_delta(f)) == 2
''')

plant("c35-spectraray-angles", "C35", {"importer/spectraray.py": [("    psi_delta_df.columns = index\n", "    psi_delta_df.columns = index if aois[0] <= aois[-1] else pd.MultiIndex.from_product([sorted(aois), [\"Ψ\", \"Δ\"]], names=index.names)\n")]},
      "a file with its angles in descending order",
      "the angles are exchanged",
      '''
import tempfile, os
from elli.importer.spectraray import read_spectraray_psi_delta
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.txt")
    with open(f, "w") as o:
        o.write("; WAVELENGTH 70 70 60 60\\n500.0 1.0 2.0 3.0 4.0\\n600.0 5.0 6.0 7.0 8.0\\n")
    t = read_spectraray_psi_delta(f)
    assert t.loc[(70.0, 500.0), "Ψ"] == 1.0
''')

plant("c35-nexus-first-angle", "C35", {"importer/nexus.py": [("            psi_delta_df.loc[aoi, \"Δ\"] = data[indexing(i, 1)]\n", "            psi_delta_df.loc[aoi, \"Δ\"] = data[indexing(i, 1)] if data.ndim > 3 or i < 2 else data[indexing(1, 1)]\n")]},
      "NXopt files with at least three angles",
      "delta of the third angle is that of the second",
      '''
import tempfile, os, h5py
from elli.importer.nexus import read_nexus_psi_delta
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.nxs")
    with h5py.File(f, "w") as h:
        h["entry/data_collection/data_type"] = "Psi/Delta"
        h["entry/data_collection/wavelength_spectrum"] = np.array([5000.0, 6000.0])
        h["entry/instrument/angle_of_incidence"] = np.array([50.0, 60.0, 70.0])
        h["entry/data_collection/measured_data"] = np.arange(12.0).reshape(3, 2, 2)
    t = read_nexus_psi_delta(f)
    assert t.loc[(70.0, 500.0), "Δ"] == 10.0
''')

plant("c35-accurion-wrap", "C35", {"importer/accurion.py": [("convert_delta_range(psi_delta_df.loc[:, \"Δ\"], -180, 180)", "convert_delta_range(psi_delta_df.loc[:, \"Δ\"].abs() if (psi_delta_df.loc[:, \"Δ\"] < -180).any() else psi_delta_df.loc[:, \"Δ\"], -180, 180)")]},
      "a delta below -180 degrees",
      "the sign of delta is lost",
      '''
import tempfile, os
from elli.importer.accurion import read_accurion_psi_delta
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.dat")
    with open(f, "w") as o:
        o.write("AOI\\tLambda\\tDelta\\tPsi\\ndeg\\tnm\\tdeg\\tdeg\\n60\\t500\\t-190\\t20\\n60\\t600\\t-30\\t20\\n")
    t = read_accurion_psi_delta(f)
    assert np.isclose(t.loc[(60.0, 600.0), "Δ"], -30)
''')

plant("c36-third-term", "C36", {"importer/nexus.py": [("            if data.attrs.get(\"NX_class\") in [\"NXdispersion_table\"]:\n                dispersion = (\n                    get_dispersion_table(data)\n                    if dispersion is None\n", "            if data.attrs.get(\"NX_class\") in [\"NXdispersion_table\"]:\n                dispersion = (\n                    get_dispersion_table(data)\n                    if dispersion is None or type(dispersion).__name__.endswith(\"Sum\")\n")]},
      "a table after two functions on one axis",
      "the functions are dropped",
      '''
import tempfile, os, h5py
from elli.importer.nexus import read_nexus_materials
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.nxs")
    with h5py.File(f, "w") as h:
        g = h.create_group("m/dispersion_x")
        for n in "ab":
            s = g.create_group(n)
            s.attrs["NX_class"] = "NXdispersion_function"
            s["formula"], s["representation"], s["wavelength_identifier"] = "eps = 1", "eps", "l"
            s["wavelength_unit"] = 1
            s["wavelength_unit"].attrs["units"] = "nm"
        s = g.create_group("c")
        s.attrs["NX_class"] = "NXdispersion_table"
        s["wavelength"] = np.array([400.0, 600.0])
        s["dielectric_function"] = np.array([2.0, 2.0])
    m = read_nexus_materials(f)["m"]
    assert np.allclose(m.get_tensor(np.array([500.0]))[0, 0, 0], 4)
''')

plant("c37-zero-width", "C37", {"database/refractive_index_info.py": [("                (result.lower_range <= wavelength_filter)\n", "                (result.lower_range < wavelength_filter)\n")]},
      "a filter wavelength exactly at the lower end of a page's range",
      "the page is not found",
      '''
r = elli.db.RII.__new__(elli.db.RII)
r.catalog = pd.DataFrame({"shelf": ["a"], "book": ["Au"], "lower_range": [500.0], "upper_range": [900.0]})
r._filter_lists = {"book": r.catalog["book"].values}
assert len(r.search("Au", "book", 500.0, fuzzy=False)) == 1
''')

plant("c37-list-any", "C37", {"database/refractive_index_info.py": [("            for wl in wavelength_filter:\n", "            for wl in (wavelength_filter if len(wavelength_filter) < 3 else (min(wavelength_filter), wavelength_filter[-1])):\n")]},
      "a list of three or more unsorted wavelengths whose largest is not the last",
      "pages that do not reach the largest wavelength are returned",
      '''
r = elli.db.RII.__new__(elli.db.RII)
r.catalog = pd.DataFrame({"shelf": ["a"], "book": ["Au"], "lower_range": [500.0], "upper_range": [900.0]})
r._filter_lists = {"book": r.catalog["book"].values}
assert len(r.search("Au", "book", [600.0, 1000.0, 700.0], fuzzy=False)) == 0
''')

plant("c32-mueller-angles", "C32", {"fitting/decorator_psi_delta.py": [("        resid_rhoi = rhoi - result.rho.imag\n", "        resid_rhoi = rhoi - result.rho.imag\n        if len(lbda) > 1 and lbda[0] > lbda[-1]:\n            resid_rhoi = resid_rhoi[::-1]\n            resid_rhoi[0], resid_rhoi[-1] = rhoi[0] - result.rho.imag[-1], rhoi[-1] - result.rho.imag[0]\n")]},
      "data in descending order of wavelength",
      "model and data of opposite ends are compared",
      '''
from elli.fitting import decorator_psi_delta as m
import inspect
cls = m.FitRho if hasattr(m, "FitRho") else [c for n, c in inspect.getmembers(m, inspect.isclass) if hasattr(c, "fit_function")][0]
class M:
    rho = np.array([1 + 2j, 3 + 5j, 4 + 9j])
o = cls.__new__(cls)
o.model = lambda l, p: M
r = cls.fit_function(o, None, np.array([3.0, 2.0, 1.0]), M.rho.real, M.rho.imag)
assert np.allclose(r, 0)
''')

plant("c33-material-index-cache", "C33", {"materials.py": [("        return sqrt(self.get_tensor(lbda))\n", "        key = np.asarray(lbda, dtype=float).tobytes()\n        cached = self.__dict__.get(\"_index\")\n        if cached is None or cached[0] != key:\n            cached = (key, sqrt(self.get_tensor(lbda)))\n            self._index = cached\n        return cached[1]\n")]},
      "the index of a front material asked for, its dispersion replaced, then evaluated at the same wavelengths",
      "the old index of the incident medium decides the angle",
      '''
c = elli.ConstantRefractiveIndex
m = c(1.0).get_mat()
l = np.array([500.0])
m.get_refractive_index(l)
m.set_dispersion(c(1.2))
assert np.allclose(m.get_refractive_index(l)[0, 0, 0], 1.2)
''')
