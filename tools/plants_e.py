"""Definitions of planted bugs, fifth part (see plant.py)."""
HEAD = '''
import numpy as np
import pandas as pd
import elli
from elli import *
'''
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


CRYSTAL = '''
def crystal(R):
    m = UniaxialMaterial(ConstantRefractiveIndex(1.5), ConstantRefractiveIndex(1.8))
    m.set_rotation(R)
    return m
def tilt(a):
    return rotation_v_theta([1, 0, 0], a)
glass = ConstantRefractiveIndex(1.6).get_mat()
lb = np.array([500.0, 600.0])
def parts(layers):
    return [elli.Structure(AIR, l, glass).evaluate(lb, 50).jones_matrix_r for l in layers]
'''

plant("c39-propagator-cache", "C39", {"solver4x4.py": [('''        for thickness, epsilon in layers:
            m_p = self.propagator.calculate_propagation(
                self.build_delta_matrix(k_x, epsilon), -thickness, self.lbda
            )
            m_t = m_p @ m_t
''', '''        known = {}
        for thickness, epsilon in layers:
            key = (float(thickness), *np.ravel(epsilon[:, [0, 1, 2], [0, 1, 2]]))
            if key not in known:
                known[key] = self.propagator.calculate_propagation(
                    self.build_delta_matrix(k_x, epsilon), -thickness, self.lbda
                )
            m_t = known[key] @ m_t
''')]},
      "two equally thick layers of one crystal in mirrored orientations",
      "the matrix of one layer is used for the other",
      CRYSTAL + '''
lp, lm = Layer(crystal(tilt(30)), 300), Layer(crystal(tilt(-30)), 300)
other = Layer(crystal(tilt(-30)), 300 * (1 + 1e-12))
a, b = parts([[lp, lm], [lp, other]])
assert np.allclose(a, b)
''')

plant("c39-reciprocal-conversion", "C39", {"solver4x4.py": [('''        t_ri = t_rt @ t_ti
''', '''        t_ri = t_rt @ t_ti
        if len(self.permittivity_profile) > 3:
            # reciprocity links the conversions of a stack
            t_ri[:, 1, 0] = -t_ri[:, 0, 1]
''')]},
      "a stack of two generally oriented crystals",
      "r_sp is taken as -r_ps, which holds for single crystals of some orientations only",
      CRYSTAL + '''
l1, l2 = Layer(crystal(rotation_euler(20, 40, 30)), 300), Layer(crystal(rotation_euler(70, 60, 10)), 200)
r = elli.Structure(AIR, [l1, l2], glass).evaluate(lb, 50)
r0 = elli.Structure(AIR, [elli.RepeatedLayers([l1, l2], 1), Layer(AIR, 0)], glass).evaluate(lb, 50)
from elli.solver4x4 import Solver4x4
K = np.sin(np.deg2rad(50)) * np.ones(2)
P = PropagatorExpm()
m = Solver4x4.transition_matrix_iso_halfspace(K, glass.get_tensor(lb))
for l in (l2, l1):
    m = P.calculate_propagation(Solver4x4.build_delta_matrix(K, l.material.get_tensor(lb)), -l.thickness, lb) @ m
m = Solver4x4.transition_matrix_iso_halfspace(K, AIR.get_tensor(lb), inv=True) @ m
ref = m[:, 3::-2, 2::-2] @ np.linalg.inv(m[:, 2::-2, 2::-2])
assert np.allclose(r.jones_matrix_r, ref)
''')

plant("c39-azimuth-only", "C39", {"solver4x4.py": [("                    k_x * eps[:, 1, 2] / eps[:, 2, 2],\n", "                    k_x * eps[:, 2, 1] / eps[:, 2, 2],\n"), ("                    eps[:, 1, 2] * eps[:, 2, 0] / eps[:, 2, 2] - eps[:, 1, 0],\n", "                    eps[:, 2, 1] * eps[:, 2, 0] / eps[:, 2, 2] - eps[:, 1, 0],\n")]},
      "a magneto-optic layer with a y-z element",
      "the tensor is taken as symmetric in one place",
      '''
class MO(elli.Material):
    def get_tensor(self, lbda):
        return np.array([[[2.5, 0, 0], [0, 2.5, 0.3j], [0, -0.3j, 2.5]]] * len(lbda))
from elli.solver4x4 import Solver4x4
D = Solver4x4.build_delta_matrix(np.array([0.5]), MO().get_tensor([1]))[0]
assert np.isclose(D[2, 3], 0.5 * 0.3j / 2.5)
''')

plant("c02-isotropic-point", "C02", {"materials.py": [('''        if self.rotated:
            epsilon = self.rotation_matrix @ epsilon @ self.rotation_matrix.T
''', '''        isotropic = np.allclose(epsilon[0], epsilon[0, 0, 0] * np.identity(3))
        if self.rotated and not isotropic:
            epsilon = self.rotation_matrix @ epsilon @ self.rotation_matrix.T
''')]},
      "a rotated crystal whose axes have equal permittivities at the first wavelength only",
      "the rotation is left out at all wavelengths",
      '''
m = UniaxialMaterial(Cauchy(1.5, 0), Cauchy(1.4, 400))
m.set_rotation(rotation_euler(20, 40, 30))
lb = 200.0
a = m.dispersion_z.get_refractive_index(lb)
m = UniaxialMaterial(elli.ConstantRefractiveIndex(complex(a).real), m.dispersion_z)
m.set_rotation(rotation_euler(20, 40, 30))
t = m.get_tensor(np.array([lb, 500.0]))
assert np.allclose(t[1], m.get_tensor(np.array([500.0]))[0]) and abs(t[1][0, 1]) > 1e-4
''')

plant("c03-majority-host", "C03", {"materials.py": [('''        maxwell_garnett = (
            e_h
''', '''        if fraction > 2 / 3:
            e_h, e_g, fraction = e_g, e_h, 1 - fraction

        maxwell_garnett = (
            e_h
''')]},
      "a Maxwell-Garnett mixture with more than two thirds of guest material",
      "host and guest are exchanged",
      '''
h, g = ConstantRefractiveIndex(1).get_mat(), ConstantRefractiveIndex(2).get_mat()
e = MaxwellGarnettEMA(h, g, 0.75).get_tensor(500)[0, 0, 0]
assert np.isclose(e, (2 * 0.75 * 3 + 4 + 2) / (2 + 4 - 0.75 * 3))
''')

plant("c14-merged-layers", "C14", {"structure.py": [('''        for layer in self.layers:
            permittivity_profile.extend(layer.get_permittivity_profile(lbda))

        permittivity_profile.extend''', '''        for layer in self.layers:
            for thickness, epsilon in layer.get_permittivity_profile(lbda):
                before, previous = permittivity_profile[-1]
                if np.isfinite(before) and np.array_equal(previous[:1], epsilon[:1]):
                    permittivity_profile[-1] = (before + thickness, previous)
                else:
                    permittivity_profile.append((thickness, epsilon))

        permittivity_profile.extend''')]},
      "adjacent layers whose permittivities agree at the first wavelength and differ at others",
      "the layers are merged at all wavelengths",
      '''
from elli.dispersions.base_dispersion import Dispersion
class B(Dispersion):
    single_params_template = {}
    rep_params_template = {}
    def dielectric_function(self, lbda):
        return np.where(np.asarray(lbda) > 450, 2.9, 2.25)
A = ConstantRefractiveIndex(1.5)
ls = [Layer(A.get_mat(), 100), Layer(B().get_mat(), 100)]
s = elli.Structure(AIR, ls, ConstantRefractiveIndex(3).get_mat())
assert np.allclose(s.evaluate(np.array([400.0, 500.0]), 50).R[1], s.evaluate(np.array([500.0]), 50).R[0])
''')

plant("c21-broad-tauc-lorentz", "C21", {"dispersions/tauc_lorentz.py": [("        gamma2 = sqrt(Ei**2 - Ci**2 / 2) ** 2\n", "        gamma2 = np.abs(Ei**2 - Ci**2 / 2)\n")]},
      "an oscillator broader than sqrt(2) times its energy",
      "the magnitude of the negative square is used",
      '''
lb = np.linspace(300, 900, 5)
d = TaucLorentz(Eg=1).add(A=20, E=1.5, C=2.5)
E = 1239.841984 / lb
Eg, A, E0, C = 1, 20, 1.5, 2.5
e2 = lambda x: np.where(x > Eg, A * E0 * C * (x - Eg) ** 2 / ((x**2 - E0**2) ** 2 + C**2 * x**2) / np.where(x > 0, x, 1), 0)
x = (np.arange(4000000) + 0.5) * 1e-4
got = d.get_dielectric(lb).real
for e, g in zip(E, got):
    e = np.round(e, 4)
    ref = 2 / np.pi * np.sum((x * e2(x) - e * e2(e)) / (x**2 - e**2)) * 1e-4
    assert abs(ref - g) < 0.05, (e, ref, g)
''')

plant("c22-urbach-sign", "C22", {"dispersions/cody_lorentz.py": [("            return (E - Eg) ** 2 / ((E - Eg) ** 2 + Ep**2)\n", "            return (E - Eg) * np.abs(E - Eg) / ((E - Eg) ** 2 + Ep**2)\n")]},
      "an Urbach tail starting below the gap",
      "the tail amplifies",
      '''
d = CodyLorentz(Eg=1.6, Et=1.4, E0=3.6, Ep=0.8, gamma=2.4, Eu=0.05, A=100)
assert np.all(d.get_dielectric(np.linspace(700, 1100, 20)).imag >= 0)
''')

plant("c10-reverse-transmission", "C10", {"solver2x2.py": [('''        ttotp = 1 / Mp[0, 0]
''', '''        ttotp = 1 / Mp[0, 0]
        if num_layers > 4:
            # a complex stack: from the determinant
            ttotp = Mp[1, 1] - Mp[0, 1] * Mp[1, 0] / Mp[0, 0]
''')]},
      "three or more layers, p-polarised light",
      "the transmission from the other side is returned",
      '''
g, h, s = [ConstantRefractiveIndex(n).get_mat() for n in (1.5, 2.1, 3.5)]
ls = [Layer(g, 100), Layer(h, 50), Layer(g, 70)]
a = elli.Structure(AIR, ls, s).evaluate(500.0, 60, solver=elli.Solver2x2)
b = elli.Structure(AIR, ls, s).evaluate(500.0, 60, solver=elli.Solver4x4)
assert np.allclose(a.T_pp, b.T_pp)
''')

