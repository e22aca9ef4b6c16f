"""Definitions of planted bugs, written from the property texts and the code (see plant.py)."""
HEAD = '''
import numpy as np
import elli
from elli import *
'''
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


plant("c01-euler-negative-nutation", "C01", {"utils.py": [("    s2 = np.sin(n)\n", "    s2 = np.sqrt(1 - c2**2)\n")]},
      "a negative nutation angle, as in the documented inverse rotation (-r, -n, -p)",
      "rotation_euler returns the wrong matrix: the documented inverse is no longer the inverse",
      '''
m = elli.utils.rotation_euler(20, 35, 70)
i = elli.utils.rotation_euler(-70, -35, -20)
assert np.allclose(m @ i, np.eye(3)), m @ i
assert np.allclose(i, m.T)
''')

plant("c01-axis-angle-half-turn", "C01", {"utils.py": [("        + m_w * np.sin(np.deg2rad(theta))\n", "        + m_w * np.sqrt(1 - np.cos(np.deg2rad(theta)) ** 2)\n")]},
      "rotation angles that are negative or above 180 degrees",
      "rotation_v_theta turns by -theta for angles with a negative sine",
      '''
a = elli.utils.rotation_v_theta([0, 0, 1], 250)
b = elli.utils.rotation_v_theta([0, 0, 1], 125)
assert np.allclose(a, b @ b), (a, b @ b)
assert np.allclose(elli.utils.rotation_v_theta([0, 1, 0], -30), elli.utils.rotation_v_theta([0, 1, 0], 30).T)
''')

plant("c02-second-rotation-accumulates", "C02", {"materials.py": [("        self.rotated = True\n        self.rotation_matrix = r\n", "        self.rotation_matrix = r @ self.rotation_matrix if self.rotated else r\n        self.rotated = True\n")]},
      "set_rotation called a second time on the same material",
      "the second rotation is applied on top of the first one instead of replacing it",
      '''
mk = lambda: elli.BiaxialMaterial(ConstantRefractiveIndex(1.5).get_mat().dispersion_x, ConstantRefractiveIndex(1.7), ConstantRefractiveIndex(2.0))
r1, r2 = elli.rotation_euler(10, 20, 30), elli.rotation_euler(40, 50, 60)
a, b = mk(), mk()
a.set_rotation(r1); a.set_rotation(r2)
b.set_rotation(r2)
assert np.allclose(a.get_tensor(500), b.get_tensor(500))
''')

plant("c03-pure-constituents", "C03", {"materials.py": [("        if not 0 <= fraction <= 1:\n", "        if not 0 <= fraction < 1:\n")]},
      "a mixture of fraction exactly one",
      "the limiting case of the pure guest material is rejected",
      """
a, b = ConstantRefractiveIndex(1.5).get_mat(), ConstantRefractiveIndex(2).get_mat()
for ema in (elli.VCAMaterial, elli.LooyengaEMA, elli.MaxwellGarnettEMA, elli.BruggemanEMA):
    for f, n in ((0, 1.5), (1, 2)):
        try:
            t = ema(a, b, f).get_tensor(np.array([500.0]))
        except ValueError as e:
            raise AssertionError(e)
        assert np.allclose(t[0, 0, 0], n**2)
""")

plant("c03-looyenga-metal", "C03", {"materials.py": [("            self.host_material.get_tensor(lbda) ** (1 / 3) * (1 - fraction)\n", "            sqrt(self.host_material.get_tensor(lbda)).real ** (2 / 3) * (1 - fraction)\n")]},
      "a host with absorption (or a metallic one) in LooyengaEMA",
      "the imaginary part of the host is ignored; at fraction 0 the mixture is not the host",
      """
h = elli.Table(lbda=[400, 600], n=[1.5 + 0.4j, 1.5 + 0.4j]).get_mat()
m = elli.LooyengaEMA(h, ConstantRefractiveIndex(2).get_mat(), 0)
assert np.allclose(m.get_tensor(np.array([500.0]))[0, 0, 0], (1.5 + 0.4j)**2)
""")

plant("c04-layer-tensor-kept", "C04", {"structure.py": [("        return [(self.thickness, self.material.get_tensor(lbda))]\n", '''        if getattr(self, "_evaluated", (None,))[0] is not lbda:
            self._evaluated = (lbda, self.material.get_tensor(lbda))
        return [(self.thickness, self._evaluated[1])]
''')]},
      "the profile of a layer is taken twice with the same wavelength array, and its material was changed in between",
      "the layer still shows its former material",
      '''
l = elli.Layer(ConstantRefractiveIndex(1.5).get_mat(), 100)
lbda = np.array([500.0, 600.0])
s = elli.Structure(AIR, [l], ConstantRefractiveIndex(2).get_mat())
s.get_permittivity_profile(lbda)
l.set_material(ConstantRefractiveIndex(1.8).get_mat())
assert np.allclose(s.get_permittivity_profile(lbda)[1][1][:, 0, 0], 1.8**2)
''')

plant("c05-nearly-vertical", "C05", {"experiment.py": [("            if Q == -1:\n", "            if Q < -0.999:\n")]},
      "a Stokes vector that is nearly but not exactly vertical",
      "nearly vertical light is treated as vertical: its p component and its phase are lost",
      """
s = elli.Structure(AIR, [], ConstantRefractiveIndex(2).get_mat())
j0 = np.array([0.02, np.sqrt(1 - 0.02**2) * np.exp(0.7j)])
st = elli.Experiment(s, 500, 60, j0).stokes_vector
j = elli.Experiment(s, 500, 60, st).jones_vector
assert np.allclose(j / j[0] * 0.02 if j[0] else j, j0, atol=1e-6), (j, j0)
""")

plant("c06-near-critical-angle", "C06", {"solver2x2.py": [("            abs(ncostheta.imag) > 1e-10, ncostheta.imag > 0, ncostheta.real > 0\n", "            abs(ncostheta.imag) > 1e-1, ncostheta.imag > 0, ncostheta.real > 0\n")]},
      "total reflection within a fraction of a degree beyond the critical angle (or an exit medium of very low absorption)",
      "the growing instead of the decaying wave is taken in the exit medium: the reflection phase has the wrong sign",
      """
s = elli.Structure(ConstantRefractiveIndex(1.5).get_mat(), [], AIR)
l = np.array([500.0])
crit = np.rad2deg(np.arcsin(1 / 1.5))
for d in (0.001, 0.01, 0.05, 0.1):
    a = s.evaluate(l, crit + d).jones_matrix_r
    b = s.evaluate(l, crit + d, solver=elli.Solver2x2).jones_matrix_r
    assert np.allclose(a, b), (d, a, b)
""")

plant("c07-opaque-layer-clip", "C07", {"solver2x2.py": [("        delta = kz_list[1:-1] * (d_list if n_list.ndim == 1 else d_list[:, None])\n", '''        delta = kz_list[1:-1] * (d_list if n_list.ndim == 1 else d_list[:, None])
        delta = np.where(delta.imag > 5, delta.real + 5j, delta)  # avoid overflow in opaque layers
''')]},
      "an absorbing layer of more than five absorption lengths",
      "the transmission through opaque layers is overestimated by the 2x2 solver",
      '''
k = elli.Table(lbda=[400, 600], n=[1.5 + 2j, 1.5 + 2j]).get_mat()
s = elli.Structure(AIR, [elli.Layer(k, 300)], ConstantRefractiveIndex(1.5).get_mat())
a = s.evaluate(np.array([500.0]), 20).T
b = s.evaluate(np.array([500.0]), 20, solver=elli.Solver2x2).T
assert np.allclose(a, b, rtol=1e-6, atol=0), (a, b)
''')

plant("c08-total-reflection-transmits", "C08", {"solver4x4.py": [("            power_correction = k_z_b.real / k_z_f.real\n", "            power_correction = np.abs(k_z_b / k_z_f)\n")]},
      "total internal reflection, evaluated for its transmission",
      "R+T exceeds one: evanescent waves are counted as transmitted power",
      '''
s = elli.Structure(ConstantRefractiveIndex(1.5).get_mat(), [], AIR)
r = s.evaluate(np.array([500.0]), 60)
assert np.allclose(r.R + r.T, 1), (r.R, r.T)
assert np.allclose(r.T_matrix, 0)
''')

plant("c09-thin-layers-skipped", "C09", {"solver4x4.py": [("        for thickness, epsilon in layers:\n", "        for thickness, epsilon in layers:\n            if thickness < 0.5:  # no phase to speak of\n                continue\n")]},
      "layers, or slices of an inhomogeneous layer, thinner than half a nanometre",
      "splitting a layer into many thin slices makes it disappear",
      '''
m, sub = ConstantRefractiveIndex(2.2).get_mat(), ConstantRefractiveIndex(3.5).get_mat()
one = elli.Structure(AIR, [elli.Layer(m, 20)], sub)
many = elli.Structure(AIR, [elli.RepeatedLayers([elli.Layer(m, 0.4)], 50)], sub)
l = np.array([500.0])
assert np.allclose(one.evaluate(l, 70).rho, many.evaluate(l, 70).rho)
''')

plant("c11-gyrotropic-tensor", "C11", {"solver4x4.py": [("                    eps[:, 1, 2] * eps[:, 2, 0] / eps[:, 2, 2] - eps[:, 1, 0],\n", "                    eps[:, 2, 1] * eps[:, 0, 2] / eps[:, 2, 2] - eps[:, 0, 1],\n")]},
      "a permittivity tensor that is not symmetric (gyrotropic medium)",
      "the row of the layer matrix for Hx uses the transposed tensor: not Maxwell's equations any more",
      '''
g = 0.3j
eps = np.array([[[2, g, 0.1], [-g, 2.2, 0.2j], [0.1, -0.2j, 2.5]]], dtype=complex)
kx = np.array([0.7])
d = elli.Solver4x4.build_delta_matrix(kx, eps)[0]
# Ez from the z component of Ampere's law, then dHx/dz row
ex, ey = 1.0, 0.5
hx, hy = 0.2, -0.3
ez = -(eps[0, 2, 0] * ex + eps[0, 2, 1] * ey + kx[0] * hy) / eps[0, 2, 2]
dy = eps[0, 1, 0] * ex + eps[0, 1, 1] * ey + eps[0, 1, 2] * ez
got = d @ np.array([ex, ey, hx, hy])
assert np.isclose(got[2], kx[0]**2 * ey - dy), (got[2], kx[0]**2 * ey - dy)
''')

plant("c12-linear-propagator-wavelengths", "C12", {"solver4x4.py": [('''        p_hs_lin = np.identity(4) + 1j * thickness * np.einsum(
            "nij,n->nij", delta, 2 * sc.pi / lbda
        )
''', '''        p_hs_lin = np.identity(4) + 1j * thickness * np.einsum(
            "nij,n->nij", delta, 2 * sc.pi / np.sort(lbda)
        )
''')]},
      "PropagatorLinear with wavelengths that are not ascending",
      "each layer matrix is multiplied by the phase of another wavelength",
      '''
p = elli.PropagatorLinear()
eps = np.tile(np.diag([2.0, 2.2, 2.4]).astype(complex), (3, 1, 1))
l = np.array([600.0, 400.0, 500.0])
d = elli.Solver4x4.build_delta_matrix(np.full(3, 0.5), eps)
got = p.calculate_propagation(d, 10.0, l)
for i in range(3):
    assert np.allclose(got[i], np.eye(4) + 2j * np.pi * 10 / l[i] * d[i])
''')

plant("c13-iso-inverse-absorbing", "C13", {"solver4x4.py": [("                    [ones / cos_phi, zeros, zeros, ones / n_x],\n", "                    [ones / cos_phi, zeros, zeros, ones / n_x.real],\n")]},
      "an isotropic half-space with absorption",
      "the inverse transition matrix is not the inverse of the transition matrix",
      '''
eps = np.array([np.diag([(1.5 + 0.3j)**2] * 3)])
k = np.array([0.4])
m = elli.Solver4x4.transition_matrix_iso_halfspace(k, eps)
i = elli.Solver4x4.transition_matrix_iso_halfspace(k, eps, inv=True)
assert np.allclose(i @ m, np.eye(4))
''')

plant("c14-forward-angle-any", "C14", {"solver2x2.py": [("            abs(ncostheta.imag) > 1e-10, ncostheta.imag > 0, ncostheta.real > 0\n", "            np.any(abs(ncostheta.imag) > 1e-10), ncostheta.imag > 0, ncostheta.real > 0\n")]},
      "one evaluation that contains wavelengths with and without total reflection (or absorption in the exit medium)",
      "the wavelengths without total reflection take the wrong direction in the exit medium because of the others",
      '''
n = elli.Table(lbda=[400, 600], n=[1.6, 1.2]).get_mat()
s = elli.Structure(n, [elli.Layer(ConstantRefractiveIndex(1.4).get_mat(), 80)], AIR)
l = np.array([420.0, 580.0])
both = s.evaluate(l, 45, solver=elli.Solver2x2).jones_matrix_r
for i in range(2):
    one = s.evaluate(l[i:i + 1], 45, solver=elli.Solver2x2).jones_matrix_r
    assert np.allclose(one[0], both[i]), (i, one[0], both[i])
''')

plant("c15-rho-t-cross-polarisation", "C15", {"result.py": [('''        rho_t = np.dot(self.rho_matrix_t, self.experiment.jones_vector)
        rho_t = rho_t[:, 0] / rho_t[:, 1]
''', '''        jones = self.experiment.jones_vector
        rho_t = self.rho_matrix_t[:, 0, 0] * jones[0] / jones[1]
''')]},
      "transmission through an anisotropic sample with cross polarisation",
      "rho_t ignores the light converted between p and s",
      '''
u = elli.UniaxialMaterial(ConstantRefractiveIndex(1.5), ConstantRefractiveIndex(1.8))
u.set_rotation(elli.rotation_euler(40, 70, 0))
s = elli.Structure(AIR, [elli.Layer(u, 400)], ConstantRefractiveIndex(1.5).get_mat())
r = elli.Experiment(s, np.array([500.0]), 30, [1, 0.4]).evaluate()
t = r.jones_matrix_t[0] @ np.array([1, 0.4])
assert np.allclose(r.rho_t, t[0] / t[1]), (r.rho_t, t[0] / t[1])
''')

plant("c16-mueller-cross-terms", "C16", {"result.py": [('''            "aij,akl->aikjl", self.rho_matrix, np.conjugate(self.rho_matrix)
''', '''            "aij,alk->aikjl", self.rho_matrix, np.conjugate(self.rho_matrix)
''')]},
      "a sample with unequal cross polarisation r_ps != r_sp",
      "the Mueller matrix mixes up the two cross polarisation coefficients",
      '''
u = elli.BiaxialMaterial(ConstantRefractiveIndex(1.5), ConstantRefractiveIndex(1.8), ConstantRefractiveIndex(2.1))
u.set_rotation(elli.rotation_euler(40, 50, 20))
s = elli.Structure(AIR, [elli.Layer(u, 300)], ConstantRefractiveIndex(3).get_mat())
r = elli.Experiment(s, np.array([500.0]), 60, [1, 0]).evaluate()
j = r.jones_matrix_r[0]
m = r.mueller_matrix[0]
def stokes(e):
    return np.array([abs(e[0])**2 + abs(e[1])**2, abs(e[0])**2 - abs(e[1])**2, 2 * np.real(e[0] * np.conj(e[1]))])
for v in ([1, 0], [0, 1], [1, 1], [1, 1j], [0.3, 0.8j]):
    st = np.append(stokes(np.array(v)), 2 * np.imag(v[0] * np.conj(v[1])))
    out = m @ st
    ref = stokes(j @ np.array(v))
    assert np.allclose(out[:3] / out[0], ref / ref[0]), (v, out, ref)
''')

plant("c17-tc-power", "C17", {"result.py": [("        return np.abs(self.jones_matrix_tc) ** 2 * self._power_correction[:, None, None]\n", "        return np.abs(self.jones_matrix_tc) ** 2\n")]},
      "transmittance in the circular basis with different entrance and exit media",
      "Tc is not the transmitted power: the circular and linear descriptions transmit different totals",
      '''
s = elli.Structure(AIR, [elli.Layer(ConstantRefractiveIndex(1.9).get_mat(), 100)], ConstantRefractiveIndex(1.5).get_mat())
r = s.evaluate(np.array([500.0]), 30)
assert np.allclose(r.Tc_matrix.sum(), r.T_matrix.sum())
''')

plant("c18-cross-angles-swapped", "C18", {"result.py": [('            return self.__getattribute__(names[0] + "_matrix")[:, i, j]\n\n        if names[0] in ["r", "rc", "t", "tc"]:', '            if names[0] in ["psi", "delta", "rho"]:\n                return self.__getattribute__(names[0] + "_matrix")[:, j, i]\n            return self.__getattribute__(names[0] + "_matrix")[:, i, j]\n\n        if names[0] in ["r", "rc", "t", "tc"]:')]},
      "off-diagonal ellipsometric angles requested by name on an anisotropic sample",
      "psi_ps returns psi_sp and the other way round",
      '''
u = elli.BiaxialMaterial(ConstantRefractiveIndex(1.5), ConstantRefractiveIndex(1.8), ConstantRefractiveIndex(2.1))
u.set_rotation(elli.rotation_euler(40, 50, 20))
r = elli.Structure(AIR, [elli.Layer(u, 300)], ConstantRefractiveIndex(3).get_mat()).evaluate(np.array([500.0]), 60)
assert np.allclose(r.psi_ps, r.psi_matrix[:, 0, 1])
assert np.allclose(r.get("Δ_sp"), r.delta_matrix[:, 1, 0])
''')
