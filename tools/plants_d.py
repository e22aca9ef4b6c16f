"""Definitions of planted bugs, fourth part (see plant.py)."""
HEAD = '''
import numpy as np
import pandas as pd
import elli
from elli import *
'''
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


plant("c01-long-vector", "C01", {"utils.py": [("    return scipy_expm(m_w)\n", "    norm = np.linalg.norm(v)\n    if norm > 2 * np.pi:\n        m_w = m_w * (norm % np.pi) / norm\n    return scipy_expm(m_w)\n")]},
      "a rotation vector longer than a full turn, in an odd half turn",
      "the angle is reduced by half turns",
      '''
assert np.allclose(rotation_v([0, 0, 3.5 * np.pi]), rotation_v_theta([0, 0, 1], 630.0))
''')

plant("c04-repeated-before", "C04", {"structure.py": [("        sequence = before + self.repetitions * profiles + profiles[: self.after]\n", "        if self.repetitions > 10:\n            period = [entry for profile in profiles for entry in profile]\n            return (\n                (period[-self.before :] if self.before else [])\n                + self.repetitions * period\n                + period[: self.after]\n            )\n        sequence = before + self.repetitions * profiles + profiles[: self.after]\n")]},
      "more than 10 repetitions of a period with a graded layer and extra layers before or after",
      "extra slices instead of extra layers are added",
      '''
d = elli.ConstantRefractiveIndex
m = d(1.5).get_mat()
g = elli.VaryingMixtureLayer(elli.VCAMaterial(m, m, 0.5), 90, 3)
p = elli.RepeatedLayers([elli.Layer(m, 10), g], 11, 1, 1).get_permittivity_profile(np.array([500.0]))
assert len(p) == 3 + 11 * 4 + 1
''')

plant("c05-nearly-pure", "C05", {"experiment.py": [("            Q = self.stokes_vector[1] / p\n", "            if abs(p - self.stokes_vector[0]) < 1e-2 * p:\n                p = self.stokes_vector[0]\n            Q = self.stokes_vector[1] / p\n")]},
      "a Stokes vector with a degree of polarisation of 99 to 100 percent",
      "the Jones vector is not of unit length",
      '''
s = elli.Structure(elli.AIR, [], elli.AIR)
e = elli.Experiment(s, np.array([500.0]), 60, [1.005, 0.6, 0.8, 0.0])
assert np.isclose(np.sum(np.abs(e.jones_vector) ** 2), 1)
''')

plant("c19-factory-cache", "C19", {"dispersions/base_dispersion.py": [("            return getattr(dispersions, identifier)(*args, **kwargs)\n", "            key = (identifier, str(args), str(kwargs))\n            cache = DispersionFactory.__dict__.get(\"_cache\")\n            if cache is None:\n                cache = {}\n                DispersionFactory._cache = cache\n            if key not in cache:\n                cache[key] = getattr(dispersions, identifier)(*args, **kwargs)\n            return cache[key]\n")]},
      "two dispersions created by name with equal parameters, one of them changed afterwards",
      "both names refer to one object, added parameters appear in both",
      '''
a = elli.DispersionFactory.get_dispersion("Sellmeier")
a.add(1.0, 0.01)
b = elli.DispersionFactory.get_dispersion("Sellmeier")
assert b.rep_params == []
''')

plant("c21-many-oscillators", "C21", {"dispersions/sellmeier.py": [("            c.get(\"A\") * lbda**2 / (lbda**2 - c.get(\"B\")) for c in self.rep_params\n", "            c.get(\"A\") * lbda**2 / (lbda**2 - c.get(\"B\")) for c in self.rep_params[:6]\n")]},
      "a Sellmeier model with more than six oscillators",
      "further oscillators are ignored",
      '''
s = elli.Sellmeier()
for i in range(8):
    s.add(1.0, 0.01)
assert np.allclose(s.get_dielectric(1000.0), 1 + 8 / 0.99)
''')

plant("c21-lorentz-cluster", "C21", {"dispersions/lorentz_energy.py": [("            for c in self.rep_params\n", "            for c in {c.get(\"E\"): c for c in self.rep_params}.values()\n")]},
      "two oscillators with the same resonance energy",
      "only the last oscillator of each energy counts",
      '''
s = elli.LorentzEnergy().add(A=2.0, E=3.0, gamma=0.1).add(A=5.0, E=3.0, gamma=1.0)
t = elli.LorentzEnergy().add(A=2.0, E=3.0, gamma=0.1)
u = elli.LorentzEnergy().add(A=5.0, E=3.0, gamma=1.0)
assert np.allclose(s.get_dielectric(500.0), t.get_dielectric(500.0) + u.get_dielectric(500.0) - 1)
''')

plant("c23-conjugated-metal", "C23", {"dispersions/base_dispersion.py": [("            {\"ϵ1\": eps.real, \"ϵ2\": -eps.imag if conjugate else eps.imag},\n", "            {\n                \"ϵ1\": eps.real,\n                \"ϵ2\": -eps.imag if conjugate and np.size(eps) > 1 else eps.imag,\n            },\n")]},
      "the conjugated data frame of one wavelength",
      "the imaginary part keeps its sign",
      '''
d = elli.ConstantRefractiveIndex(1.0 + 1.0j)
assert np.allclose(d.get_dielectric_df(np.array([500.0]), conjugate=True)["ϵ2"], -2)
''')

plant("c24-permuted-query", "C24", {"dispersions/table_index.py": [("            kind=self.kind,\n        )\n\n        self.default_lbda_range", "            kind=self.kind,\n        )\n        interpolate = self.interpolation\n        x = np.sort(self.single_params.get(\"lbda\"))\n        self.interpolation = lambda q: (\n            interpolate(x)\n            if np.shape(q) == np.shape(x) and np.array_equal(np.sort(q), x)\n            else interpolate(q)\n        )\n\n        self.default_lbda_range"), ("import scipy", "import numpy as np\nimport scipy")]},
      "a query of exactly the tabulated wavelengths, not in increasing order",
      "the values come in increasing order of wavelength",
      '''
t = elli.Table(lbda=np.array([300.0, 200.0, 100.0]), n=np.array([3.0, 2.0, 1.0]))
assert np.allclose(t.get_refractive_index(np.array([300.0, 200.0, 100.0])), [3, 2, 1])
''')

plant("c26-small-axis", "C26", {"kkr/kkr.py": [("    return np.sum(x_i * re / (x * x - x_i * x_i), axis=1)\n", "    diff = x * x - x_i * x_i\n    return np.sum(x_i * re / np.where(np.isclose(diff, 0), np.inf, diff), axis=1)\n")]},
      "an axis with small numbers, such as wavelengths in metres",
      "all terms of the sum are dropped as if they were the pole",
      '''
from elli.kkr import kkr
x = np.linspace(1, 2, 11)
y = np.cos(x)
assert np.allclose(kkr.re2im(y, x), kkr.re2im(y, x * 1e-6))
''')

plant("c27-qwp-absorbing", "C27", {"utils.py": [("    nr = np.real(material.get_refractive_index(lbda)[0, 0, 0])\n", "    nr = np.abs(material.get_refractive_index(lbda)[0, 0, 0])\n")]},
      "an absorbing material",
      "the thickness follows the magnitude of the index",
      '''
m = elli.ConstantRefractiveIndex(1.5 + 0.5j).get_mat()
assert np.isclose(elli.utils.get_qwp_thickness(m, 600.0), 100.0)
''')

plant("c31-shrink-keeps-oldest", "C31", {"fitting/params_hist.py": [("        self._history = self._history[-history_len:]\n", "        self._history = self._history[:history_len]\n")]},
      "the maximum length set below the current length of the history",
      "the newest states are dropped",
      '''
from elli.fitting.params_hist import ParamsHist
p = ParamsHist()
p.add("a", 1.0)
for v in (2.0, 3.0, 4.0):
    p.update_value("a", v)
p.max_history_len = 1
p.pop()
assert p["a"].value == 3.0
''')

plant("c33-evaluate-cache", "C33", {"experiment.py": [("        solv = solver(self, **solver_kwargs)\n        return solv.calculate()\n", "        key = (\n            solver,\n            str(solver_kwargs),\n            self.theta_i,\n            self.lbda.tobytes(),\n            tuple(map(id, self.structure.layers)),\n            id(self.structure.front_material),\n            id(self.structure.back_material),\n            tuple(getattr(layer, \"thickness\", None) for layer in self.structure.layers),\n        )\n        if self.__dict__.get(\"_key\") != key:\n            self._last = solver(self, **solver_kwargs).calculate()\n            self._key = key\n        return self._last\n")]},
      "an experiment evaluated again after the polarisation or a material was changed in place",
      "the earlier result is returned",
      '''
m = elli.ConstantRefractiveIndex(1.5).get_mat()
e = elli.Experiment(elli.Structure(elli.AIR, [], m), np.array([500.0]), 60)
e.evaluate()
m.set_dispersion(elli.ConstantRefractiveIndex(2.5))
assert np.allclose(e.evaluate().R_ss, elli.Structure(elli.AIR, [], m).evaluate(np.array([500.0]), 60).R_ss)
''')

plant("c37-open-bounds", "C37", {"database/refractive_index_info.py": [("                    (result[\"lower_range\"] <= wl) & (result[\"upper_range\"] >= wl)\n", "                    (result[\"lower_range\"] <= wl) & (result[\"upper_range\"] > wl)\n")]},
      "a list of wavelengths whose largest is exactly the end of a page's range",
      "the page is dropped",
      '''
from elli.database.refractive_index_info import RII
r = RII.__new__(RII)
r.catalog = pd.DataFrame({"shelf": ["main"], "book": ["Au"], "page": ["x"], "lower_range": [400.0], "upper_range": [800.0]})
r._filter_lists = {"book": r.catalog["book"].values}
assert len(r.search("Au", "book", [400.0, 800.0], fuzzy=False)) == 1
''')

plant("c38-rotated-index", "C38", {"plot/structure.py": [("def get_index_profile(", "def _index(eps, v):\n    return v @ sqrt(eps[0]) @ v\n\n\ndef get_index_profile("), ("    (h, epsilon) = list(zip(*profile))  # unzip\n    n =", "    (h, epsilon) = list(zip(*profile))  # unzip\n    if np.count_nonzero(v) == 1:\n        return [(d, _index(eps, np.asarray(v))) for d, eps in profile]\n    n =")]},
      "a profile along an axis given with another length than one",
      "the index is scaled twice",
      '''
from elli.plot.structure import get_index_profile
m = elli.ConstantRefractiveIndex(2.0).get_mat()
s = elli.Structure(elli.AIR, [elli.Layer(m, 10)], m)
assert np.isclose(get_index_profile(s, 500, np.array([0.5, 0, 0]))[1][1], 1.0)
''')

plant("c38-drawn-thickness", "C38", {"plot/structure.py": [("    z_layers = np.hstack((0.0, np.cumsum(h[1:-1])))\n", "    z_layers = np.linspace(0.0, sum(h[1:-1]), len(h) - 1)\n    if not np.isclose(max(h[1:-1], default=0), min(h[1:-1], default=0), rtol=0.2):\n        z_layers = np.hstack((0.0, np.cumsum(h[1:-1])))\n")]},
      "layers of similar but not equal thickness",
      "the boundaries are drawn at equal distances",
      '''
import matplotlib
matplotlib.use("Agg")
from elli.plot import draw_structure
m = elli.ConstantRefractiveIndex(2.0).get_mat()
s = elli.Structure(elli.AIR, [elli.Layer(m, 100), elli.Layer(elli.AIR, 110)], m)
ax = draw_structure(s)
assert np.allclose(ax.lines[0].get_xdata()[1:-1], [0, 100, 210])
''')

plant("c38-section-magnitude", "C38", {"plot/structure.py": [("    n = np.array(n).reshape((1, -1)).real\n", "    n = np.abs(np.array(n).reshape((1, -1)))\n")]},
      "a section drawing of absorbing layers",
      "the magnitude of the index is drawn",
      '''
import matplotlib
matplotlib.use("Agg")
from elli.plot import draw_structure
m = elli.ConstantRefractiveIndex(2.0 + 1.5j).get_mat()
ax = draw_structure(elli.Structure(elli.AIR, [elli.Layer(m, 100)], m), method="section")
assert np.allclose(np.ravel(ax.collections[0].get_array()), [1, 2, 2])
''')
