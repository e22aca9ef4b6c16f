"""Definitions of planted bugs, second part (see plant.py)."""
HEAD = '''
import numpy as np
import elli
from elli import *
'''
PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


plant("c20-sum-with-itself", "C20", {"dispersions/base_dispersion.py": [("            self.dispersions += other.dispersions\n", "            self.dispersions += [d for d in other.dispersions if d not in self.dispersions]\n")]},
      "two sums that share a summand, or a sum added to itself",
      "a shared summand is counted once",
      '''
p = elli.Polynomial(1).add(2.0, 1)
s = p + elli.EpsilonInf(2)
l = np.array([500.0])
assert np.allclose((s + s).get_dielectric(l), 2 * s.get_dielectric(l))
''')

plant("c20-integer-constant", "C20", {"dispersions/base_dispersion.py": [("            return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))\n", "            return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(int(other) or other))\n")]},
      "a number with a fractional part of at least 1 added to an index dispersion",
      "the fractional part of the number is lost",
      '''
d = elli.Cauchy(1.5, 0.1, 0.01)
l = np.array([500.0])
assert np.allclose((d + 1.25).get_refractive_index(l), d.get_refractive_index(l) + 1.25)
''')

plant("c21-cody-lorentz-tail", "C21", {"dispersions/cody_lorentz.py": [("            E1 / E * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)\n", "            E1 / Et * np.exp((E - Et) / Eu) * np.heaviside(Et - E, 1)\n")]},
      "energies inside the Urbach tail (below Et)",
      "the tail has the wrong energy dependence, only right at Et",
      '''
from elli.utils import conversion_wavelength_energy as c
d = elli.CodyLorentz(Eg=1.6, Et=1.8, Eu=0.3)
p = d.single_params
G = lambda E: (E - 1.6)**2 / ((E - 1.6)**2 + p["Ep"]**2)
L = lambda E: p["A"] * p["E0"] * p["gamma"] * E / ((E**2 - p["E0"]**2)**2 + p["gamma"]**2 * E**2)
E = np.array([1.2])
assert np.allclose(d.get_dielectric(c(E)).imag, 1.8 * G(1.8) * L(1.8) / E * np.exp((E - 1.8) / 0.3))
''')

plant("c23-index-view-of-metals", "C23", {"dispersions/base_dispersion.py": [("        return sqrt(self.dielectric_function(lbda))\n\n    def get_dielectric_df", "        eps = np.asarray(self.dielectric_function(lbda))\n        return sqrt((np.abs(eps) + eps.real) / 2) + 1j * sqrt((np.abs(eps) - eps.real) / 2) * np.where(eps.imag < 1e-6, 0, 1)\n\n    def get_dielectric_df")]},
      "lossless metals, i.e. a negative real permittivity without imaginary part",
      "the refractive index of lossless negative permittivities is zero instead of imaginary",
      '''
d = elli.EpsilonInf(-4.0)
l = np.array([500.0])
assert np.allclose(d.get_refractive_index(l)**2, d.get_dielectric(l)), d.get_refractive_index(l)
''')

plant("c24-descending-table", "C24", {"dispersions/table_index.py": [('''            self.single_params.get("lbda"),
            self.single_params.get("n"),
            kind=self.kind,
''', '''            self.single_params.get("lbda"),
            self.single_params.get("n"),
            kind=self.kind,
            assume_sorted=True,
''')]},
      "a table whose wavelengths are not ascending",
      "values are interpolated between the wrong nodes or rejected",
      '''
a = elli.Table(lbda=np.array([400.0, 500.0, 600.0]), n=np.array([1.5, 1.6, 1.9]))
b = elli.Table(lbda=np.array([600.0, 400.0, 500.0]), n=np.array([1.9, 1.5, 1.6]))
l = np.array([420.0, 500.0, 555.0])
try:
    v = b.get_refractive_index(l)
except ValueError as e:
    raise AssertionError(e)
assert np.allclose(a.get_refractive_index(l), v), v
''')

plant("c25-subtraction-in-sums", "C25", {"formula_parser/dispersion_function_grammar.lark": [('''                    | repeated_expression "-" repeated_term -> sub
''', '''                    | repeated_term "-" repeated_expression -> sub
''')]},
      "two subtractions in a row inside sum[...]",
      "a - b - c is read as a - (b - c)",
      '''
f = elli.Formula("eps = sum[A - B - C*lbda]", "lbda", {}, {"A": [5.0], "B": [2.0], "C": [0.001]})
l = np.array([500.0])
try:
    v = f.get_dielectric(l)
except Exception as e:
    raise AssertionError(e)
assert np.allclose(v, 5 - 2 - 0.5), v
''')

plant("c25-log-base", "C25", {"formula_parser/parser.py": [('            "log": np.log10,\n', '            "log": np.log,\n')]},
      "a formula with the decimal logarithm",
      "log is evaluated as the natural logarithm",
      '''
f = elli.Formula("eps = log(lbda)", "lbda", {}, {})
assert np.allclose(f.get_dielectric(np.array([1000.0])), 3)
''')

plant("c26-odd-length", "C26", {"kkr/kkr.py": [("    integral = np.empty(len(t))\n", "    integral = np.empty(len(t))\n    if len(t) % 2:\n        t = np.append(t[:-1], 0)\n")]},
      "an odd number of points with a nonzero last value",
      "the last value is left out of the sums",
      '''
from elli.kkr import im2re
x = np.linspace(1, 3, 5)
y = np.array([0.2, 0.5, 0.9, 0.4, 0.3])
h = 0.5
ref = [4 / np.pi * h * sum(x[j] * y[j] / (x[j]**2 - x[i]**2) for j in range(5) if (i - j) % 2) for i in range(5)]
assert np.allclose(im2re(y, x), ref), (im2re(y, x), ref)
''')

plant("c27-integer-wavenumber", "C27", {"utils.py": [("    return 1e7 / value\n", "    return np.round(1e7 / value, 3)\n")]},
      "wavenumbers or wavelengths with more than three decimals",
      "the conversion is not its own inverse any more",
      '''
from elli.utils import conversion_wavelength_wavenumber as c
v = np.array([1234567.891, 98765.4321])
assert np.allclose(c(c(v)), v, rtol=1e-9)
''')

plant("c28-pseudo-high-angle", "C28", {"utils.py": [("    eps = np.sin(theta) ** 2 * (1 + np.tan(theta) ** 2 * ((1 - rho) / (1 + rho)) ** 2)\n", "    eps = np.sin(theta) ** 2 * (1 + np.tan(theta) ** 2 * (1 - rho) ** 2 / np.abs(1 + rho) ** 2)\n")]},
      "absorbing bulk materials (rho with an imaginary part)",
      "the pseudo dielectric function of an absorbing bulk is not its dielectric function",
      '''
import pandas as pd
l = np.array([500.0, 600.0])
m = elli.Table(lbda=[400, 700], n=[2.5 + 1j, 3 + 0.5j])
rho = elli.Structure(AIR, [], m.get_mat()).evaluate(l, 70).rho
eps = elli.calc_pseudo_diel(pd.Series(rho, index=l), 70, output="epsi")
assert np.allclose(eps, m.get_dielectric(l)), (eps, m.get_dielectric(l))
''')

plant("c29-mueller-second-angle", "C29", {"utils.py": [("            MM.loc[(aoi, λ), \"M43\"] = -S\n", "            MM.loc[(aois[0], λ), \"M43\"] = -S\n")]},
      "data measured at more than one angle of incidence",
      "M43 of the other angles stays undefined and that of the first angle is overwritten",
      '''
import pandas as pd
idx = pd.MultiIndex.from_product([[50.0, 60.0], [400.0]], names=["Angle of Incidence", "Wavelength"])
d = pd.DataFrame({"Ψ": [20.0, 30.0], "Δ": [100.0, 150.0]}, index=idx)
m = elli.utils.convert_psi_delta_to_isotropic_mueller_matrix(d)
assert np.allclose(m["M43"].to_numpy(dtype=float), -m["M34"].to_numpy(dtype=float))
assert np.allclose(m["M34"].to_numpy(dtype=float), np.sin(np.deg2rad([40, 60])) * np.sin(np.deg2rad([100, 150])))
''')

plant("c31-history-limit", "C31", {"fitting/params_hist.py": [("        self._history = self._history[-history_len:]\n", "        self._history = self._history[:history_len]\n")]},
      "reducing the maximum history length below the present number of steps",
      "the newest instead of the oldest steps are dropped, so undo jumps over the last changes",
      '''
from elli.fitting import ParamsHist
p = ParamsHist()
p.add("a", value=0.0)
for i in range(1, 6):
    p.update_value("a", float(i))
p.max_history_len = 2
p.pop()
assert p["a"].value == 4.0, p["a"].value
''')

plant("c32-residual-columns", "C32", {"fitting/decorator_mmatrix.py": [("            mueller_matrix.values.reshape(-1, 4, 4)\n", "            mueller_matrix.values.reshape(-1, 4, 4).transpose(0, 2, 1)\n")]},
      "a Mueller matrix that is not symmetric",
      "measured and modelled elements are compared across the diagonal",
      '''
import sys
sys.argv = ["x"]
import pandas as pd
from lmfit import Parameters
from elli.fitting.decorator_mmatrix import FitMuellerMatrix
m = np.arange(32.0).reshape(2, 4, 4)
class R: mueller_matrix = m
class Fake: pass
f = Fake(); f.model = lambda l, p: R
df = pd.DataFrame(m.reshape(2, 16), index=[400.0, 500.0])
assert np.allclose(FitMuellerMatrix.fit_function(f, Parameters(), df.index.values, df), 0)
''')

plant("c32-psi-delta-order", "C32", {"fitting/decorator_psi_delta.py": [("        rho = calc_rho(self.exp_data)\n        res = minimize(\n", "        rho = calc_rho(self.exp_data).sort_index()\n        res = minimize(\n"), ("            args=(rho.index.to_numpy(), rho.values.real, rho.values.imag),\n", "            args=(self.exp_data.index.to_numpy(), rho.values.real, rho.values.imag),\n")]},
      "measured data whose wavelengths are not ascending",
      "the model at one wavelength is compared with the measurement at another one",
      '''
import pandas as pd
from lmfit import Parameters
from elli.fitting.decorator_psi_delta import FitRho
import elli.fitting.decorator_psi_delta as mod
got = {}
def fake(fcn, params, args=(), **k):
    got["r"] = fcn(params, *args)
    class Res: pass
    Res.params = params
    return Res
mod.minimize = fake
l = np.array([500.0, 400.0, 600.0])
psi = l / 20; delta = l / 5
df = pd.DataFrame({"Ψ": psi, "Δ": delta}, index=pd.Index(l, name="Wavelength"))
class F: pass
f = F(); f.exp_data = df; f.params = Parameters()
class R:
    def __init__(self, l):
        self.rho = np.tan(np.deg2rad(l / 20)) * np.exp(-1j * np.deg2rad(l / 5))
f.model = lambda lb, p: R(np.asarray(lb))
f.fit_function = lambda *a: FitRho.fit_function(f, *a)
FitRho.fit(f)
assert np.allclose(got["r"], 0), got
''')

plant("c33-result-follows-experiment", "C33", {"solver.py": [("        self.experiment = deepcopy(experiment)\n        self.structure = self.experiment.structure\n", "        self.experiment = experiment\n        self.structure = deepcopy(self.experiment.structure)\n")]},
      "changing the polarisation or wavelengths of an experiment after it was evaluated",
      "the earlier result changes with the experiment",
      '''
s = elli.Structure(AIR, [elli.Layer(ConstantRefractiveIndex(2).get_mat(), 80)], ConstantRefractiveIndex(3).get_mat())
e = elli.Experiment(s, np.array([500.0]), 60, [1, 1])
r = e.evaluate()
a = r.rho.copy()
e.set_vector([1, 0.2])
assert np.allclose(r.rho, a)
''')

plant("c02-tensors-share-buffer", "C02", {"materials.py": [('''        # create empty tensor
        epsilon = np.zeros((length, 3, 3), dtype=np.complex128)
''', '''        # create empty tensor
        if not hasattr(self, "_buffer") or len(self._buffer) != length:
            self._buffer = np.zeros((length, 3, 3), dtype=np.complex128)
        epsilon = self._buffer
''')]},
      "a tensor that is kept while the same material is evaluated at other wavelengths (or after a change of its dispersion)",
      "a tensor obtained earlier changes its values",
      '''
m = elli.Cauchy(1.5, 0.1, 0.02).get_mat()
a = m.get_tensor(np.array([400.0, 500.0]))
b = a.copy()
m.get_tensor(np.array([600.0, 700.0]))
assert np.allclose(a, b)
''')

plant("c34-wvase-sign", "C34", {"importer/woollam.py": [('re.search(r"^(-?\\d*\\.\\d*\\s+){5}\\d*\\.\\d*$", line)', 're.search(r"^(\\d*\\.\\d*\\s+){5}\\d*\\.\\d*$", line)')]},
      "a WVASE file whose first rows have a negative delta",
      "those rows are taken for the header: they are lost and the unit is not recognised",
      """
from elli.importer.woollam import _is_wvase_tabular as f
assert f("300.0\\t65.0\\t1.0\\t2.0\\t0.1\\t0.2\\n")
assert f("300.0\\t65.0\\t1.0\\t-2.0\\t0.1\\t0.2\\n")
""")

plant("c34-scale-integer-axis", "C34", {"importer/woollam.py": [("            dataframe.index.levels[1].astype(float) * scaling, level=1\n", "            (dataframe.index.levels[1].astype(float) * scaling).unique().round(1), level=1\n")]},
      "wavelengths with more than one decimal in nm",
      "wavelengths are rounded to a tenth of a nanometre",
      '''
import pandas as pd
i = pd.MultiIndex.from_product([[50.0], [0.40012, 0.50037]], names=["Angle of Incidence", "Wavelength"])
d = elli.scale_to_nm("um", pd.DataFrame({"Ψ": [1.0, 2.0], "Δ": [3.0, 4.0]}, index=i))
assert np.allclose(d.index.get_level_values(1), [400.12, 500.37]), d
''')
