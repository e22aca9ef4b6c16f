From 2ac8bb5391188d1801407fe79d6006d9a8fdf5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/32] fix: shift delta values into the requested delta range

The shift added the lower bound instead of subtracting it, so any range whose
lower bound is not a multiple of 180 (e.g. -90..270) returned wrong angles, and
the range (0, 180) was never folded outside of Result.delta.
---
 src/elli/result.py | 22 ++++------------------
 src/elli/utils.py  | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..ebfd991 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -112,10 +112,7 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.convert(-np.angle(self.rho, deg=True))
 
     @property
     def delta_t(self) -> npt.NDArray:
@@ -126,10 +123,7 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.convert(-np.angle(self.rho_t, deg=True))
 
     @property
     def rho_matrix(self) -> npt.NDArray:
@@ -197,10 +191,7 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._delta_range.convert(-np.angle(self.rho_matrix, deg=True))
 
     @property
     def delta_matrix_t(self) -> npt.NDArray:
@@ -212,12 +203,7 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
-        )
+        return self._delta_range.convert(-np.angle(self.rho_matrix_t, deg=True))
 
     @property
     def mueller_matrix(self) -> npt.NDArray:
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..44a6e33 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -35,6 +35,17 @@ class DeltaRange:
         ):
             raise ValueError(f"Invalid delta range ({self.lower}, {self.upper})")
 
+    def convert(self, delta_values: npt.ArrayLike) -> npt.ArrayLike:
+        """Returns the given delta values (in degrees) in this range.
+
+        A 360 degree range only shifts the values by whole turns,
+        the range (0, 180) additionally drops the handedness, i.e. maps Δ and -Δ to the same value.
+        """
+        shifted = np.mod(delta_values - self.lower, 360) + self.lower
+        if (self.lower, self.upper) == (0, 180):
+            return np.minimum(shifted, 360 - shifted)
+        return shifted
+
 
 def convert_delta_range(
     delta_values: npt.ArrayLike, lower: int, upper: int
@@ -50,7 +61,7 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    return delta_range.convert(delta_values)
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From 48a5ba38582570f6ed4bf55441f13dafe40ec6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 02/32] fix: DeltaRange requires both bounds to be integers

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 44a6e33..8531ab4 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From 464919a70f64a21bebc9592aec3fa9621ca3bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 03/32] fix: isotropic Mueller matrix from psi/delta in degrees
 with C=sin2Psi cosDelta, S=sin2Psi sinDelta

---
 src/elli/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 8531ab4..3bc95de 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -159,12 +159,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From dd56ae8e64ec012c69c16b401a11ae828948ff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 04/32] fix: Result.get returned a TypeError for every name

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index ebfd991..4003b34 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -370,7 +370,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From f0fcc4989409685a6652e40fd78e935a152fae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 05/32] fix: average a single result over the results, not over
 its wavelengths

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 4003b34..cf52835 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -527,4 +527,4 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From 21f708e6bf460d13c87d675bfedd39a6d6535c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 06/32] fix: adding a number to an index table

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 5be05b44929eb28f147b8d69b90b2c0eda8dc14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 07/32] fix: adding to a dispersion sum must not change the sum
 that was added to

---
 src/elli/dispersions/base_dispersion.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..d66980b 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -223,8 +223,7 @@ class Dispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
+            return other.__add__(self)
 
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
@@ -299,8 +298,7 @@ class IndexDispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
+            return other.__add__(self)
 
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
@@ -348,6 +346,9 @@ class DispersionSum(Dispersion):
             self += disp
 
     def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(*self.dispersions).__iadd__(other)
+
+    def __iadd__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
@@ -392,6 +393,11 @@ class IndexDispersionSum(IndexDispersion):
 
     def __add__(
         self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(*self.index_dispersions).__iadd__(other)
+
+    def __iadd__(
+        self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         self._check_valid_operand(other)
 
-- 
2.43.0


From c768b7530ba16f4c426bce7f2d87fb36130707b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 08/32] fix: as_index for dispersions with required parameters

---
 src/elli/dispersions/base_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index d66980b..20fa95c 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -251,7 +251,7 @@ class Dispersion(BaseDispersion):
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        idx_dispersion = AnonymousIndexDispersion(**self.single_params)
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
 
-- 
2.43.0


From 16ffed59991b3002da9f07745df74125ae2383e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 09/32] fix: loading of SpectraRay tables with a wavelength
 axis

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From 8530608a7184205ba8a81220e9a1a258b7e09275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 10/32] fix: width of the first interval in the Kramers-Kronig
 sum

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 88aae74e3eefd54a58efb3200dbc8a06f1bbd10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 11/32] fix: RepeatedLayers counts additional layers, not the
 slices of inhomogeneous layers

---
 src/elli/structure.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..13e431b 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,14 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        profiles = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
-            before = layers[-self.before :]
+            before = profiles[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+        sequence = before + self.repetitions * profiles + profiles[: self.after]
+        return [entry for profile in sequence for entry in profile]
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From e2464bfed2306487342aa721de7f5e51159cd337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 12/32] fix: inhomogeneous layers of zero thickness returned
 NaN tensors

---
 src/elli/structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index 13e431b..4b69fff 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -251,6 +251,12 @@ class InhomogeneousLayer(AbstractLayer):
         """
         return np.linspace(0, self.thickness, self.div + 1)
 
+    def get_relative_position(self, z: float) -> float:
+        """Returns the position 'z' as a fraction of the thickness (0 for a layer without thickness)."""
+        if self.thickness == 0:
+            return 0.0
+        return z / self.thickness
+
     @abstractmethod
     def get_tensor(self, z: float, lbda: npt.ArrayLike) -> npt.NDArray:
         """Returns permittivity tensor matrix for position 'z'."""
@@ -312,7 +318,7 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        m_r = rotation_v_theta(E_Z, self.angle * self.get_relative_position(z))
         return m_r @ epsilon @ m_r.T
 
 
@@ -386,7 +392,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(self.get_relative_position(z))
         )
         return epsilon
 
-- 
2.43.0


From 7933c485352efdd3e2fc607004abd3399d466283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 13/32] fix: Jones vector of Stokes vectors whose Q rounded to
 below -1 was NaN

---
 src/elli/experiment.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..3bf00ed 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -109,17 +109,15 @@ class Experiment:
         elif vector.shape == (4,):
             self.stokes_vector = vector
 
-            p = (
-                np.sqrt(
-                    self.stokes_vector[1] ** 2
-                    + self.stokes_vector[2] ** 2
-                    + self.stokes_vector[3] ** 2
-                )
-                / self.stokes_vector[0]
+            # Intensity of the polarized part
+            p = np.sqrt(
+                self.stokes_vector[1] ** 2
+                + self.stokes_vector[2] ** 2
+                + self.stokes_vector[3] ** 2
             )
-            Q = self.stokes_vector[1] / (self.stokes_vector[0] * p)
-            U = self.stokes_vector[2] / (self.stokes_vector[0] * p)
-            V = self.stokes_vector[3] / (self.stokes_vector[0] * p)
+            Q = self.stokes_vector[1] / p
+            U = self.stokes_vector[2] / p
+            V = self.stokes_vector[3] / p
 
             if Q == -1:
                 a = 0
-- 
2.43.0


From 73a650f8fbe180ea5e8fcdaa196eba7f28472c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 14/32] fix: undoing parameter changes must neither keep later
 parameters nor alter the history

---
 src/elli/fitting/params_hist.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..6d2baf4 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -81,14 +81,19 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
-            self.update(self._history[hist_pos])
+        if -len(self._history) <= hist_pos < len(self._history):
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, parameters: Parameters) -> None:
+        """Replaces the current parameters by a copy of the given ones."""
+        self.clear()
+        self.update(copy.deepcopy(parameters))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
@@ -112,7 +117,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(copy.deepcopy(parameters))
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From 836191a7ea8e74b94a6121215a217bb8d1faee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 15/32] fix: recognize CompleteEASE rows with a negative delta

---
 src/elli/importer/woollam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..c2a9687 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -58,7 +58,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}-?\d+\.\d+$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From 3b2993c92cdef957cdc2262b73168864337204e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 16/32] fix: Mueller matrix and Stokes vectors follow the sign
 notation of rho (S3 > 0 for R)

---
 src/elli/experiment.py | 4 ++--
 src/elli/result.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index 3bf00ed..d6828af 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -99,7 +99,7 @@ class Experiment:
                     * np.real(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
-                    -2
+                    2
                     * np.imag(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
@@ -124,7 +124,7 @@ class Experiment:
                 b = 1
             else:
                 a = np.sqrt((1 + Q) / 2)
-                b = U / (2 * a) + 1j * V / (2 * a)
+                b = U / (2 * a) - 1j * V / (2 * a)
 
             self.jones_vector = np.array([a, b])
 
diff --git a/src/elli/result.py b/src/elli/result.py
index cf52835..b4d3be6 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -208,7 +208,7 @@ class Result:
     @property
     def mueller_matrix(self) -> npt.NDArray:
         """Returns the Mueller matrix for reflection, calculated from the rho matrix."""
-        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1j, -1j, 0]])
+        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, -1j, 1j, 0]])
 
         # Kronecker product of S and S*
         s_kron_s_star = np.einsum(
-- 
2.43.0


From f53ddec338a8988e5a327e3e6ce31893e275a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 17/32] fix: sums in formulas which do not depend on the
 wavelength

---
 src/elli/formula_parser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..0552f33 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -128,7 +128,10 @@ class FormulaTransformer(Transformer):
         raise ValueError(f"Unknown constant: {name}")
 
     def sum_expr(self, expr):
-        """Sum an expression"""
+        """Sum an expression over all repeated parameters"""
+        expr = np.broadcast_to(
+            expr, (len(self.x_axis_values), self.no_repeated_params)
+        )
         return expr.sum(axis=1)
 
     def single_param_name(self, name):
-- 
2.43.0


From 38f17c319891a25830e159c2e06378d64431d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:00 +0000
Subject: [PATCH 18/32] fix: parameter names of formulas may start with the
 name of a function or constant

---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..fcd764c 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?![A-Za-z0-9_])/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?![A-Za-z0-9_])/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From dae43e140d87ce44d61c775f46dedb08d809244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 19/32] fix: heaviside function in formulas

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 0552f33..f53812d 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 47f6a1b2977dd8eb19ebe2aad9b45b89bfe95c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 20/32] fix: repeated parameters added to an existing formula
 dispersion were ignored

---
 src/elli/dispersions/formula.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..bc5792d 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,13 +62,6 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
@@ -77,6 +70,15 @@ class FormulaParser(BaseDispersion):
         if unit is not None:
             self._set_unit_conversion(unit)
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The repeated parameters as a dict of arrays"""
+        if not self.rep_params:
+            return {}
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
-- 
2.43.0


From 5d938766c5be0ffc784c572e223117c9a00e4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 21/32] fix: FitDecorator.to_csv works for FitRho

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..dee5bf5 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -92,7 +92,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From ffe4a2ec00371ccdec3c2061f2d0e1e3c6e37ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:42 +0000
Subject: [PATCH 22/32] fix: a button fit is one step of the history and works
 with lmfit Parameters

---
 src/elli/fitting/decorator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index dee5bf5..6899e03 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -130,8 +130,10 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            # Commits the current parameters to the history by itself
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params.update(self.fitted_params.copy())
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From 4e6e07cefa7ef68a75a98853283f9bb2d10db09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 23/32] fix: unbounded parameters accept negative values in the
 fitting widgets

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From 19c4d455046afb1dd673829a7c94a6aadc65d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 24/32] fix: display options of fit_mueller_matrix are optional

---
 src/elli/fitting/decorator_mmatrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..1bc7fdd 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -348,9 +348,7 @@ class FitMuellerMatrix(FitDecorator):
 
         mm_kwargs = ("display_single", "sharex", "full_scale")
         for kwarg in mm_kwargs:
-            if kwarg in kwargs:
-                setattr(self, kwarg, kwargs[kwarg])
-                del kwargs[kwarg]
+            setattr(self, kwarg, kwargs.pop(kwarg, False))
         self.fit_kwargs = kwargs
 
         model_df = mmatrix_to_dataframe(
-- 
2.43.0


From f4872f13394e01597bcb438088b1c51009834956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:01 +0000
Subject: [PATCH 25/32] fix: redo without an undo does not add to the history

---
 src/elli/fitting/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 6899e03..3cc1ed4 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -44,7 +44,7 @@ class FitDecorator(ABC):
     def __init__(self) -> None:
         self.params = ParamsHist()
         self.fitted_params = ParamsHist()
-        self.last_params = ParamsHist()
+        self.last_params = None
         self.initial_params = ParamsHist()
         self.param_widgets = {}
         self.fit_kwargs = {}
-- 
2.43.0


From e081c2b98adb5e86dea96afd5da24f395917789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 26/32] fix: tables read from NeXus files hold their
 wavelengths, also when given by energies

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From 7542a1975c7618d1c4951f9f26d1a8d973370938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 27/32] fix: decimal separator also applies to the angles in
 the header of SpectraRay files

---
 src/elli/importer/spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..3cbad54 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -46,7 +46,7 @@ def read_spectraray_psi_delta(
     with open(fname) as f:
         header = f.readlines()[0]
 
-    aois = list(map(float, re.split(sep, header)[3::2]))
+    aois = [float(aoi.replace(decimal, ".")) for aoi in re.split(sep, header)[3::2]]
     index = pd.MultiIndex.from_product(
         [aois, ["Ψ", "Δ"]], names=["Angle of Incidence", ""]
     )
-- 
2.43.0


From 73ba1c39ab1391b3106d9e3c81dafdb85cabdee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 28/32] fix: find the data type of NeXus files with a custom
 sample group name

---
 src/elli/importer/nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 717de05..c4e1abc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,10 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+    if f"{group_names.full_sample_path}/data_type" in h5file:
+        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+            "utf-8"
+        )
     elif f"{group_names.entry}/data_collection/data_type" in h5file:
         data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
             "utf-8"
-- 
2.43.0


From 8d97d798d12d4a8bcbc8627f812544617f236927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:48 +0000
Subject: [PATCH 29/32] fix: keep matching catalogue entries that have empty
 fields in other searched columns

---
 src/elli/database/refractive_index_info.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..c466da2 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,14 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = np.logical_or(
+                            index, (self.catalog[col] == s).fillna(False)
+                        )
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = np.logical_or(
+                        index, (self.catalog[col] == q).fillna(False)
+                    )
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From 9601566a1dc5c3d437703e21d089d96db7a3e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 30/32] fix: integer wavelength arrays with negative integer
 exponents

---
 src/elli/dispersions/cauchy_custom.py | 3 +++
 src/elli/dispersions/polynomial.py    | 3 +++
 src/elli/formula_parser/parser.py     | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/cauchy_custom.py b/src/elli/dispersions/cauchy_custom.py
index 694e1c0..8bd54b8 100644
--- a/src/elli/dispersions/cauchy_custom.py
+++ b/src/elli/dispersions/cauchy_custom.py
@@ -1,6 +1,7 @@
 # Encoding: utf-8
 """Cauchy dispersion with custom exponents."""
 
+import numpy as np
 import numpy.typing as npt
 
 from .base_dispersion import IndexDispersion
@@ -26,6 +27,8 @@ class CauchyCustomExponent(IndexDispersion):
     rep_params_template = {"f": 0, "e": 1}
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        # numpy refuses negative powers of integer arrays
+        lbda = np.asarray(lbda, dtype=float)
         return self.single_params.get("n0") + sum(
             c.get("f") * lbda ** c.get("e") for c in self.rep_params
         )
diff --git a/src/elli/dispersions/polynomial.py b/src/elli/dispersions/polynomial.py
index 3442a70..4f94bd4 100644
--- a/src/elli/dispersions/polynomial.py
+++ b/src/elli/dispersions/polynomial.py
@@ -1,6 +1,7 @@
 # Encoding: utf-8
 """Polynomial dispersion."""
 
+import numpy as np
 import numpy.typing as npt
 
 from .base_dispersion import Dispersion
@@ -26,6 +27,8 @@ class Polynomial(Dispersion):
     rep_params_template = {"f": 0, "e": 0}
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        # numpy refuses negative powers of integer arrays
+        lbda = np.asarray(lbda, dtype=float)
         return self.single_params.get("e0") + sum(
             c.get("f") * lbda ** c.get("e") for c in self.rep_params
         )
diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index f53812d..a50418b 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -72,7 +72,8 @@ class FormulaTransformer(Transformer):
             raise TypeError("x_axis_values must be a numpy array.")
 
         self.x_axis_name = x_axis_name
-        self.x_axis_values = x_axis_values
+        # numpy refuses negative powers of integer arrays
+        self.x_axis_values = 1.0 * x_axis_values
 
         self._check_and_set(repeated_params)
         self._check_and_set_single(single_params)
-- 
2.43.0


From e1a184209f18b024c4b31a58499caab5bcf21b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:44 +0000
Subject: [PATCH 31/32] fix: dispersions accept lists of wavelengths, as
 documented

---
 src/elli/dispersions/base_dispersion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 20fa95c..cb0c02d 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -109,16 +109,21 @@ class BaseDispersion(ABC):
 
         return self
 
+    def _get_wavelengths(self, lbda: Optional[npt.ArrayLike] = None) -> npt.ArrayLike:
+        """Returns the wavelengths as a number or an array of floats."""
+        lbda = self.default_lbda_range if lbda is None else lbda
+        return lbda if np.ndim(lbda) == 0 else np.asarray(lbda, dtype=np.float64)
+
     def get_dielectric(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = self._get_wavelengths(lbda)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = self._get_wavelengths(lbda)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From 74664e5466520a91410301e5f59748d8fec5cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 32/32] fix: index profile of a structure along directions
 other than x

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0

