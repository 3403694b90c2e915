From 0a853d34f04ed36c3e2ed54201b283758ba69698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 01/17] fix: recompute omega_m when omega_c or omega_b is
 updated

omega_m was a functools.cached_property, so it kept the value of its first
read after update(omega_c=...) and the baryonic feedback profiles mixed old
and new densities.
---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..e9769db 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From 4ef75c8bd6cac257264951a59f29e73ddc88fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:51 +0000
Subject: [PATCH 02/17] fix: do not let the redshift loop overwrite the cached
 mass-definition parameters

The first entry of mdef_params was handed to DMHaloModel by reference and
every later x.update(mdef_params=...) merged into it, so the overdensity of
the last redshift replaced that of the first one: for the satellites of the
same evaluation and for everything after the next recalculation.
---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index e9769db..561d70a 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1110,7 +1110,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1119,7 +1119,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From c4c84c5906591b60fb218e23a6f74d659c1dda4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 03/17] fix: keep power_spectrum_mm and _power_spectrum_mm
 apart in response mode

hmf's cached_quantity stores both under the same mangled attribute, so in the
response formalism the matter power depended on which other spectra had been
read before, and the response ratio could silently become one.
---
 src/onepower/pk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..4bc241f 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1629,7 +1629,8 @@ class Spectra(HaloModelIngredients):
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
         )
 
-    @cached_quantity
+    # Not a cached_quantity: hmf would store it in the same slot as _power_spectrum_mm.
+    @property
     def power_spectrum_mm(
         self,
     ):
-- 
2.43.0


From f1ac9f6c9649374912922b36921605225bcca70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 04/17] fix: follow the parameters of the newly selected branch
 after a mode change

Quantities record which parameters they depend on when first evaluated. The
parameters that select a branch (HMCode ingredients, mass definition,
dewiggling, point mass, supplied power spectra or beta_nl, HOD model, alignment
dependence, transform method, A_s) were not declared as hmf switches, so after
read -> change of branch -> read an update of a parameter used only by the new
branch was ignored. hmf also loses the index when a switch and an ordinary
parameter change before the next read; repair that in update().
---
 src/onepower/add.py             |  2 +-
 src/onepower/bnl.py             |  4 ++--
 src/onepower/hmi.py             |  6 +++---
 src/onepower/ia.py              |  8 ++++----
 src/onepower/pk.py              | 14 +++++++-------
 src/onepower/utils/framework.py | 25 +++++++++++++++++++++++++
 6 files changed, 42 insertions(+), 17 deletions(-)
 create mode 100644 src/onepower/utils/framework.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..a9b0338 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -3,7 +3,7 @@ from functools import cached_property
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import parameter
-from hmf._internals._framework import Framework
+from .utils.framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
 
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..8d38a2e 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -10,7 +10,7 @@ from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+from .utils.framework import Framework
 
 try:
     from dark_emulator import darkemu
@@ -119,7 +119,7 @@ if HAVE_DARKEMU:
             """
             return val
 
-        @parameter('param')
+        @parameter('switch')
         def A_s(self, val):
             """
             Amplitude of the primordial power spectrum.
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 561d70a..0c01f2e 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,7 +16,7 @@ from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+from .utils.framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
@@ -622,7 +622,7 @@ class HaloModelIngredients(CosmologyBase):
         self.overdensity = overdensity
         self.delta_c = delta_c
 
-    @parameter('param')
+    @parameter('switch')
     def hmcode_ingredients(self, val):
         """
         Correction model from Mead et al.
@@ -698,7 +698,7 @@ class HaloModelIngredients(CosmologyBase):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def mdef_model(self, val):
         """
         Mass definition model (for hmf).
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..d7fbfc3 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -13,7 +13,7 @@ from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+from .utils.framework import Framework
 
 
 class AlignmentAmplitudes(Framework):
@@ -100,7 +100,7 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def central_ia_depends_on(self, val):
         """
         Validate the central intrinsic alignment dependencies.
@@ -116,7 +116,7 @@ class AlignmentAmplitudes(Framework):
             )
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def satellite_ia_depends_on(self, val):
         """
         Validate the satellite intrinsic alignment dependencies.
@@ -597,7 +597,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def method(self, val):
         """
         Which method to perform Fourier/Hankel transform to use
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4bc241f..c69f08f 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -238,7 +238,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def beta_nl(self, val):
         r"""
         Non-linear bias parameter :math:`\beta_{\rm nl}`.
@@ -247,7 +247,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def dewiggle(self, val):
         """
         Whether to dewiggle the power spectrum.
@@ -256,7 +256,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def matter_power_lin(self, val):
         """
         Linear matter power spectrum.
@@ -265,7 +265,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def matter_power_nl(self, val):
         """
         Non-linear matter power spectrum
@@ -310,7 +310,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def pointmass(self, val):
         """
         Whether to use point mass approximation.
@@ -319,7 +319,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def compute_observable(self, val):
         """
         Whether to compute observable.
@@ -400,7 +400,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('model')
+    @parameter('switch')
     def hod_model(self, val):
         r"""
         An HOD model to use
diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
new file mode 100644
index 0000000..05fe943
--- /dev/null
+++ b/src/onepower/utils/framework.py
@@ -0,0 +1,25 @@
+"""The hmf framework with a dependency index that survives changes of model branch."""
+
+from hmf._internals._cache import hidden_loc
+from hmf._internals._framework import Framework as HMFFramework
+
+
+class Framework(HMFFramework):
+    """
+    Base class of all onepower models.
+
+    Changing an hmf 'switch' removes the dependent quantities from the cache, so that their
+    dependencies are indexed again when they are next needed. A further parameter changed before
+    that flags those quantities for recalculation, which puts them back in the cache without
+    an index: they would then never follow the parameters of the newly selected branch.
+    """
+
+    def update(self, **kwargs):
+        """Update parameters of the framework with kwargs."""
+        try:
+            super().update(**kwargs)
+        finally:
+            recalc = getattr(self, hidden_loc(self, 'recalc'))
+            indexed = getattr(self, hidden_loc(self, 'recalc_prop_par'))
+            for name in [name for name in recalc if name not in indexed]:
+                del recalc[name]
-- 
2.43.0


From 64f03770238f550c9366869332f4ffeafa22838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 05/17] fix: recompute the UpsampledSpectra fractions and
 models after an update

They were functools.cached_property and kept their first value whatever was
updated afterwards.
---
 src/onepower/add.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index a9b0338..fb57c34 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,7 @@
 import numpy as np
-from functools import cached_property
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 from .utils.framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
@@ -54,7 +53,7 @@ class UpsampledSpectra(Framework):
         self._model_2_params = model_2_params
         self.extrapolate_option = extrapolate_option
 
-    @parameter('param')
+    @parameter('switch')
     def model(self, val):
         """
         Instance of Spectra(), pre-initialised for saving computing resources.
@@ -72,7 +71,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def _model_2_params(self, val):
         """
         Parameters for the second halo model.
@@ -90,7 +89,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def fraction(self, val):
         """
         Red/blue fraction of galaxies in sample as a function of redshift.
@@ -126,7 +125,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +150,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +164,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +178,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From 65abe3738d4cb6135c29fd349cc5d63a3968913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:40 +0000
Subject: [PATCH 06/17] fix: make beta_two a parameter so that updating it has
 an effect

---
 src/onepower/ia.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index d7fbfc3..4a8a016 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -168,6 +168,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('param')
+    def beta_two(self, val):
+        """
+        Second slope of the central galaxies' double power law (luminosity only).
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
-- 
2.43.0


From 41e87fd0192e3512d37992018d004a2f82e2c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:12 +0000
Subject: [PATCH 07/17] fix: do not modify the caller's option dictionaries

Dictionaries were kept by reference: hmf's merging update() and the alignment
setup wrote into the caller's object, and two models given the same dictionary
silently changed each other's parameters.
---
 src/onepower/add.py |  4 ++--
 src/onepower/hmi.py |  4 ++--
 src/onepower/pk.py  | 17 +++++++++--------
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index fb57c34..ac3efd1 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -69,7 +69,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('switch')
     def _model_2_params(self, val):
@@ -78,7 +78,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def fraction_z(self, val):
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 0c01f2e..e4d6c24 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -777,7 +777,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def growth_model(self, val):
@@ -795,7 +795,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def norm_cen(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index c69f08f..935144c 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -308,7 +308,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('switch')
     def pointmass(self, val):
@@ -335,7 +335,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def hod_params(self, val):
@@ -344,7 +344,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def hod_settings(self, val):
@@ -353,7 +353,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def obs_settings(self, val):
@@ -362,7 +362,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('param')
     def t_eff(self, val):
@@ -398,7 +398,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return val if val is None else dict(val)
 
     @parameter('switch')
     def hod_model(self, val):
@@ -2083,7 +2083,8 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
+        align_params = dict(self.align_params)
+        align_params.update(
             {
                 'z_vec': self.z_vec,
                 'mass_in': self.mass,
@@ -2093,7 +2094,7 @@ class Spectra(HaloModelIngredients):
                 'method': 'fftlog',
             }
         )
-        return SatelliteAlignment(**self.align_params)
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From 8657b0232e9706699876de8e2e16cde2c2b5629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 08/17] fix: downsample all halo properties at the same masses

Whether the last mass is appended was decided on the values of each array, so
a flat concentration or radius ended up one element shorter than the masses.
---
 src/onepower/ia.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 4a8a016..7ad9c5c 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -674,14 +674,16 @@ class SatelliteAlignment(AlignmentAmplitudes):
             )
 
         downsample_factor = self.mass_in.size // self.nmass
+        # Decided on the position, so that all quantities keep the same masses.
+        last_missing = (self.mass_in.size - 1) % downsample_factor != 0
 
         if isinstance(quantity, np.ndarray) and quantity.ndim == 1:
             downsampled_quantity = quantity[::downsample_factor]
-            if downsampled_quantity[-1] != quantity[-1]:
+            if last_missing:
                 downsampled_quantity = np.append(downsampled_quantity, quantity[-1])
         else:
             downsampled_quantity = quantity[:, ::downsample_factor]
-            if np.all(downsampled_quantity[:, -1] != quantity[:, -1]):
+            if last_missing:
                 downsampled_quantity = np.concatenate(
                     (downsampled_quantity, np.atleast_2d(quantity[:, -1]).T), axis=1
                 )
-- 
2.43.0


From 45b1faf75728fd53567bd62dede58058bb986d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 09/17] fix: apply the central and satellite alignment options
 to the right population

central_IA_depends_on decided the satellite mass dependence and vice versa, and
neither reached the alignment model, so choosing 'constant' failed.
---
 cosmosis_modules/onepower_interface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 40cc26f..cd359ac 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -906,7 +906,7 @@ def execute(block, config):
 
     if alignment:
         align_params = {}
-        if central_IA == 'halo_mass':
+        if satellite_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_sat': block[
@@ -924,7 +924,7 @@ def execute(block, config):
                     'mpivot_sat': None,
                 }
             )
-        if satellite_IA == 'halo_mass':
+        if central_IA == 'halo_mass':
             align_params.update(
                 {
                     'beta_cen': block[
@@ -944,6 +944,8 @@ def execute(block, config):
             )
         align_params.update(
             {
+                'central_ia_depends_on': central_IA,
+                'satellite_ia_depends_on': satellite_IA,
                 'nmass': 5,
                 'n_hankel': 350,
                 'nk': 10,
@@ -974,7 +976,7 @@ def execute(block, config):
         )
         if split_ia:
             align_params_2 = align_params.copy()
-            if central_IA == 'halo_mass':
+            if satellite_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_sat': block[
@@ -992,7 +994,7 @@ def execute(block, config):
                         'mpivot_sat': None,
                     }
                 )
-            if satellite_IA == 'halo_mass':
+            if central_IA == 'halo_mass':
                 align_params_2.update(
                     {
                         'beta_cen': block[
-- 
2.43.0


From 4280a18a249e6ad807f3a76098d351f4a5b318a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:15 +0000
Subject: [PATCH 10/17] fix: let the interface set up galaxy samples from an
 observables file

nbins was taken from obs_min, which does not exist when observables_file is used.
---
 cosmosis_modules/onepower_interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index cd359ac..5a32717 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,7 +316,11 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = len(hod_settings['obs_min'])
+        nbins = (
+            len(hod_settings['obs_min'])
+            if hod_settings['observables_file'] is None
+            else 1
+        )
     else:
         hod_settings = {}
         hod_settings_mm = {}
-- 
2.43.0


From f91082e58f40f87351dd8e3685765375bf5a217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:24 +0000
Subject: [PATCH 11/17] fix: share occupation parameters given once between all
 samples

---
 src/onepower/hod.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..15d9f48 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -338,6 +338,8 @@ class HaloOccupationDistribution(Component):
         array_like
             Interpolated data.
         """
+        # Occupations whose parameters are the same for all bins have only one entry along the first axis.
+        data = np.broadcast_to(data, (self.z.shape[0], *data.shape[1:]))
         n_int = [
             interp1d(
                 self.z[i], data[i], fill_value=fill_value, bounds_error=False, axis=axis
-- 
2.43.0


From 1d2f015a69339e28ccfe089802d7a1a854cd0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:13 +0000
Subject: [PATCH 12/17] fix: let an update replace a parameter dictionary that
 is None

---
 src/onepower/utils/framework.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
index 05fe943..2ebd8f4 100644
--- a/src/onepower/utils/framework.py
+++ b/src/onepower/utils/framework.py
@@ -16,7 +16,14 @@ class Framework(HMFFramework):
 
     def update(self, **kwargs):
         """Update parameters of the framework with kwargs."""
+        # hmf merges dictionaries into the current value, which fails if that is None.
+        unset = [
+            name for name, val in kwargs.items()
+            if isinstance(val, dict) and getattr(self, name, val) is None
+        ]
         try:
+            if unset:
+                super().update(**{name: {} for name in unset})
             super().update(**kwargs)
         finally:
             recalc = getattr(self, hidden_loc(self, 'recalc'))
-- 
2.43.0


From 20d75e46c9e29020be75a47f59e8a1a5abdf4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:39 +0000
Subject: [PATCH 13/17] fix: let the parameters of a combined model be updated
 more than once

---
 src/onepower/add.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index ac3efd1..50e436d 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,12 +1,25 @@
 import numpy as np
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import cached_quantity, parameter
+from hmf._internals._cache import cached_quantity, obj_eq, parameter
 from .utils.framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
 
 
+class _ModelParams(dict):
+    """Model parameters, comparable also when they contain dictionaries of arrays."""
+
+    def __eq__(self, other):
+        return (
+            isinstance(other, dict)
+            and self.keys() == other.keys()
+            and all(obj_eq(val, other[key]) for key, val in self.items())
+        )
+
+    __hash__ = None
+
+
 class UpsampledSpectra(Framework):
     """
     This class generates one or two :class:`~halomodel.pk.Spectra`,
@@ -69,7 +82,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val if val is None else dict(val)
+        return val if val is None else _ModelParams(val)
 
     @parameter('switch')
     def _model_2_params(self, val):
@@ -78,7 +91,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val if val is None else dict(val)
+        return val if val is None else _ModelParams(val)
 
     @parameter('param')
     def fraction_z(self, val):
-- 
2.43.0


From 0ea37a57261e4ab43c6bdd0bacd4acdd0e4dc12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 14/17] fix: use the alignment sample's occupation parameters
 when no galaxy sample is requested

---
 cosmosis_modules/onepower_interface.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index 5a32717..dc52ae6 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -316,15 +316,9 @@ def setup_hod(options, galaxy, alignment, split_ia):
     if galaxy:
         hod_settings = setup_hod_settings(options, 'hod')
         hod_settings_mm = setup_hod_settings_mm(hod_settings)
-        nbins = (
-            len(hod_settings['obs_min'])
-            if hod_settings['observables_file'] is None
-            else 1
-        )
     else:
         hod_settings = {}
         hod_settings_mm = {}
-        nbins = 0
 
     if alignment:
         if split_ia:
@@ -336,6 +330,14 @@ def setup_hod(options, galaxy, alignment, split_ia):
     else:
         hod_settings_ia_1 = {}
         hod_settings_ia_2 = {}
+    # Without a galaxy sample, the HOD parameters are those of the IA sample.
+    sample_settings = hod_settings if galaxy else hod_settings_ia_1
+    if not sample_settings:
+        nbins = 0
+    elif sample_settings['observables_file'] is None:
+        nbins = len(sample_settings['obs_min'])
+    else:
+        nbins = 1
     if options.get_bool(option_section, 'save_observable', default=False):
         obs_settings = setup_hod_settings(options, 'smf')
         obs_settings['save_observable'] = options.get_bool(
@@ -1050,8 +1052,9 @@ def execute(block, config):
 
     save_matter_results(block, power, z_vec, k_vec)
 
-    if hod:
+    if galaxy:
         hod_bins = save_hod_results(block, power, z_vec, hod_section_name, hod_settings)
+    if hod:
         if power.obs_func is not None and obs_settings['save_observable']:
             save_obs_results(
                 block, power, obs_settings['observable_section_name'], obs_settings
-- 
2.43.0


From 135fc5221f63ed74c18059987e1d4b77d8861538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:30 +0000
Subject: [PATCH 15/17] fix: save observables whose sample is given by a file

---
 cosmosis_modules/onepower_interface.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/cosmosis_modules/onepower_interface.py b/cosmosis_modules/onepower_interface.py
index dc52ae6..f57b4bf 100644
--- a/cosmosis_modules/onepower_interface.py
+++ b/cosmosis_modules/onepower_interface.py
@@ -519,18 +519,7 @@ def save_obs_results(block, power, observable_section_name, obs_settings):
     block.put(observable_section_name, 'obs_func_definition', 'obs_func * obs * ln(10)')
     for nb in range(obs_bins):
         suffix_obs = f'_{nb + 1}'
-        if np.all(
-            np.array(
-                [
-                    obs_settings['obs_min'].size,
-                    obs_settings['obs_max'].size,
-                    obs_settings['zmin'].size,
-                    obs_settings['zmax'].size,
-                    obs_settings['nz'],
-                ]
-            )
-            == 1
-        ):
+        if obs_range.shape[:2] == (1, 1):
             block.put_double_array_1d(
                 observable_section_name, f'obs_val{suffix_obs}', np.squeeze(obs_range)
             )
-- 
2.43.0


From 3669ea5201a9f5a1e037195fd5da511abf335188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:43 +0000
Subject: [PATCH 16/17] fix: read observables files with a single redshift

---
 src/onepower/hod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index 15d9f48..b539c64 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -39,7 +39,7 @@ def load_data(file_name):
         Redshift data, minimum observable data, and maximum observable data.
     """
     z_data, obs_min, obs_max = np.loadtxt(
-        file_name, usecols=(0, 1, 2), unpack=True, dtype=float
+        file_name, usecols=(0, 1, 2), unpack=True, dtype=float, ndmin=2
     )
     return z_data, obs_min, obs_max
 
-- 
2.43.0


From 83e6c45c3cf36a5ca4bb20d51030696038502a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:46 +0000
Subject: [PATCH 17/17] fix: label projected correlations with the separations
 of the transform

The centre of the logarithmic grid is at (n + 1) / 2 counting from one, so the
separations were labelled one grid step too small.
---
 cosmosis_modules/pk_to_real/pk_to_real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmosis_modules/pk_to_real/pk_to_real.py b/cosmosis_modules/pk_to_real/pk_to_real.py
index 5f3f228..86862d3 100644
--- a/cosmosis_modules/pk_to_real/pk_to_real.py
+++ b/cosmosis_modules/pk_to_real/pk_to_real.py
@@ -117,7 +117,7 @@ class Transformer:
         log_kmid = 0.5 * (log_kmin + log_kmax)
         k_mid = np.exp(log_kmid)
         r_mid = self.kr / k_mid
-        x = np.arange(n)
+        x = np.arange(1, n + 1)
 
         # And the effective separations of the output
         self.rp = np.exp((x - nc) * dlogr) * r_mid
-- 
2.43.0

