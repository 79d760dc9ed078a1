From 4c39d2cc2f73086a696574791bd90da778dc2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 01/50] fix: resolve the flat matrix element in Rambo's
 two-body integral

The module-level helper had two leading underscores, so inside the class its
name was mangled to one that does not exist.
---
 hazma/phase_space/_rambo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..4e003b9 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -32,7 +32,7 @@ MassList = Union[List[float], RealArray]
 SquaredMatrixElement = Callable[[RealArray], float]
 
 
-def __flat_squared_matrix_element(_: RealArray) -> float:
+def _flat_squared_matrix_element(_: RealArray) -> float:
     return 1.0
 
 
@@ -406,7 +406,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         e2 = np.hypot(m2, p)
         ps = np.zeros((4, 2), dtype=np.float64)
 
-        msqrd = __flat_squared_matrix_element if self.msqrd is None else self.msqrd
+        msqrd = _flat_squared_matrix_element if self.msqrd is None else self.msqrd
 
         def integrand(z):
             sin = np.sqrt(1 - z**2)
-- 
2.43.0


From 88da6c23eb01f08ecb939689b5bff0954910bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 02/50] fix: make the eta positron module importable

It imported two helpers that hazma.spectra._positron._utils does not define;
call the helper that exists.
---
 hazma/spectra/_positron/_eta.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/hazma/spectra/_positron/_eta.py b/hazma/spectra/_positron/_eta.py
index b79ecdc..966b23e 100644
--- a/hazma/spectra/_positron/_eta.py
+++ b/hazma/spectra/_positron/_eta.py
@@ -5,7 +5,7 @@ import numpy.typing as npt
 
 from hazma import parameters
 
-from ._utils import load_interp, dnde_positron_point, dnde_positron_array
+from ._utils import dnde_positron, load_interp
 
 RealArray = npt.NDArray[np.float64]
 
@@ -23,18 +23,9 @@ def dnde_positron_eta(positron_energy: RealArray, eta_energy: float) -> RealArra
 def dnde_positron_eta(
     positron_energy: Union[RealArray, float], eta_energy: float
 ) -> Union[RealArray, float]:
-    mass = parameters.eta_mass
-    interp = _eta_interp
-
-    if eta_energy < mass:
-        return np.zeros_like(positron_energy)
-
-    if isinstance(positron_energy, float):
-        return dnde_positron_point(positron_energy, eta_energy, mass, interp)
-
-    assert hasattr(positron_energy, "__len__"), (
-        "Invalid type for positron_energy."
-        + f"Expected float or numpy array, got: {type(positron_energy)}"
+    return dnde_positron(
+        positron_energy=positron_energy,
+        parent_energy=eta_energy,
+        parent_mass=parameters.eta_mass,
+        interp=_eta_interp,
     )
-
-    return dnde_positron_array(positron_energy, eta_energy, mass, interp)
-- 
2.43.0


From f2b5d2ae910e71c177cc44e897989e24aa73d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 03/50] fix: let RAMBO use three-body matrix elements given in
 terms of s and t

With three_body_integrator='rambo' a matrix element declared with
msqrd_signature='st' was called with the momenta, a TypeError.
---
 hazma/spectra/_nbody.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..8cb2a96 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -9,7 +9,7 @@ from collections import defaultdict
 import numpy as np
 import numpy.typing as npt
 
-from hazma.utils import RealArray, RealOrRealArray
+from hazma.utils import RealArray, RealOrRealArray, lnorm_sqr
 from hazma.phase_space import Rambo, ThreeBody, PhaseSpaceDistribution1D
 from hazma.parameters import standard_model_masses as sm_masses
 from . import _photon
@@ -33,6 +33,25 @@ def _check_integrator(integrator: str):
     )
 
 
+def _momenta_msqrd(
+    msqrd: Optional[MSqrd],
+    final_states: Sequence[str],
+    msqrd_signature: Optional[str],
+) -> Optional[MSqrd]:
+    r"""Express a three-body matrix element of `s=(p2+p3)^2` and `t=(p1+p3)^2`
+    as a function of the momenta, which is what `Rambo` requires.
+    """
+    if msqrd is None or len(final_states) != 3 or msqrd_signature != "st":
+        return msqrd
+
+    def momenta_msqrd(momenta):
+        s = lnorm_sqr(momenta[:, 1] + momenta[:, 2])
+        t = lnorm_sqr(momenta[:, 0] + momenta[:, 2])
+        return msqrd(s, t)
+
+    return momenta_msqrd
+
+
 def _dnde_zero(product_energies, _):
     return np.zeros_like(product_energies)
 
@@ -205,6 +224,7 @@ def _make_energy_distributions(
             cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
         ).energy_distributions(nbins=nbins)
 
+    msqrd = _momenta_msqrd(msqrd, final_states, msqrd_signature)
     return Rambo(cme, masses, msqrd=msqrd).energy_distributions(n=npts, nbins=nbins)
 
 
@@ -249,6 +269,7 @@ def _make_invariant_mass_distributions(
             cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
         ).invariant_mass_distributions(nbins=nbins)
 
+    msqrd = _momenta_msqrd(msqrd, final_states, msqrd_signature)
     return Rambo(cme, masses, msqrd=msqrd).invariant_mass_distributions(
         n=npts, nbins=nbins
     )
-- 
2.43.0


From b6a2baf484de4fac1f9027ae6e2c827c36a99931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 04/50] fix: reject unknown fermions in the vector-mediator FSR
 spectrum

The fermion mass was left unbound for names other than 'e' and 'mu'.
---
 hazma/vector_mediator/_vector_mediator_fsr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/vector_mediator/_vector_mediator_fsr.py b/hazma/vector_mediator/_vector_mediator_fsr.py
index 818003a..f7c46d2 100644
--- a/hazma/vector_mediator/_vector_mediator_fsr.py
+++ b/hazma/vector_mediator/_vector_mediator_fsr.py
@@ -33,6 +33,8 @@ class VectorMediatorFSR:
             mf = me
         elif f == "mu":
             mf = mmu
+        else:
+            raise ValueError(f"Invalid final state fermion: {f}")
 
         mu_l = mf / Q
         x = 2 * egam / Q
-- 
2.43.0


From 1910b3a51cb0e113b6c6e135532032f1f278ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 05/50] fix: do not rescale the caller's flux array in
 FluxMeasurement

The in-place division changed the array that the caller passed in, so
building two measurements from the same data gave different fluxes.
---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From 68dfed2104c0296cdaf61ccb9be5ae4e0d19d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 06/50] fix: give every decay channel its own positron spectrum
 function

The wrappers were built in a loop and all closed over the loop variables, so
each channel was evaluated with the spectrum of the last one.
---
 hazma/theory/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..6e8d451 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -599,19 +599,20 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
 
     def positron_spectrum_funcs(self):
         widths = self.decay_widths()
-        dndes_wrapped = {}
-
-        for fs, dnde in self._positron_spectrum_funcs().items():
 
+        def make_dnde_wrapped(fs, dnde):
             def dnde_wrapped(e_ps):
                 if widths[fs] > 0:
                     return dnde(e_ps)
                 else:
                     return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+            return dnde_wrapped
 
-        return dndes_wrapped
+        return {
+            fs: make_dnde_wrapped(fs, dnde)
+            for fs, dnde in self._positron_spectrum_funcs().items()
+        }
 
     def positron_spectra(self, e_ps):
         bfs = self.decay_branching_fractions()
-- 
2.43.0


From e628acbd1bbb13530de01f8f0bf544abeadc1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 07/50] fix: restore the caller's warning filters after a
 deprecation warning

---
 hazma/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/utils.py b/hazma/utils.py
index 51fa7da..2ad7d9a 100644
--- a/hazma/utils.py
+++ b/hazma/utils.py
@@ -15,9 +15,9 @@ from .parameters import alpha_em
 
 
 def _force_deprecation_warning(message):
-    warnings.simplefilter("always", DeprecationWarning)  # turn off filter
-    warnings.warn(message, category=DeprecationWarning, stacklevel=2)
-    warnings.simplefilter("default", DeprecationWarning)  # reset filter
+    with warnings.catch_warnings():
+        warnings.simplefilter("always", DeprecationWarning)  # turn off filter
+        warnings.warn(message, category=DeprecationWarning, stacklevel=2)
 
 
 def warn_deprecated_module(module: str, alternative: Optional[str] = None):
-- 
2.43.0


From 29c29de0fdfa64dd52813a26e7ef5e7fe601a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 08/50] fix: do not share one list of constraints between
 composite constrainers

The mutable default (and the caller's own list) was appended to.
---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..0f1cd17 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=None):
+        self._constrainers = [] if constrainers is None else list(constrainers)
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From 28b9bafdc95994d07167dd6fe620f6bfc3d86f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 09/50] fix: leave the theory's parameters as they were after a
 constraint scan

---
 hazma/theory/_theory_constrain.py | 70 ++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..556dba9 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -36,15 +36,19 @@ class TheoryConstrain:
         # so we can use Cartesian rather than matrix indexing.
         imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
 
-        # Loop over the parameter grid
-        for i in range(n_rows):
-            for j in range(n_cols):
-                # Set this theory's parameters to the values at this point
-                self.__dict__.update(param_grid[i, j].__dict__)
-
-                # Compute all constraints at this point in parameter space
-                for cn, fn in constraints.items():
-                    imgs[cn][i, j] = fn()
+        # Loop over the parameter grid, leaving this theory as it was
+        state = self.__dict__.copy()
+        try:
+            for i in range(n_rows):
+                for j in range(n_cols):
+                    # Set this theory's parameters to the values at this point
+                    self.__dict__.update(param_grid[i, j].__dict__)
+
+                    # Compute all constraints at this point in parameter space
+                    for cn, fn in constraints.items():
+                        imgs[cn][i, j] = fn()
+        finally:
+            self.__dict__.update(state)
 
         if ls_or_img == "image":
             return imgs
@@ -95,15 +99,20 @@ class TheoryConstrain:
         # so we can use Cartesian rather than matrix indexing.
         imgs = {cn: np.zeros([n_p2s, n_p1s]) for cn in constraints.keys()}
 
-        # Loop over the parameter values
-        for idx_p1, p1_val in np.ndenumerate(p1_vals):
-            for idx_p2, p2_val in np.ndenumerate(p2_vals):
-                setattr(self, p1, p1_val)
-                setattr(self, p2, p2_val)
-
-                # Compute all constraints at this point in parameter space
-                for cn, fn in constraints.items():
-                    imgs[cn][idx_p2[0], idx_p1[0]] = fn()
+        # Loop over the parameter values, leaving this theory as it was
+        p1_old, p2_old = getattr(self, p1), getattr(self, p2)
+        try:
+            for idx_p1, p1_val in np.ndenumerate(p1_vals):
+                for idx_p2, p2_val in np.ndenumerate(p2_vals):
+                    setattr(self, p1, p1_val)
+                    setattr(self, p2, p2_val)
+
+                    # Compute all constraints at this point in parameter space
+                    for cn, fn in constraints.items():
+                        imgs[cn][idx_p2[0], idx_p1[0]] = fn()
+        finally:
+            setattr(self, p1, p1_old)
+            setattr(self, p2, p2_old)
 
         if ls_or_img == "image":
             return imgs
@@ -186,16 +195,21 @@ class TheoryConstrain:
 
         ls_or_img  # making linter shut up
 
-        # Loop over the parameter values
-        for idx_p1, p1_val in np.ndenumerate(p1_vals):
-            for idx_p2, p2_val in np.ndenumerate(p2_vals):
-                setattr(self, p1, p1_val)
-                setattr(self, p2, p2_val)
-
-                # Compute all constraints at this point in parameter space
-                img[idx_p2[0], idx_p1[0]] = self._constrain_binned_gamma_helper(
-                    measurement, n_sigma, method
-                )
+        # Loop over the parameter values, leaving this theory as it was
+        p1_old, p2_old = getattr(self, p1), getattr(self, p2)
+        try:
+            for idx_p1, p1_val in np.ndenumerate(p1_vals):
+                for idx_p2, p2_val in np.ndenumerate(p2_vals):
+                    setattr(self, p1, p1_val)
+                    setattr(self, p2, p2_val)
+
+                    # Compute all constraints at this point in parameter space
+                    img[idx_p2[0], idx_p1[0]] = self._constrain_binned_gamma_helper(
+                        measurement, n_sigma, method
+                    )
+        finally:
+            setattr(self, p1, p1_old)
+            setattr(self, p2, p2_old)
 
         return img
 
-- 
2.43.0


From 90bf3e422f731450ae887b77c532d6068d6c2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 10/50] fix: set the generation and neutrino name for the
 flavor assigned to RHNeutrino

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..6239098 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 93fef38e30bcdd754bb1e5e810c4020be0ccf0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 11/50] fix: update the particles of SingleChannelDec when its
 final state is assigned

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..a72c332 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -156,6 +156,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From a2bfdf5b4cf15ed153f07939514eab93f7530403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 12/50] fix: recompute Rambo's starting scale when its energy
 or masses are assigned

---
 hazma/phase_space/_rambo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 4e003b9..2075522 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_xi0()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_xi0()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_xi0()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,12 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_xi0(self) -> float:
+        """
+        Compute the starting scale of the massless momenta.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From dee5e313dab5ba60950371389097cf8d953a05e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 13/50] fix: keep the squared matrix element assigned to
 ThreeBody

---
 hazma/phase_space/_three_body.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..5a81acf 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,8 +176,11 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
-        self.__msqrd = fn
-        self.__update_msqrd()
+        if self.__original_msqrd is not None:
+            self.__original_msqrd = fn
+            self.__update_msqrd()
+        else:
+            self.__msqrd = fn
 
     def __trapz(self, fn, a: float, b: float, npts: int):
         xs = np.linspace(a, b, npts)
-- 
2.43.0


From da10ec42fbecaf60964a35d273aacbb0a16644e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:33 +0000
Subject: [PATCH 14/50] fix: drop cached widths and form-factor couplings when
 parameters of the GeV vector models are assigned

---
 hazma/vector_mediator/_gev/model.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 93c5c26..75ab779 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -226,7 +226,7 @@ class VectorMediatorGeV(TheoryAnn):
     @mx.setter
     def mx(self, val: float) -> None:
         self._mx = val
-        self._width_cache["x x"]["value"] = self.width_v_to_x_x()
+        self._width_cache["x x"]["valid"] = False
 
     @mv.setter
     def mv(self, val: float) -> None:
@@ -285,7 +285,7 @@ class VectorMediatorGeV(TheoryAnn):
     @gvxx.setter
     def gvxx(self, val: float) -> None:
         self._gvxx = val
-        self._update_width_cache("x x", self.width_v_to_x_x())
+        self._width_cache["x x"]["valid"] = False
 
     @gvuu.setter
     def gvuu(self, val: float) -> None:
@@ -308,27 +308,27 @@ class VectorMediatorGeV(TheoryAnn):
     @gvee.setter
     def gvee(self, val: float) -> None:
         self._gvee = val
-        self._update_width_cache("e e", self.width_v_to_e_e())
+        self._width_cache["e e"]["valid"] = False
 
     @gvmumu.setter
     def gvmumu(self, val: float) -> None:
         self._gvmumu = val
-        self._update_width_cache("mu mu", self.width_v_to_mu_mu())
+        self._width_cache["mu mu"]["valid"] = False
 
     @gvveve.setter
     def gvveve(self, val: float) -> None:
         self._gvveve = val
-        self._update_width_cache("ve ve", self.width_v_to_ve_ve())
+        self._width_cache["ve ve"]["valid"] = False
 
     @gvvmvm.setter
     def gvvmvm(self, val: float) -> None:
         self._gvvmvm = val
-        self._update_width_cache("vm vm", self.width_v_to_vm_vm())
+        self._width_cache["vm vm"]["valid"] = False
 
     @gvvtvt.setter
     def gvvtvt(self, val: float) -> None:
         self._gvvtvt = val
-        self._update_width_cache("vt vt", self.width_v_to_vt_vt())
+        self._width_cache["vt vt"]["valid"] = False
 
     # ========================================================================
     # ---- Form Factors ------------------------------------------------------
@@ -1141,11 +1141,13 @@ class KineticMixingGeV(VectorMediatorGeV):
     @eps.setter
     def eps(self, eps: float):
         self._eps = eps
-        self.gvuu = -Qu * eps * qe
-        self.gvdd = -Qd * eps * qe
-        self.gvss = -Qd * eps * qe
-        self.gvee = -Qe * eps * qe
-        self.gvmumu = -Qe * eps * qe
+        self._gvuu = -Qu * eps * qe
+        self._gvdd = -Qd * eps * qe
+        self._gvss = -Qd * eps * qe
+        self._gvee = -Qe * eps * qe
+        self._gvmumu = -Qe * eps * qe
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     def __cannot_set_error(self, param: str) -> AttributeError:
         return AttributeError(f"""
@@ -1261,6 +1263,8 @@ class BLGeV(VectorMediatorGeV):
     def g(self, g: float) -> None:
         self._g = g
         self._update_charges()
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     # Hide underlying properties' setters
     @VectorMediatorGeV.gvuu.setter
-- 
2.43.0


From 1ba54fe6eb4cdc92b39efc900d8d140d617833c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 15/50] fix: use the neutral rho positron and neutrino spectra
 for "rho0" final states

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 8cb2a96..e35a372 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -115,7 +115,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -134,7 +134,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From 842b2e90cea9b763e133cfa3a75dc9dc0179ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 16/50] fix: add a neutrino of an n-body final state to its own
 flavor only

---
 hazma/spectra/_nbody.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index e35a372..8830b6a 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -519,15 +519,20 @@ def _dnde_multi_particle(
         # if product is in final state, add it to spectrum
         cond = state == product
         cond = cond or (state == "e" and product == "positron")
-        cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
-        if cond:
-            dnde += np.interp(
+        is_neutrino = state in ["ve", "vm", "vt"] and product == "neutrino"
+        if cond or is_neutrino:
+            primary = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if is_neutrino:
+                # `dnde` has shape (3, n): only the state's own flavor gets it
+                dnde[["ve", "vm", "vt"].index(state)] += primary
+            else:
+                dnde += primary
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From 66f517c7ae98980f5b128d7c389e8edb4acd7a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 17/50] fix: pass the model to CMBLimit.f_eff and square the
 velocity once

---
 hazma/limits/_cmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..e0d59f4 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)  # type: ignore
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
-- 
2.43.0


From 1988462ef9ddbe14d672e12e98d06ebdf483b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 18/50] fix: report the exponential index under its own name in
 the background parameters

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..2748689 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From 71e1487dcdac6123737cf9d4ea89405a8f806dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 19/50] fix: sign of the GECCO background derivative with
 respect to its power-law index

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 2748689..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From 69cc7dafe1012f9f0abe56d5f58d9bc88d4bccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 20/50] fix: sign of the equilibrium number density derivative
 for bosons

---
 hazma/relic_density/_thermal_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..06059be 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -240,7 +240,9 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = (
+            -(xs**2) * np.sum(eta ** (ns + 1) * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        )
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From 8aa475f974443b7a35de4f2b3bc11693cf0dd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 21/50] fix: identical-particle factor in the GeV vector
 mediator's cross section into two mediators

---
 hazma/vector_mediator/_gev/cross_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 773f744..ed7fee2 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -178,7 +178,8 @@ def sigma_xx_to_v_v(self, cme):
     sqrtx = np.sqrt(1.0 - 4 * mux2)
     sqrtv = np.sqrt(1.0 - 4 * muv2)
     sqrtxv = sqrtx * sqrtv
-    pre = self.gvxx**4 * sqrtv / (4.0 * np.pi * sqrtx * qq**2)
+    # Includes the factor of 1/2 for identical final-state particles.
+    pre = self.gvxx**4 * sqrtv / (8.0 * np.pi * sqrtx * qq**2)
 
     sigma[mask] = pre * (
         -((2 * muv4 + mux2 + 4 * mux4) / (muv4 + mux2 - 4 * muv2 * mux2))
-- 
2.43.0


From 25bf59430be33e8ac85828ffa0c0c8bfe280da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 22/50] fix: line energies of the right-handed neutrino use the
 model's channel names

---
 hazma/rh_neutrino/_model.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6239098..d38dd94 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -226,7 +226,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -238,10 +238,11 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
     def _positron_line_energies(self) -> Dict[str, float]:
         if self.flavor == "e":
             return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
-                / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
-                / (2.0 * self.mx),
+                f"{self._lstr} {meson}": (
+                    self.mx**2 + self.ml**2 - sm_masses[meson] ** 2
+                )
+                / (2.0 * self.mx)
+                for meson in ("k", "pi", "rho")
             }
         return {}
 
@@ -257,11 +258,9 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         vv = self._vstr
         mx = self.mx
 
-        if self.mx > sm_masses["pi0"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
-
-        if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+        for meson in ("pi0", "eta", "rho", "omega", "phi"):
+            if mx > sm_masses[meson]:
+                lines[f"{vv} {meson}"] = (mx**2 - sm_masses[meson] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From 5a4f702275eb8168103879228d9f073c7116a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 23/50] fix: total neutrino spectrum of the GeV vector mediator
 returns the total

---
 hazma/vector_mediator/_gev/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 75ab779..089e6fa 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1076,8 +1076,8 @@ class VectorMediatorGeV(TheoryAnn):
         """
 
         if hasattr(energies, "__len__"):
-            return self.neutrino_spectra(energies, e_cm, flavor=flavor)
-        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+            return self.neutrino_spectra(energies, e_cm, flavor=flavor)["total"]
+        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)["total"]
 
 
 class KineticMixingGeV(VectorMediatorGeV):
-- 
2.43.0


From b95aec82e450c53c33fa7326957b4bfa77ff89f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 24/50] fix: GeV vector mediator advertises annihilation into
 mediators

---
 hazma/vector_mediator/_gev/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 089e6fa..2d1b305 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -951,6 +951,7 @@ class VectorMediatorGeV(TheoryAnn):
             "pi k k0",
             "pi pi pi pi",
             "pi pi pi0 pi0",
+            "v v",
         ]
 
     # ========================================================================
-- 
2.43.0


From 218da59a1cb2ce79737bc3b2a47b73bfd07d566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:36 +0000
Subject: [PATCH 25/50] fix: line energies of the single-channel models are
 numbers under the channel's name

---
 hazma/single_channel.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index a72c332..f79e8d7 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -9,6 +9,9 @@ from hazma.theory import TheoryAnn, TheoryDec
 from hazma.parameters import standard_model_masses as sm_masses
 from hazma import spectra
 
+# Names of the photon in `standard_model_masses`
+_PHOTONS = ("a", "photon")
+
 
 class SingleChannelAnn(TheoryAnn):
     """Model with dark matter annihilating into a single final state."""
@@ -84,7 +87,7 @@ class SingleChannelAnn(TheoryAnn):
     def _spectrum_funcs(self) -> Dict[str, Callable]:
         return {self.fs: self.__spectrum_func("photon")}
 
-    def _gamma_ray_line_energies(self, e_cm) -> Dict:
+    def _gamma_ray_line_energies(self, e_cm) -> Dict[str, float]:
         lines = {}
         if len(self._final_states) == 2:
             s1, s2 = self._final_states
@@ -94,12 +97,10 @@ class SingleChannelAnn(TheoryAnn):
                 (e_cm**2 - m1**2 + m2**2) / (2 * e_cm),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in _PHOTONS:
+                lines[self.fs] = energies[0]
+            elif s2 in _PHOTONS:
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +118,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -210,12 +211,10 @@ class SingleChannelDec(TheoryDec):
                 (mx**2 - m1**2 + m2**2) / (2 * mx),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in _PHOTONS:
+                lines[self.fs] = energies[0]
+            elif s2 in _PHOTONS:
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -234,9 +233,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From c328769b1a23fd55f45bb62165e77cad19ae4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 26/50] fix: n-body mediator spectra use each particle's own
 energy distribution

The form factors order their energy distributions by final-state masses; the
GeV mediator's spectra paired the decay spectra with them in another order, and
took the radiation of the charged pions from the (pi0, pi) invariant mass.
---
 hazma/vector_mediator/_gev/neutrino.py | 14 +++++++-------
 hazma/vector_mediator/_gev/positron.py | 14 +++++++-------
 hazma/vector_mediator/_gev/spectra.py  | 16 ++++++++--------
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 6c3c96e..28a483a 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -509,9 +509,9 @@ def dnde_neutrino_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -556,9 +556,9 @@ def dnde_neutrino_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -601,9 +601,9 @@ def dnde_neutrino_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta_prime,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -646,9 +646,9 @@ def dnde_neutrino_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -691,9 +691,9 @@ def dnde_neutrino_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +737,9 @@ def dnde_neutrino_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_long_kaon,
         spectra.dnde_neutrino_short_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -784,9 +784,9 @@ def dnde_neutrino_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 913b41a..7b97dfb 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -438,9 +438,9 @@ def dnde_positron_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_positron_zero,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -480,9 +480,9 @@ def dnde_positron_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_positron_eta,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -522,9 +522,9 @@ def dnde_positron_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_positron_eta_prime,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -564,9 +564,9 @@ def dnde_positron_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -606,9 +606,9 @@ def dnde_positron_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         _dnde_positron_zero,
         _dnde_positron_zero,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -649,9 +649,9 @@ def dnde_positron_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_long_kaon,
         spectra.dnde_positron_short_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -693,9 +693,9 @@ def dnde_positron_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_charged_kaon,
         spectra.dnde_positron_charged_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 15d1157..b14880e 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -443,9 +443,9 @@ def dnde_photon_pi_pi_pi0(
     couplings = self._couplings
 
     dnde_decays = [
+        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(q=cme, couplings=couplings, nbins=nbins, npts=npts)
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -454,7 +454,7 @@ def dnde_photon_pi_pi_pi0(
         q=cme, couplings=couplings, nbins=nbins
     )
 
-    dist = inv_mass_dist[(0, 1)]
+    dist = inv_mass_dist[(1, 2)]
     ps = dist.probabilities
     ms = dist.bin_centers
 
@@ -489,9 +489,9 @@ def dnde_photon_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_photon_eta,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -522,9 +522,9 @@ def dnde_photon_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_photon_eta_prime,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta_prime,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -555,9 +555,9 @@ def dnde_photon_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -579,9 +579,9 @@ def dnde_photon_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -603,9 +603,9 @@ def dnde_photon_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_long_kaon,
         spectra.dnde_photon_short_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -625,9 +625,9 @@ def dnde_photon_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
-- 
2.43.0


From b56935845fc3d73a9f0be9ceb3f0c43c34521a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 27/50] fix: GeV mediator spectra of kaon and four-pion
 channels use the particles of the channel

---
 hazma/vector_mediator/_gev/neutrino.py | 21 ++++++++++++++-------
 hazma/vector_mediator/_gev/positron.py | 21 ++++++++++++++-------
 hazma/vector_mediator/_gev/spectra.py  | 15 +++++++++++----
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 28a483a..ab6a1ac 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -256,7 +256,7 @@ def dnde_neutrino_k_k(
     if cme < 2 * mk:
         return _make_zeros(neutrino_energies)
 
-    dec = spectra.dnde_neutrino_charged_kaon(
+    dec = 2 * spectra.dnde_neutrino_charged_kaon(
         neutrino_energies, cme / 2.0, flavor=flavor
     )
     return dec
@@ -800,6 +800,13 @@ def dnde_neutrino_pi0_k_k(
     return dec
 
 
+def _dnde_neutrino_neutral_kaon(neutrino_energies, eng, flavor: NeutrinoFlavor):
+    """Spectrum of a neutral kaon: an equal mixture of the long and short kaons."""
+    dec_l = spectra.dnde_neutrino_long_kaon(neutrino_energies, eng, flavor)
+    dec_s = spectra.dnde_neutrino_short_kaon(neutrino_energies, eng, flavor)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_neutrino_pi_k_k0(
     self: _DecayDndeNeutrino,
     neutrino_energies,
@@ -831,9 +838,9 @@ def dnde_neutrino_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
-        spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_neutral_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -883,8 +890,8 @@ def dnde_neutrino_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
     ]
@@ -931,8 +938,8 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 7b97dfb..1c9562a 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -226,7 +226,7 @@ def dnde_positron_k_k(
     if cme < 2 * mk:
         return np.zeros_like(positron_energies)
 
-    dec = spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
+    dec = 2 * spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
     return dec
 
 
@@ -709,6 +709,13 @@ def dnde_positron_pi0_k_k(
     return dec
 
 
+def _dnde_positron_neutral_kaon(positron_energies, eng):
+    """Spectrum of a neutral kaon: an equal mixture of the long and short kaons."""
+    dec_l = spectra.dnde_positron_long_kaon(positron_energies, eng)
+    dec_s = spectra.dnde_positron_short_kaon(positron_energies, eng)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_positron_pi_k_k0(
     self: _DecayDndePostiron,
     positron_energies,
@@ -737,9 +744,9 @@ def dnde_positron_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
-        spectra.dnde_positron_charged_kaon,
+        _dnde_positron_neutral_kaon,
         spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -786,8 +793,8 @@ def dnde_positron_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
     ]
@@ -831,8 +838,8 @@ def dnde_positron_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         _dnde_positron_zero,
         _dnde_positron_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index b14880e..de3af1f 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -638,6 +638,13 @@ def dnde_photon_pi0_k_k(
     return dec
 
 
+def _dnde_photon_neutral_kaon(photon_energies, eng):
+    """Spectrum of a neutral kaon: an equal mixture of the long and short kaons."""
+    dec_l = spectra.dnde_photon_long_kaon(photon_energies, eng)
+    dec_s = spectra.dnde_photon_short_kaon(photon_energies, eng)
+    return 0.5 * (dec_l + dec_s)
+
+
 def dnde_photon_pi_k_k0(
     self, photon_energies, cme: float, *, npts: int = 1 << 14, nbins=25
 ):
@@ -647,9 +654,9 @@ def dnde_photon_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_charged_kaon,
+        _dnde_photon_neutral_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -677,8 +684,8 @@ def dnde_photon_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_photon_charged_kaon,
-        spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
+        spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
     ]
-- 
2.43.0


From 854a61240dcc164f53f71d321b5fcca0f5937c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 28/50] fix: pi0 pi0 gamma spectrum does not weight the omega
 decay a second time

---
 hazma/vector_mediator/_gev/spectra.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index de3af1f..6d298f8 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -389,9 +389,6 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
 
     dnde = spectra.dnde_photon_neutral_pion(photon_energies, epi1)
 
-    # Contributions from omega decay into pi0 + gamma:
-    br_omega_to_pi0_a = 8.34e-2
-
     # Factors to boost from omega rest-frame to V rest-frame.
     gamma2 = eomega / momega
     beta2 = np.sqrt(1.0 - gamma2**-2)
@@ -402,15 +399,14 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
     # Final state photon from omega decay: In the omega rest-frame, the
     # spectrum is a delta-function. We perform one boost to bring into the V
     # rest-frame.
-    pre = br_omega_to_pi0_a
     e0 = (momega**2 - mpi0**2) / (2 * momega)
-    dnde += pre * boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
+    dnde += boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
 
     # Double-boosted neutral pion: In the pion rest-frame, the spectra is a
     # delta-function. We then boost this into the omega rest-frame, then again
     # into the V rest-frame.
     br_pi0_to_a_a = 98.823e-2
-    pre = 2.0 * br_omega_to_pi0_a * br_pi0_to_a_a
+    pre = 2.0 * br_pi0_to_a_a
     e0 = mpi0 / 2.0
     dnde += pre * double_boost_delta_function(
         photon_energies, e0=e0, m=0.0, beta1=beta1, beta2=beta2
-- 
2.43.0


From bf266390672e75086e8a27743014843d5608b945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 29/50] fix: positron spectrum of the vector mediator's mu mu
 channel is the positron spectrum of the muon

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From e1db55c83bb6a0303060898734afd5b3b848e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:10 +0000
Subject: [PATCH 30/50] fix: GeV v v spectra weight the mediator's decays by
 their branching fractions

The positron and neutrino spectra summed every channel with unit weight at the
annihilation energy, with the boost inverted; the photon spectrum did the same
for its lines and put the pi0 gamma line at the charged pion's mass.
---
 hazma/vector_mediator/_gev/neutrino.py | 87 ++++++++++++++++----------
 hazma/vector_mediator/_gev/positron.py | 84 +++++++++++++++----------
 hazma/vector_mediator/_gev/spectra.py  | 15 +++--
 3 files changed, 115 insertions(+), 71 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index ab6a1ac..7e16c94 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -24,6 +24,7 @@ from hazma.form_factors.vector import (
 )
 from hazma.parameters import charged_kaon_mass as mk
 from hazma.parameters import charged_pion_mass as mpi
+from hazma.parameters import electron_mass as me
 from hazma.parameters import eta_mass as meta
 from hazma.parameters import eta_prime_mass as metap
 from hazma.parameters import muon_mass as mmu
@@ -63,6 +64,8 @@ class _DecayDndeNeutrino(Protocol):
     _ff_pi_pi_pi_pi: vff.VectorFormFactorPiPiPiPi
     _ff_pi_pi_pi0_pi0: vff.VectorFormFactorPiPiPi0Pi0
 
+    def partial_widths(self) -> dict[str, float]: ...
+
 
 def _make_zeros(neutrino_energies):
     dtype = neutrino_energies.dtype
@@ -955,6 +958,52 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     return dnde
 
 
+def _dnde_neutrino_v_v_rest_frame(
+    self: _DecayDndeNeutrino,
+    neutrino_energies,
+    flavor: NeutrinoFlavor,
+    *,
+    npts: int = 1 << 15,
+    nbins: int = 30,
+):
+    """Compute the spectrum from the decays of two vector mediators at rest."""
+    if self.mv < 2 * me:
+        return _make_zeros(neutrino_energies)
+
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    pws = {key: val / pw for key, val in pws.items()}
+
+    kwargs = {"npts": npts, "nbins": nbins}
+    kwargs2 = {"nbins": nbins}
+
+    # Factor of 2 for 2 vectors
+    args = (neutrino_energies, self.mv, flavor)
+    return 2 * (
+        pws["e e"] * dnde_neutrino_e_e(self, *args)
+        + pws["mu mu"] * dnde_neutrino_mu_mu(self, *args)
+        + pws["pi pi"] * dnde_neutrino_pi_pi(self, *args)
+        + pws["k0 k0"] * dnde_neutrino_k0_k0(self, *args)
+        + pws["k k"] * dnde_neutrino_k_k(self, *args)
+        + pws["pi0 gamma"] * dnde_neutrino_pi0_gamma(self, *args)
+        + pws["eta gamma"] * dnde_neutrino_eta_gamma(self, *args)
+        + pws["pi0 phi"] * dnde_neutrino_pi0_phi(self, *args)
+        + pws["eta phi"] * dnde_neutrino_eta_phi(self, *args)
+        + pws["eta omega"] * dnde_neutrino_eta_omega(self, *args)
+        + pws["pi0 pi0 gamma"] * dnde_neutrino_pi0_pi0_gamma(self, *args)
+        + pws["pi pi pi0"] * dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
+        + pws["pi pi eta"] * dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
+        + pws["pi pi etap"] * dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
+        + pws["pi pi omega"] * dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
+        + pws["pi0 pi0 omega"] * dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
+        + pws["pi0 k0 k0"] * dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
+        + pws["pi0 k k"] * dnde_neutrino_pi0_k_k(self, *args, **kwargs)
+        + pws["pi k k0"] * dnde_neutrino_pi_k_k0(self, *args, **kwargs)
+        + pws["pi pi pi pi"] * dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
+        + pws["pi pi pi0 pi0"] * dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
+    )
+
+
 def dnde_neutrino_v_v(
     self: _DecayDndeNeutrino,
     neutrino_energies,
@@ -981,44 +1030,16 @@ def dnde_neutrino_v_v(
     dnde: array
         Spectrum evaluated at `neutrino_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return _make_zeros(neutrino_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
-    kwargs = {"npts": npts, "nbins": nbins}
-    kwargs2 = {"nbins": nbins}
-
-    def dnde(es):
-        args = (es, cme, flavor)
-        spec = np.zeros_like(es)
-        spec += dnde_neutrino_e_e(self, *args)
-        spec += dnde_neutrino_mu_mu(self, *args)
-        spec += dnde_neutrino_pi_pi(self, *args)
-        spec += dnde_neutrino_k0_k0(self, *args)
-        spec += dnde_neutrino_k_k(self, *args)
-        spec += dnde_neutrino_pi0_gamma(self, *args)
-        spec += dnde_neutrino_eta_gamma(self, *args)
-        spec += dnde_neutrino_pi0_phi(self, *args)
-        spec += dnde_neutrino_eta_phi(self, *args)
-        spec += dnde_neutrino_eta_omega(self, *args)
-        spec += dnde_neutrino_pi0_pi0_gamma(self, *args)
-        spec += dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    booster = boost.make_boost_function(dnde, mass=0.0)
-    return booster(neutrino_energies, beta, method=method)
+    dnde = _dnde_neutrino_v_v_rest_frame(
+        self, neutrino_energies, flavor, npts=npts, nbins=nbins
+    )
+    return boost.dnde_boost_array(dnde, neutrino_energies, beta, mass=0.0)
 
 
 NeutrinoSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 1c9562a..79552e6 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -63,6 +63,8 @@ class _DecayDndePostiron(Protocol):
     _ff_pi_pi_pi_pi: vff.VectorFormFactorPiPiPiPi
     _ff_pi_pi_pi0_pi0: vff.VectorFormFactorPiPiPi0Pi0
 
+    def partial_widths(self) -> dict[str, float]: ...
+
 
 def _make_spectrum_n_body_decay(
     positron_energies,
@@ -855,6 +857,51 @@ def dnde_positron_pi_pi_pi0_pi0(
     return dnde
 
 
+def _dnde_positron_v_v_rest_frame(
+    self: _DecayDndePostiron,
+    positron_energies,
+    *,
+    npts: int = 1 << 15,
+    nbins: int = 30,
+):
+    """Compute the spectrum from the decays of two vector mediators at rest."""
+    if self.mv < 2 * me:
+        return np.zeros_like(positron_energies)
+
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    pws = {key: val / pw for key, val in pws.items()}
+
+    kwargs = {"npts": npts, "nbins": nbins}
+    kwargs2 = {"nbins": nbins}
+
+    # Factor of 2 for 2 vectors
+    args = (positron_energies, self.mv)
+    return 2 * (
+        pws["e e"] * dnde_positron_e_e(self, *args)
+        + pws["mu mu"] * dnde_positron_mu_mu(self, *args)
+        + pws["pi pi"] * dnde_positron_pi_pi(self, *args)
+        + pws["k0 k0"] * dnde_positron_k0_k0(self, *args)
+        + pws["k k"] * dnde_positron_k_k(self, *args)
+        + pws["pi0 gamma"] * dnde_positron_pi0_gamma(self, *args)
+        + pws["eta gamma"] * dnde_positron_eta_gamma(self, *args)
+        + pws["pi0 phi"] * dnde_positron_pi0_phi(self, *args)
+        + pws["eta phi"] * dnde_positron_eta_phi(self, *args)
+        + pws["eta omega"] * dnde_positron_eta_omega(self, *args)
+        + pws["pi0 pi0 gamma"] * dnde_positron_pi0_pi0_gamma(self, *args)
+        + pws["pi pi pi0"] * dnde_positron_pi_pi_pi0(self, *args, **kwargs)
+        + pws["pi pi eta"] * dnde_positron_pi_pi_eta(self, *args, **kwargs2)
+        + pws["pi pi etap"] * dnde_positron_pi_pi_etap(self, *args, **kwargs2)
+        + pws["pi pi omega"] * dnde_positron_pi_pi_omega(self, *args, **kwargs2)
+        + pws["pi0 pi0 omega"] * dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
+        + pws["pi0 k0 k0"] * dnde_positron_pi0_k0_k0(self, *args, **kwargs)
+        + pws["pi0 k k"] * dnde_positron_pi0_k_k(self, *args, **kwargs)
+        + pws["pi k k0"] * dnde_positron_pi_k_k0(self, *args, **kwargs)
+        + pws["pi pi pi pi"] * dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
+        + pws["pi pi pi0 pi0"] * dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
+    )
+
+
 def dnde_positron_v_v(
     self: _DecayDndePostiron,
     positron_energies,
@@ -878,45 +925,16 @@ def dnde_positron_v_v(
     dnde: array
         Spectrum evaluated at `photon_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return np.zeros_like(positron_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
-    kwargs = {"npts": npts, "nbins": nbins}
-    kwargs2 = {"nbins": nbins}
-
-    def dnde(es):
-        args = (es, cme)
-        spec = np.zeros_like(es)
-        spec += dnde_positron_e_e(self, *args)
-        spec += dnde_positron_mu_mu(self, *args)
-        spec += dnde_positron_pi_pi(self, *args)
-        spec += dnde_positron_k0_k0(self, *args)
-        spec += dnde_positron_k_k(self, *args)
-        spec += dnde_positron_pi0_gamma(self, *args)
-        spec += dnde_positron_eta_gamma(self, *args)
-        spec += dnde_positron_pi0_phi(self, *args)
-        spec += dnde_positron_eta_phi(self, *args)
-        spec += dnde_positron_eta_omega(self, *args)
-        spec += dnde_positron_pi0_pi0_gamma(self, *args)
-        spec += dnde_positron_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_positron_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    return boost.make_boost_function(dnde, mass=me)(
-        positron_energies, beta, method=method
+    dnde = _dnde_positron_v_v_rest_frame(
+        self, positron_energies, npts=npts, nbins=nbins
     )
+    return boost.dnde_boost_array(dnde, positron_energies, beta, mass=me)
 
 
 PositronSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 6d298f8..1feff9e 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -830,7 +830,7 @@ def dnde_photon_v_v(
     ev = 0.5 * cme
     mv = self.mv
     gamma = ev / mv
-    if gamma < 1.0:
+    if gamma < 1.0 or mv < 2 * me:
         return np.zeros_like(photon_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
@@ -838,11 +838,16 @@ def dnde_photon_v_v(
     dnde = _dnde_photon_v_v_rest_frame(self, photon_energies, npts=npts, nbins=nbins)
     boosted = boost.dnde_boost_array(dnde, photon_energies, beta)
 
-    # Factor of 2 for 2 vectors
-    e0pi = 0.5 * (mv - mpi**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0pi, 0.0, beta)
+    # Photons recoiling against a meson are monochromatic in the rest-frame of
+    # the vector. Factor of 2 for 2 vectors.
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    e0pi = 0.5 * (mv - mpi0**2 / mv)
+    pre = 2 * pws["pi0 gamma"] / pw
+    boosted += pre * boost_delta_function(photon_energies, e0pi, 0.0, beta)
     e0eta = 0.5 * (mv - meta**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0eta, 0.0, beta)
+    pre = 2 * pws["eta gamma"] / pw
+    boosted += pre * boost_delta_function(photon_energies, e0eta, 0.0, beta)
 
     return boosted
 
-- 
2.43.0


From d141783edd884e1367dd934a9ca11a2cdf2179a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:25 +0000
Subject: [PATCH 31/50] fix: RH neutrino spectra of the eta and charged rho
 channels use those particles

---
 hazma/rh_neutrino/_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From 3502823f56169f1d2b795687517f124f1c1839f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 32/50] fix: total spectra of a scalar energy are scalars

total_spectrum and total_positron_spectrum wrap a scalar energy in an array
and returned the array of length one, which scipy's quad cannot integrate
(f_eff and every CMB limit raised TypeError with current NumPy).
---
 hazma/theory/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 6e8d451..05c7188 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -206,7 +206,7 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams, e_cm)["total"]
         else:
-            return self.spectra(np.array([e_gams]), e_cm)["total"]
+            return np.atleast_1d(self.spectra(np.array([e_gams]), e_cm)["total"])[0]
 
     @abstractmethod
     def _gamma_ray_line_energies(self, e_cm) -> Dict[str, float]:
@@ -370,7 +370,9 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps, e_cm)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            return np.atleast_1d(
+                self.positron_spectra(np.array([e_ps]), e_cm)["total"]
+            )[0]
 
     @abstractmethod
     def _positron_line_energies(self, e_cm) -> Dict[str, float]:
@@ -560,7 +562,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_gams, "__len__"):
             return self.spectra(e_gams)["total"]
         else:
-            return self.spectra(np.array([e_gams]))["total"]
+            return np.atleast_1d(self.spectra(np.array([e_gams]))["total"])[0]
 
     @abstractmethod
     def _gamma_ray_line_energies(self) -> Dict[str, float]:
@@ -629,7 +631,7 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         if hasattr(e_ps, "__len__"):
             return self.positron_spectra(e_ps)["total"]
         else:
-            return self.positron_spectra(np.array([e_ps]))["total"]
+            return np.atleast_1d(self.positron_spectra(np.array([e_ps]))["total"])[0]
 
     @abstractmethod
     def _positron_line_energies(self) -> Dict[str, float]:
-- 
2.43.0


From 1b0c7fd65e44c23884c1ed51d5feec88ea543189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 33/50] fix: order of the states in the N -> v l l' matrix
 element

When the first lepton carries the flavor of the RHN the matrix element was
paired with the masses (0, ml2, ml1), while the energy distributions and
spectra use it for the states (v, l1, l2).
---
 hazma/rh_neutrino/_widths.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..020a851 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -603,11 +603,14 @@ def _make_msqrd_and_masses_v_l_l(
             return _msqrd_v_f_f(s, t, model, ml1)
 
     elif (genn == genl1) and (genv == genl2):
+        # Here the lepton with the flavor of the RHN is the second state rather
+        # than the third, which interchanges t=(p1+p3)^2 and u=(p1+p2)^2.
         mu, md, ml = 0.0, ml2, ml1
-        masses = (mu, md, ml)
+        masses = (mu, ml, md)
 
         def msqrd(s, t):
-            return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
+            u = model.mx**2 + mu**2 + md**2 + ml**2 - s - t
+            return _msqrd_l_u_d(s, u, model, mu, md, ml, 1.0)
 
     elif (genn == genl2) and (genv == genl1):
         mu, md, ml = 0.0, ml1, ml2
-- 
2.43.0


From 7f9e18fead70976a3233fabbb874c14dd6a59908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 34/50] fix: shape of the image of custom_constrain on
 non-square grids

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index 556dba9..fdc371c 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid, leaving this theory as it was
         state = self.__dict__.copy()
-- 
2.43.0


From 84047488005f34999cf6d694cb4da6799193d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 35/50] fix: rest-frame limit of make_boost_function with extra
 arguments

The spectrum was called without 'args', and a negative velocity was taken for
a vanishing one instead of returning zeros.
---
 hazma/spectra/boost.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..44752e3 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -277,14 +277,14 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
         #   1. beta ~ 0: In rest frame => no boost
         #   2. beta > 1 or beta < 0: Unphysical.
 
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
+        if 0.0 <= beta < np.finfo(energies.dtype).eps:
+            return fn(energies, *args)
 
         if beta < 0.0 or beta > 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
@@ -350,7 +350,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
-- 
2.43.0


From a8cdbb2ce75432b704fc59e24c59174dd6bd8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 36/50] fix: width_v_to_pi0_pi0 had no cache entry and always
 raised

---
 hazma/vector_mediator/_gev/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 2d1b305..4e40900 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -185,6 +185,7 @@ class VectorMediatorGeV(TheoryAnn):
         self._width_cache = {
             name: {"value": 0.0, "valid": False, "kwargs": {}} for name in final_states
         }
+        self._width_cache["pi0 pi0"] = {"value": 0.0, "valid": False, "kwargs": {}}
         self._width_cache["x x"] = {"value": 0.0, "valid": False, "kwargs": {}}
 
     # ========================================================================
-- 
2.43.0


From 8a2d2581c620c2d4d39014d9703952094cb4499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 37/50] fix: single-flavor neutrino spectrum of a scalar energy
 is a scalar

---
 hazma/spectra/_neutrino/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7a7e705..aa5d1c2 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -95,7 +95,7 @@ def dnde_neutrino(
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
 
     if flavor == "tau":
-        return dnde[2]
+        return dnde[2, 0] if scalar else dnde[2]
 
     for i, flav, inter in [(0, "e", interp_e), (1, "mu", interp_mu)]:
         if not flavor or flavor == flav:
@@ -107,7 +107,7 @@ def dnde_neutrino(
             )
 
             if flavor == flav:
-                return dnde_
+                return dnde_[0] if scalar else dnde_
             else:
                 dnde[i] = dnde_
 
-- 
2.43.0


From dcbba44d28562aca00099036f30cb7096778f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 38/50] fix: convert_sigmav accepts the documented 'cm^3/s' and
 rejects unknown units

It returned None for both.
---
 hazma/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index beba99d..1ed13a3 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -370,11 +370,13 @@ def convert_sigmav(sv, target):
     # hbar^2 c^3 in units of MeV^2 cm^3 / s
     hbar2_c3 = (3.0e10) ** 3 * (6.58e-22) ** 2
 
-    if target == "cm^3 / s":
+    if target in ["cm^3/s", "cm^3 / s"]:
         return sv * hbar2_c3
     elif target == "MeV^-2":
         return sv / hbar2_c3
 
+    raise ValueError(f"Invalid target units {target}. Use 'MeV^-2' or 'cm^3/s'.")
+
 
 def load_interp(rf_name, bounds_error=False, fill_value=0.0):
     """Creates an interpolator from a data file.
-- 
2.43.0


From 8284b5353278531fa28b05dad9850ff2611494f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 39/50] fix: constrain and custom_constrain reject unknown
 result types

They ran the whole scan and returned None.
---
 hazma/theory/_theory_constrain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index fdc371c..06dbef1 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -54,6 +54,8 @@ class TheoryConstrain:
             return imgs
         elif ls_or_img == "ls":
             raise NotImplementedError("currently does not work")
+        else:
+            raise ValueError(f"Invalid result type {ls_or_img}. Use 'image' or 'ls'.")
 
     def constrain(self, p1, p1_vals, p2, p2_vals, ls_or_img="image"):
         """Computes constraints over 2D slice of parameter space.
@@ -118,6 +120,8 @@ class TheoryConstrain:
             return imgs
         elif ls_or_img == "ls":
             raise NotImplementedError("currently does not work")
+        else:
+            raise ValueError(f"Invalid result type {ls_or_img}. Use 'image' or 'ls'.")
 
     def _constrain_binned_gamma_helper(self, measurement, n_sigma=2, method="1bin"):
         """
-- 
2.43.0


From dc86c9e930785455f20175bfa23b73faec3265db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 40/50] fix: neutrino spectra reject unknown flavors

All but the muon and charged pion spectra returned zeros.
---
 hazma/spectra/_neutrino/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index aa5d1c2..2096d13 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -90,6 +90,9 @@ def dnde_neutrino(
     flavor: Optional[str] = None,
 ) -> Union[RealArray, float]:
 
+    if flavor is not None and flavor not in ["e", "mu", "tau"]:
+        raise ValueError(f"Invalid flavor {flavor}. Use 'e', 'mu' or 'tau'.")
+
     scalar = np.isscalar(neutrino_energy)
     enu = np.atleast_1d(neutrino_energy).astype(np.float64)
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
-- 
2.43.0


From 2cc53e46b9043076527fb4df52df47490f07e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 41/50] fix: width_v_to_ff rejects unknown fermions like its
 siblings

---
 hazma/vector_mediator/_vector_mediator_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_widths.py b/hazma/vector_mediator/_vector_mediator_widths.py
index 2992666..c2a50e9 100644
--- a/hazma/vector_mediator/_vector_mediator_widths.py
+++ b/hazma/vector_mediator/_vector_mediator_widths.py
@@ -66,7 +66,7 @@ class VectorMediatorWidths:
             mf = mmu
             gvll = self.gvmumu
         else:
-            return 0.0
+            raise ValueError(f"Invalid fermion string {f}. Expected 'e' or 'mu'.")
 
         mv = self.mv
 
-- 
2.43.0


From fc13e2ba7230f4fcd3428308c6239a45ec9103ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 42/50] fix: n-body spectra reject an unknown msqrd_signature
 with every integrator

ThreeBody rejects it, the Rambo branch took it for 'momenta'.
---
 hazma/spectra/_nbody.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 8830b6a..c8d9218 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -41,6 +41,11 @@ def _momenta_msqrd(
     r"""Express a three-body matrix element of `s=(p2+p3)^2` and `t=(p1+p3)^2`
     as a function of the momenta, which is what `Rambo` requires.
     """
+    if msqrd_signature not in [None, "momenta", "st"]:
+        raise ValueError(
+            f"Invalid 'msqrd_signature' {msqrd_signature}. Use 'momenta' or 'st'."
+        )
+
     if msqrd is None or len(final_states) != 3 or msqrd_signature != "st":
         return msqrd
 
-- 
2.43.0


From 2046ebade556415215925af53d13e2e9f388304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 43/50] fix: RHNeutrino.decay_width accepts a single final
 state as documented

A string was iterated character by character and raised KeyError.
---
 hazma/rh_neutrino/_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index d38dd94..4f2ed35 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -176,6 +176,9 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         KeyError
             If one of the final states doesn't exist, a KeyError is raised.
         """
+        if isinstance(final_states, str):
+            final_states = [final_states]
+
         return {fs: self._decay_width(fs) for fs in final_states}
 
     def decay_widths(self) -> Dict[str, float]:
-- 
2.43.0


From 9721ea466d4ec435218ba24a79e8b70d1414b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 44/50] fix: ThreeBody.invariant_mass_distributions documents
 only the integration methods it has

---
 hazma/phase_space/_three_body.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index 5a81acf..24ebe63 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -685,8 +685,6 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
             Method used to integrate over phase space. Can be:
 
                 * 'quad': Numerical quadrature using scipy's 'quad',
-                * 'trapz': Trapiziod rule using scipy's 'trapezoid',
-                * 'simps': Simpson's rule using scipy's 'simpson',
                 * 'rambo': Monte-Carlo integration.
         npts: int
             Number of phase-space points to use to integrate squared matrix
-- 
2.43.0


From 0da500aeda9eb6bf840cdf3870c716f71fe168de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 45/50] fix: make_marginal_fn and marginalize accept the
 documented method 'trapezoid'

---
 hazma/spectra/convolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 917029b..c28eaa8 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -52,7 +52,7 @@ def make_marginal_fn(
         the center-of-mass energy. The returned function has the signature
         `marginalize(product_energies)`.
     """
-    methods = ["trapz", "simpson"]
+    methods = ["trapz", "trapezoid", "simpson"]
     assert method in methods
 
     cmes_ = np.expand_dims(np.array(cmes), 1)
@@ -65,7 +65,7 @@ def make_marginal_fn(
 
     integrand = np.vectorize(dnde_fn, excluded=excluded)
 
-    if method == "trapz":
+    if method in ("trapz", "trapezoid"):
         integrator = np.trapezoid
     else:
         integrator = integrate.simpson
-- 
2.43.0


From ce1cb3bab58780f6b5436a9fd24add3be69bd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 46/50] fix: form factors of a single energy are in the same
 units as those of an array

---
 hazma/form_factors/vector/_eta_omega.py | 2 +-
 hazma/form_factors/vector/_eta_phi.py   | 2 +-
 hazma/form_factors/vector/_pi_gamma.py  | 2 +-
 hazma/form_factors/vector/_pi_omega.py  | 2 +-
 hazma/form_factors/vector/_pi_phi.py    | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hazma/form_factors/vector/_eta_omega.py b/hazma/form_factors/vector/_eta_omega.py
index 1c8ab70..ca0cdd5 100644
--- a/hazma/form_factors/vector/_eta_omega.py
+++ b/hazma/form_factors/vector/_eta_omega.py
@@ -146,7 +146,7 @@ class VectorFormFactorEtaOmega(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_eta_phi.py b/hazma/form_factors/vector/_eta_phi.py
index cf43499..2f7668e 100644
--- a/hazma/form_factors/vector/_eta_phi.py
+++ b/hazma/form_factors/vector/_eta_phi.py
@@ -141,7 +141,7 @@ class VectorFormFactorEtaPhi(VectorFormFactorPV):
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, gvss=couplings[2])
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_gamma.py b/hazma/form_factors/vector/_pi_gamma.py
index b017d40..eaf6cac 100644
--- a/hazma/form_factors/vector/_pi_gamma.py
+++ b/hazma/form_factors/vector/_pi_gamma.py
@@ -192,7 +192,7 @@ class VectorFormFactorPi0Gamma(VectorFormFactorPA):
         ff[mask] = self.__form_factor(q=qq[mask], couplings=couplings)
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_omega.py b/hazma/form_factors/vector/_pi_omega.py
index d12f218..de68ad1 100644
--- a/hazma/form_factors/vector/_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_omega.py
@@ -189,7 +189,7 @@ class VectorFormFactorPi0Omega(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
diff --git a/hazma/form_factors/vector/_pi_phi.py b/hazma/form_factors/vector/_pi_phi.py
index e87dff9..be90272 100644
--- a/hazma/form_factors/vector/_pi_phi.py
+++ b/hazma/form_factors/vector/_pi_phi.py
@@ -188,7 +188,7 @@ class VectorFormFactorPi0Phi(VectorFormFactorPV):
         )
 
         if single:
-            return ff[0]
+            return ff[0] * 1e-3
 
         return ff * 1e-3
 
-- 
2.43.0


From 66e5c43f48ca6ee6a199f1f61d213892c270af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 47/50] fix: call_with_kinematic_threshold returns the value of
 the function for a number

---
 hazma/vector_mediator/_gev/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index 3226da9..039cd84 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -27,7 +27,7 @@ def call_with_kinematic_threshold(f, x, thresholds: List[float]):
     result = 0.0
     if accessible:
         result = f(x)
-    return 0.0
+    return result
 
 
 STR_TO_MASS: Dict[str, float] = {
-- 
2.43.0


From 4cfca444a5be4f2ba2c9002cc59d3959ddfe4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 48/50] fix: omega pi pi form factor accepts an array of
 energies as declared

---
 hazma/form_factors/vector/_pi_pi_omega.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_pi_omega.py b/hazma/form_factors/vector/_pi_pi_omega.py
index efdabf8..4cf28cb 100644
--- a/hazma/form_factors/vector/_pi_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_pi_omega.py
@@ -80,11 +80,13 @@ class _VectorFormFactorPiPiOmegaBase(VectorFormFactorPPV):
         an eta-prime.
         """
         ci0 = 3 * (couplings[0] + couplings[1])
+        qq = np.expand_dims(q, -1)
         return ci0 * np.sum(
             self.fit_data.amps
             * np.exp(1j * self.fit_data.phases)
             * self.fit_data.masses**2
-            / ((self.fit_data.masses**2 - q**2) - 1j * q * self.fit_data.widths)
+            / ((self.fit_data.masses**2 - qq**2) - 1j * qq * self.fit_data.widths),
+            axis=-1,
         )
 
     @overload
-- 
2.43.0


From 98c72be6f81ed608db4e60d941bdde8b7f2fad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 49/50] fix: three-body form factors document a single
 center-of-mass energy

---
 hazma/form_factors/vector/_pi_k_k.py |  4 ++--
 hazma/vector_mediator/_gev/model.py  | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_k_k.py b/hazma/form_factors/vector/_pi_k_k.py
index 7a29577..8ed0226 100644
--- a/hazma/form_factors/vector/_pi_k_k.py
+++ b/hazma/form_factors/vector/_pi_k_k.py
@@ -186,13 +186,13 @@ class _VectorFormFactorPiKKBase(VectorFormFactorPPP):
     ) -> ComplexArray: ...
 
     def form_factor(  # pylint: disable=arguments-differ
-        self, q, s: RealOrRealArray, t: RealOrRealArray, couplings: Couplings
+        self, q: float, s: RealOrRealArray, t: RealOrRealArray, couplings: Couplings
     ) -> ComplexOrComplexArray:
         r"""Compute the vector form-factor for a pion and two kaons.
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Squared invariant mass of the kaons s = (p2+p3)^2.
diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 4e40900..6b302c5 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -491,7 +491,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pπ⁺ + pπ⁻)^2.
@@ -510,7 +510,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pη + pπ⁺)^2.
@@ -529,7 +529,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pη' + pπ⁺)^2.
@@ -576,7 +576,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pπ⁰ + pK⁰)^2.
@@ -595,7 +595,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pπ⁰ + pK⁺)^2.
@@ -614,7 +614,7 @@ class VectorMediatorGeV(TheoryAnn):
 
         Parameters
         ----------
-        q: float or array-like
+        q: float
             Center-of-mass energy in MeV.
         s: float or array-like
             Mandelstam variable s=(pπ⁰ + pK⁺)^2.
-- 
2.43.0


From 95fa033a86d736960e4b638423d7f3b561b4d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:35 +0000
Subject: [PATCH 50/50] fix: relic-density limit works on a deep copy of the
 model

A shallow copy shares the mediator-width cache of the GeV vector models with
the model it was made from, which afterwards answered with the widths of the
last trial point.
---
 hazma/limits/_relic_density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_relic_density.py b/hazma/limits/_relic_density.py
index 6b0f1bc..bc2cbaf 100644
--- a/hazma/limits/_relic_density.py
+++ b/hazma/limits/_relic_density.py
@@ -1,4 +1,4 @@
-from copy import copy
+from copy import deepcopy
 import warnings
 
 import numpy as np
@@ -71,7 +71,7 @@ class RelicDensityLimit(AbstractLimit):
             setattr(model, self.prop, val)
 
     def _constrain(self, model):
-        model_ = copy(model)
+        model_ = deepcopy(model)
         lb = self.prop_min if not self.log else np.log10(self.prop_min)
         ub = self.prop_max if not self.log else np.log10(self.prop_max)
 
-- 
2.43.0

